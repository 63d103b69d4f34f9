package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

// Settle calls fn once the components must have handled everything that had
// reached them by now, whatever the scheduling: after the slack plus all lag
// that accumulates meanwhile.
func (w *World) Settle(fn func()) { w.SettleAfter(0, fn) }

// SettleAfter is Settle with an extra delay.
func (w *World) SettleAfter(d int64, fn func()) {
	t0, l0 := w.Now(), w.Lag()
	var again func()
	again = func() {
		if rest := d + w.slack() + (w.Lag() - l0) - (w.Now() - t0); rest > 0 {
			w.After(rest, again)
			return
		}
		fn()
	}
	w.After(d+w.slack(), again)
}

// wall is a stretch of time during which a process's clock was off by a
// constant.
type wall struct{ from, off int64 }

// clockLog records the clock steps of a node.
type clockLog struct {
	w     *World
	steps map[int32][]wall
}

func (w *World) watchClocks() *clockLog {
	c := &clockLog{w: w, steps: map[int32][]wall{}}
	old := w.on["clock"]
	w.on["clock"] = func(e *Ev) {
		old(e)
		if in := w.specs[e.N].inst; in != nil {
			c.steps[in.id] = append(c.steps[in.id], wall{w.Now(), e.A})
		}
	}
	return c
}

// Walls gives the values an instance's clock showed between two moments, as
// pieces [lo, hi].
func (c *clockLog) Walls(in *Inst, t0, t1 int64) [][2]int64 {
	// What the offset was at its birth: that of its predecessor's end.
	st := []wall{{0, 0}}
	for _, x := range in.spec.insts[:in.n+1] {
		st = append(st, c.steps[x.id]...)
	}
	var out [][2]int64
	for i, s := range st {
		to := int64(1) << 62
		if i+1 < len(st) {
			to = st[i+1].from
		}
		lo, hi := s.from, to
		if lo < t0 {
			lo = t0
		}
		if hi > t1 {
			hi = t1
		}
		if lo <= hi {
			out = append(out, [2]int64{c.w.plan.Epoch + lo + s.off, c.w.plan.Epoch + hi + s.off})
		}
	}
	return out
}

// epochNow is the true wall clock.
func (w *World) epochNow() int64 { return w.plan.Epoch + w.Now() }

// Sample is one metric line.
type Sample struct {
	Name   string
	Labels map[string]string
	Value  int64
	Milli  int64
	HasTs  bool
	Raw    string
}

func (s *Sample) Key() string {
	var ks []string
	for k, v := range s.Labels {
		ks = append(ks, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(ks)
	return s.Name + "{" + strings.Join(ks, ",") + "}"
}

// parseSample is a reference parser of the exposition format that the
// components speak.
func parseSample(line string) (*Sample, error) {
	s := &Sample{Labels: map[string]string{}, Raw: line}
	i := 0
	name := func(first string) (string, bool) {
		j := i
		for i < len(line) {
			c := line[i]
			if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || strings.IndexByte(first, c) >= 0 || c >= '0' && c <= '9' && i > j {
				i++
				continue
			}
			break
		}
		return line[j:i], i > j
	}
	var ok bool
	if s.Name, ok = name(":"); !ok {
		return nil, fmt.Errorf("no metric name")
	}
	if i < len(line) && line[i] == '{' {
		i++
		for i < len(line) && line[i] != '}' {
			k, ok := name("")
			if !ok || i+1 >= len(line) || line[i] != '=' || line[i+1] != '"' {
				return nil, fmt.Errorf("bad label at %d", i)
			}
			i += 2
			var v []byte
			for {
				if i >= len(line) {
					return nil, fmt.Errorf("unterminated label value")
				}
				if line[i] == '"' {
					i++
					break
				}
				if line[i] == '\\' {
					i++
					if i >= len(line) {
						return nil, fmt.Errorf("unterminated escape")
					}
					switch line[i] {
					case 'n':
						v = append(v, '\n')
					case '\\', '"':
						v = append(v, line[i])
					default:
						return nil, fmt.Errorf("bad escape")
					}
					i++
					continue
				}
				v = append(v, line[i])
				i++
			}
			if _, dup := s.Labels[k]; dup {
				return nil, fmt.Errorf("label %s twice", k)
			}
			s.Labels[k] = string(v)
			if i < len(line) && line[i] == ',' {
				i++
			} else if i < len(line) && line[i] != '}' {
				return nil, fmt.Errorf("no comma after a label")
			}
		}
		if i >= len(line) {
			return nil, fmt.Errorf("no closing brace")
		}
		i++
	}
	f := strings.Fields(line[i:])
	if len(f) < 1 || len(f) > 2 || i >= len(line) || line[i] != ' ' {
		return nil, fmt.Errorf("no value")
	}
	var err error
	if s.Value, err = strconv.ParseInt(f[0], 10, 64); err != nil {
		return nil, fmt.Errorf("bad value %q", f[0])
	}
	if len(f) == 2 {
		s.HasTs = true
		if s.Milli, err = strconv.ParseInt(f[1], 10, 64); err != nil {
			return nil, fmt.Errorf("bad timestamp %q", f[1])
		}
	}
	return s, nil
}

// cum is a cumulative count over time, with the lag at each moment.
type cum struct {
	t, lag []int64
	n      []int64
}

func (c *cum) add(w *World, n int64) {
	last := c.total()
	if k := len(c.t); k > 0 && c.t[k-1] == w.Now() {
		c.n[k-1] += n
		return
	}
	c.t = append(c.t, w.Now())
	c.lag = append(c.lag, w.Lag())
	c.n = append(c.n, last+n)
}

func (c *cum) total() int64 {
	if len(c.n) == 0 {
		return 0
	}
	return c.n[len(c.n)-1]
}

// before is the count a component must have been aware of by now.
func (c *cum) before(w *World, extra int64) int64 {
	now, lag := w.Now(), w.Lag()
	for i := len(c.t) - 1; i >= 0; i-- {
		if now-c.t[i]-(lag-c.lag[i]) > w.slack()+extra {
			return c.n[i]
		}
	}
	return 0
}

// sig is the multiset of a line's bytes.
func sig(b []byte) string {
	c := append([]byte(nil), b...)
	sort.Slice(c, func(i, j int) bool { return c[i] < c[j] })
	return string(c)
}

// isPermutation of the comma separated parts is all that sorting may do.
func trimNL(b []byte) []byte { return bytes.TrimSuffix(b, []byte("\n")) }

func goroutines(in *Inst) int { return runtime.SimGoroutines(in.id) }
func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max2(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (r *Rng) Perm(n int) []int {
	o := make([]int, n)
	for i := range o {
		j := r.N(i + 1)
		o[i] = o[j]
		o[j] = i
	}
	return o
}

// Shuffle puts n things into a random order.
func (r *Rng) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.N(i+1))
	}
}
