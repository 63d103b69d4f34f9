package main

import (
	"container/heap"
	"fmt"
	"runtime"
	"strings"
	"time"
)

// Times are virtual nanoseconds since the start of the run.
const (
	us  = int64(1000)
	ms  = int64(1000000)
	sec = int64(1000000000)
	min = 60 * sec
)

// Rng is a splitmix64 generator: the only source of chance in a run.
type Rng struct{ s uint64 }

func newRng(seed uint64, stream string) *Rng {
	h := uint64(14695981039346656037)
	for i := 0; i < len(stream); i++ {
		h = (h ^ uint64(stream[i])) * 1099511628211
	}
	r := &Rng{seed*0x9e3779b97f4a7c15 ^ h}
	r.U64()
	r.U64()
	return r
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0, n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// R returns a number in [lo, hi].
func (r *Rng) R(lo, hi int) int { return lo + r.N(hi-lo+1) }

// D returns a duration in [lo, hi].
func (r *Rng) D(lo, hi int64) int64 {
	if hi <= lo {
		return lo
	}
	return lo + int64(r.U64()%uint64(hi-lo+1))
}

// LogD returns a log-uniform duration in [lo, hi].
func (r *Rng) LogD(lo, hi int64) int64 {
	if lo < 1 {
		lo = 1
	}
	n := 0
	for x := lo; x < hi; x *= 2 {
		n++
	}
	v := lo
	for i := r.N(n + 1); i > 0; i-- {
		v *= 2
	}
	v += r.D(0, v)
	if v > hi {
		v = hi
	}
	return v
}

// P is true with probability num in den.
func (r *Rng) P(num, den int) bool { return r.N(den) < num }

func (r *Rng) Pick(s ...string) string { return s[r.N(len(s))] }
func (r *Rng) PickI(s ...int) int      { return s[r.N(len(s))] }
func (r *Rng) PickD(s ...int64) int64  { return s[r.N(len(s))] }

type simEvent struct {
	t   int64
	seq uint64
	fn  func()
}

type eventHeap []*simEvent

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	if h[i].t != h[j].t {
		return h[i].t < h[j].t
	}
	return h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x interface{}) { *h = append(*h, x.(*simEvent)) }
func (h *eventHeap) Pop() interface{} {
	o := *h
	n := len(o)
	x := o[n-1]
	o[n-1] = nil
	*h = o[:n-1]
	return x
}

// Sim is the event kernel.  Its events run one at a time on one goroutine of
// node 0 and never block; component goroutines call into it between them, and
// nothing is preempted inside it, so it needs no locks.
type Sim struct {
	q      eventHeap
	seq    uint64
	wake   chan struct{}
	done   chan struct{}
	stop   bool
	net    *Rng
	faults map[string]int
	counts map[string]int
	hash   uint64
	trace  bool
	lines  []string
	viol   []Viol
	poll   func()
}

// Viol is a violated property.
type Viol struct {
	Prop string `json:"prop"`
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
	T    int64  `json:"t"`
}

func newSim(seed uint64) *Sim {
	return &Sim{
		wake:   make(chan struct{}, 1),
		done:   make(chan struct{}),
		net:    newRng(seed, "net"),
		faults: map[string]int{},
		counts: map[string]int{},
		hash:   14695981039346656037,
	}
}

func (s *Sim) Now() int64 { return runtime.SimNow() }

func (s *Sim) At(t int64, fn func()) {
	s.seq++
	heap.Push(&s.q, &simEvent{t, s.seq, fn})
	if s.q[0].seq == s.seq {
		select {
		case s.wake <- struct{}{}:
		default:
		}
	}
}

func (s *Sim) After(d int64, fn func()) {
	if d < 1 {
		d = 1
	}
	s.At(s.Now()+d, fn)
}

func (s *Sim) loop() {
	timer := time.NewTimer(time.Hour)
	for !s.stop {
		now := s.Now()
		n := 0
		for len(s.q) > 0 && s.q[0].t <= now && !s.stop {
			ev := heap.Pop(&s.q).(*simEvent)
			ev.fn()
			n++
		}
		if n > 0 && s.poll != nil {
			s.poll()
		}
		if s.stop {
			break
		}
		d := int64(3600) * sec
		if len(s.q) > 0 {
			d = s.q[0].t - s.Now()
			if d <= 0 {
				continue
			}
		}
		timer.Reset(time.Duration(d))
		select {
		case <-timer.C:
		case <-s.wake:
		}
	}
	close(s.done)
}

// Fault counts one injected fault.
func (s *Sim) Fault(kind string) { s.faults[kind]++ }

func (s *Sim) Count(name string, n int) { s.counts[name] += n }

func (s *Sim) mix(parts ...interface{}) {
	str := fmt.Sprint(parts...)
	for i := 0; i < len(str); i++ {
		s.hash = (s.hash ^ uint64(str[i])) * 1099511628211
	}
}

// Log records something observable; it goes into the history's hash.
func (s *Sim) Log(format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	s.mix(s.Now(), msg)
	if s.trace {
		s.lines = append(s.lines, fmt.Sprintf("%12.6f %s", float64(s.Now())/1e9, msg))
	}
}

func (s *Sim) Violate(prop, kind, format string, a ...interface{}) {
	if len(s.viol) >= 20 {
		return
	}
	v := Viol{prop, kind, fmt.Sprintf(format, a...), s.Now()}
	if len(v.Msg) > 4000 {
		v.Msg = v.Msg[:4000] + "..."
	}
	s.viol = append(s.viol, v)
	if s.trace {
		s.lines = append(s.lines, fmt.Sprintf("%12.6f VIOLATION %s %s: %s", float64(s.Now())/1e9, prop, kind, v.Msg))
	}
}

func short(b []byte) string {
	if len(b) > 240 {
		return fmt.Sprintf("%q...(%d bytes)...%q", b[:150], len(b), b[len(b)-60:])
	}
	return fmt.Sprintf("%q", b)
}

func joinShort(ls [][]byte) string {
	var o []string
	for i, l := range ls {
		if i > 8 {
			o = append(o, fmt.Sprintf("... %d in all", len(ls)))
			break
		}
		o = append(o, short(l))
	}
	return strings.Join(o, " ")
}
