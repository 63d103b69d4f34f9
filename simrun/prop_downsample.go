package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
)

func init() {
	register(&Prop{ID: "C12", Gen: genC12, Setup: func(w *World) { w.dsModel("C12") }})
	register(&Prop{ID: "C13", Gen: genC13, Setup: func(w *World) { w.dsModel("C13") }})
}

// nextEnd is the end of the sampling period that contains t.
func nextEnd(t, period int64) int64 {
	return time.Unix(0, t).Add(time.Duration(period)).Truncate(time.Duration(period)).UnixNano()
}

// A reference model of downsampling.

type dsMsg struct {
	subj   string
	t0, t1 int64 // it was handled between these
	lines  []*Line
}

type dsField struct {
	typ  byte // i, f, s (string), o (other)
	sum  *big.Int
	fsum big.Float // exact enough
	max  float64
	n    int64
	last string
}

type dsSeries struct {
	fields map[string]*dsField
	n      int
	vague  bool // whether some line belongs to it is unknown
	outs   []*dsOut
}

type dsOut struct {
	t    int64
	subj string
	key  string
	end  int64
	body string
	raw  string
}

type dsModel struct {
	w      *World
	prop   string
	period int64
	suffix string
	subjs  map[string]bool
	msgs   []*dsMsg
	outs   []*dsOut
	dueBy  map[int64]int64 // by when a period's data must have been emitted
	series map[string]*dsSeries
	bad    [2]int64 // lines with invalid timestamps: at least, at most
	inval  [2]int64 // invalid lines
	msgsIn int64
	sent   int64
}

// splitKey cuts a line after its measurement and tags.
func splitKey(s string) (key, rest string) {
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' && (i == 0 || s[i-1] != '\\') {
			return s[:i], s[i+1:]
		}
	}
	return s, ""
}

// splitTop splits at unescaped, unquoted separators.
func splitTop(s string, sep byte) []string {
	var out []string
	quoted := false
	from := 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '\\':
			i++
		case c == '"':
			quoted = !quoted
		case c == sep && !quoted:
			out = append(out, s[from:i])
			from = i + 1
		}
	}
	return append(out, s[from:])
}

func (w *World) dsModel(prop string) *dsModel {
	S, P := w.plan.S, w.plan.P
	m := &dsModel{w: w, prop: prop, period: P["period"], suffix: S["suffix"], subjs: map[string]bool{}, dueBy: map[int64]int64{}, series: map[string]*dsSeries{}}
	for _, s := range strings.Fields(S["subjects"]) {
		m.subjs[s] = true
	}
	w.on["ds"] = func(e *Ev) { m.send(e.S, e.L, e.S2) }
	w.broker.onPub = append(w.broker.onPub, m.onPub)
	for b := nextEnd(w.plan.Epoch, m.period); b < w.plan.Epoch+w.plan.End; b += m.period {
		b := b
		w.After(b-w.plan.Epoch-w.Now(), func() {
			w.Settle(func() { m.dueBy[b-m.period] = w.epochNow() })
		})
	}
	w.onEnd = append(w.onEnd, m.judge)
	return m
}

func (m *dsModel) send(subj string, ls []*Line, opt string) {
	w := m.w
	g := &dsMsg{subj: subj, t0: w.epochNow(), t1: math.MaxInt64, lines: ls}
	var b []byte
	for _, l := range ls {
		b = append(b, l.Bytes()...)
	}
	if opt == "nonl" {
		b = trimNL(b)
	}
	w.broker.Publish(subj, b)
	if !m.subjs[subj] {
		return
	}
	m.msgs = append(m.msgs, g)
	w.Settle(func() { g.t1 = w.epochNow() })
}

func (m *dsModel) onPub(p *Pub) {
	w := m.w
	if p.Inst == nil || p.Subject == monSubject {
		return
	}
	if !strings.HasSuffix(p.Subject, m.suffix) || !m.subjs[strings.TrimSuffix(p.Subject, m.suffix)] {
		w.Violate(m.prop, "wrong-subject", "%s published on %s", p.Inst.name(), p.Subject)
		return
	}
	m.sent++
	for _, l := range splitLines(p.Data) {
		w.checks++
		key, rest := splitKey(string(trimNL(l)))
		f := splitTop(rest, ' ')
		var ts int64
		var err error
		if len(f) == 2 {
			ts, err = strconv.ParseInt(f[1], 10, 64)
		}
		if len(f) != 2 || err != nil || l[len(l)-1] != '\n' {
			w.Violate(m.prop, "bad-line", "%s published on %s something that is no line with a timestamp: %s", p.Inst.name(), p.Subject, short(l))
			continue
		}
		m.outs = append(m.outs, &dsOut{t: w.epochNow(), subj: strings.TrimSuffix(p.Subject, m.suffix), key: key, end: ts, body: f[0], raw: string(l)})
	}
}

func dsKey(subj string, end int64, key string) string {
	return fmt.Sprintf("%s\x00%d\x00%s", subj, end, key)
}

func (m *dsModel) at(subj string, end int64, key string) *dsSeries {
	k := dsKey(subj, end, key)
	s := m.series[k]
	if s == nil {
		s = &dsSeries{fields: map[string]*dsField{}}
		m.series[k] = s
	}
	return s
}

// apply adds a line's fields, and returns the number of fields that were of
// another type than before.
func (s *dsSeries) apply(fields string) (bad int) {
	s.n++
	for _, kv := range splitTop(fields, ',') {
		x := splitTop(kv, '=')
		name, v := x[0], strings.Join(x[1:], "=")
		f := s.fields[name]
		typ := byte('o')
		var iv *big.Int
		var fv float64
		if v[0] == '"' {
			typ = 's'
		} else if i, err := strconv.ParseInt(strings.TrimSuffix(v, "i"), 10, 64); err == nil && strings.HasSuffix(v, "i") {
			typ, iv = 'i', big.NewInt(i)
		} else if x, err := strconv.ParseFloat(v, 64); err == nil {
			typ, fv = 'f', x
		}
		if f == nil {
			f = &dsField{typ: typ, sum: new(big.Int)}
			s.fields[name] = f
		}
		if f.typ != typ {
			bad++
			continue
		}
		f.n++
		f.last = v
		switch typ {
		case 'i':
			f.sum.Add(f.sum, iv)
		case 'f':
			f.fsum.SetPrec(2200).Add(&f.fsum, big.NewFloat(fv))
			f.max = math.Max(f.max, math.Abs(fv))
		}
	}
	return
}

func (m *dsModel) judge() {
	w := m.w
	for _, g := range m.msgs {
		if g.t1 > w.epochNow() {
			g.t1 = w.epochNow()
		}
		e0, e1 := nextEnd(g.t0, m.period), nextEnd(g.t1, m.period)
		for _, l := range g.lines {
			key, fields := "", ""
			if l.Raw != nil {
				key, _ = splitKey(string(l.Raw))
			} else {
				key = strings.SplitN(string(trimNL((&Line{Meas: l.Meas, Tags: l.Tags}).Bytes())), "\n", 2)[0]
				fields = l.Fields
			}
			ts, hasT := int64(0), false
			if l.Raw == nil && l.Ts != "" {
				ts, _ = strconv.ParseInt(l.Ts, 10, 64)
				hasT = true
			}
			targets := map[int64]bool{}
			for e := e0; e <= e1; e += m.period {
				switch {
				case !hasT:
					targets[e] = true
				case ts >= e-2*m.period && ts < e+m.period:
					targets[nextEnd(ts, m.period)] = true
				default:
					targets[-1] = true
				}
			}
			if len(targets) > 1 {
				if targets[-1] {
					m.bad[1]++
				}
				for e := range targets {
					if e >= 0 {
						m.at(g.subj, e, key).vague = true
						m.inval[1] += 10
					}
				}
				continue
			}
			for e := range targets {
				if e < 0 {
					m.bad[0]++
					m.bad[1]++
					continue
				}
				if l.Raw != nil {
					m.inval[0]++
					m.inval[1]++
					continue
				}
				s := m.at(g.subj, e, key)
				n := int64(s.apply(fields))
				m.inval[1] += n
				if !s.vague {
					m.inval[0] += n
				}
			}
		}
	}
	for _, o := range m.outs {
		s := m.series[dsKey(o.subj, o.end, o.key)]
		when := fmt.Sprintf("the period ending at %.3f s", float64(o.end-w.plan.Epoch)/1e9)
		if s == nil || s.n == 0 && !s.vague {
			w.Violate(m.prop, "unfounded", "a line was emitted for a series or period for which nothing was accepted: %s on %s for %s", short([]byte(o.raw)), o.subj, when)
			continue
		}
		s.outs = append(s.outs, o)
		if len(s.outs) > 1 {
			w.Violate(m.prop, "twice", "%s on %s was emitted again for %s: %s after %s", o.key, o.subj, when, short([]byte(o.raw)), short([]byte(s.outs[0].raw)))
		}
		if o.t < o.end+m.period {
			w.Violate(m.prop, "early", "%s was emitted %d ms before the end of the period after it", when, (o.end+m.period-o.t)/ms)
		}
		if d := m.dueBy[o.end]; d != 0 && o.t > d {
			w.Violate(m.prop, "late", "%s was emitted %d ms after the end of the period after it", when, (o.t-o.end-m.period)/ms)
		}
		if s.vague {
			continue
		}
		seen := map[string]bool{}
		for _, kv := range splitTop(o.body, ',') {
			x := splitTop(kv, '=')
			name, v := x[0], strings.Join(x[1:], "=")
			f := s.fields[name]
			if f == nil || seen[name] {
				w.Violate(m.prop, "field", "field %s was not in any line of %s but was emitted, or emitted twice: %s", name, when, short([]byte(o.raw)))
				continue
			}
			seen[name] = true
			exp := f.last
			ok := v == exp
			switch f.typ {
			case 'i':
				exp = new(big.Int).Quo(f.sum, big.NewInt(f.n)).String() + "i"
				ok = v == exp
			case 'f':
				mean, _ := new(big.Float).SetPrec(2200).Quo(&f.fsum, new(big.Float).SetInt64(f.n)).Float64()
				exp = fmt.Sprint(mean)
				got, err := strconv.ParseFloat(v, 64)
				ok = err == nil && math.Abs(got/2-mean/2) <= float64(f.n)*2e-15*f.max+1e-300
				if f.n == 1 {
					ok = err == nil && got == mean
				}
			}
			if !ok {
				w.Violate(m.prop, "value", "field %s of %s on %s was emitted as %s for %s, it should be %s (%d values)", name, o.key, o.subj, v, when, exp, f.n)
			}
		}
		for name := range s.fields {
			if !seen[name] {
				w.Violate(m.prop, "no-field", "field %s of %s was not emitted for %s: %s", name, o.key, when, short([]byte(o.raw)))
			}
		}
	}
	var ks []string
	for k := range m.series {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s := m.series[k]
		x := strings.Split(k, "\x00")
		end, _ := strconv.ParseInt(x[1], 10, 64)
		if d := m.dueBy[end]; len(s.outs) == 0 && s.n > 0 && !s.vague && d != 0 && d < w.epochNow() {
			w.Violate(m.prop, "missing", "%d lines of %s on %s were accepted for the period ending at %.3f s but it was never emitted", s.n, x[2], x[0], float64(end-w.plan.Epoch)/1e9)
			break
		}
	}
	if m.prop == "C13" {
		for name, b := range map[string][2]int64{"invalid_timestamps": m.bad, "invalid_lines": m.inval} {
			if v, ok := w.lastStat(w.specs[0].inst, name); ok && (v < b[0] || v > b[1]) {
				w.Violate(m.prop, "count", "%s is %d in the end, but there were %s", name, v, fromTo(b))
			}
		}
	}
}

func fromTo(b [2]int64) string {
	if b[0] == b[1] {
		return fmt.Sprint(b[0])
	}
	return fmt.Sprintf("%d to %d", b[0], b[1])
}

// lastStat is the value of an instance's metric as it was published last.
func (w *World) lastStat(in *Inst, name string) (v int64, ok bool) {
	for _, p := range w.broker.pubs {
		if p.Inst != in || p.Subject != monSubject {
			continue
		}
		for _, l := range splitLines(p.Data) {
			if s, err := parseSample(string(trimNL(l))); err == nil && s.Name == name {
				v, ok = s.Value, true
			}
		}
	}
	return
}

// Generators.

type dsGen struct {
	huge   bool
	p      *Plan
	period int64
	t      int64
	keys   []*Line
	types  map[string]byte
	subjs  []string
}

func dsPlan(r *Rng, family string, o schedOpt) *dsGen {
	p := &Plan{Family: family, Sched: genSched(r, o), Net: genNet(r), S: map[string]string{}, P: map[string]int64{}}
	p.Epoch = 1600000000*sec + r.D(0, 100000000*sec)
	g := &dsGen{p: p, period: r.PickD(sec, sec, 2*sec, 5*sec, 7*sec, 10*sec, 60*sec, 1500*ms), t: 500 * ms, types: map[string]byte{}}
	for i, n := 0, r.R(1, 3); i < n; i++ {
		g.subjs = append(g.subjs, fmt.Sprintf("sys%d", i))
	}
	suffix := r.Pick("-archive", "-archive", "_1m", ".long", "x")
	c := newConf("downsampler", "d1").subjects(g.subjs...).d("downsample_period", g.period).s("downsample_suffix", suffix).d("stats_interval", 500*ms)
	if r.P(1, 6) {
		c.raw("debug = true\n")
	}
	p.Nodes = append(p.Nodes, NodeCfg{Name: "d1", Conf: c.String()})
	p.S["suffix"], p.S["subjects"], p.P["period"] = suffix, strings.Join(g.subjs, " "), g.period
	g.huge = r.P(1, 8)
	for i, n := 0, r.R(1, 6); i < n; i++ {
		l := &Line{Meas: measNames[r.N(len(measNames))], Tags: genTags(r, 3)}
		sort.Slice(l.Tags, func(i, j int) bool { return l.Tags[i].K < l.Tags[j].K })
		g.keys = append(g.keys, l)
	}
	return g
}

func (g *dsGen) value(r *Rng, typ byte) string {
	switch typ {
	case 'i':
		switch r.N(8) {
		case 0:
			return r.Pick("0i", "-1i", "1i", "9223372036854775807i", "-9223372036854775808i", "9007199254740993i")
		case 1:
			return fmt.Sprintf("%di", r.N(1000000)-500000)
		}
		return fmt.Sprintf("%di", r.N(20)-3)
	case 'f':
		switch r.N(4) {
		case 0:
			if g.huge {
				return r.Pick("1.7976931348623157e308", "-1.7976931348623157e308", "1e308", "-9e307", "5e-324", "-1e-310", "0")
			}
			return fmt.Sprint(r.N(50) - 10)
		case 1:
			return fmt.Sprintf("%d.%de%d", r.N(20)-10, r.N(1000), r.N(9)-4)
		}
		return strconv.FormatFloat(float64(r.N(2000000)-1000000)/997, 'g', -1, 64)
	case 's':
		var b strings.Builder
		for i, n := 0, r.N(8); i < n; i++ {
			b.WriteString([]string{"a", "Z", "0", " ", ",", "=", `\"`, "x y", "é", "%d", "#", `\\`, `\,`, `\ `, `\x`, "a=1,b=2"}[r.N(16)])
		}
		return `"` + b.String() + `"`
	}
	return r.Pick("t", "T", "true", "True", "TRUE", "f", "F", "false", "False", "FALSE")
}

// line makes a line of one of the series. The timestamp is around now, as
// given.
func (g *dsGen) line(r *Rng, ts string) *Line {
	k := g.keys[r.N(len(g.keys))]
	if r.P(1, 25) {
		key := strings.TrimSuffix(string(k.Bytes()), "\n")
		pre := ""
		if r.P(1, 2) {
			pre = "n=5000i,"
		}
		return &Line{Raw: []byte(key + " " + pre + r.Pick("x", "x=", `q="abc`, `q="abc\"`, "n=1i,y", "n=1i,y=", "n=7i,"))}
	}
	l := &Line{Meas: k.Meas, Tags: k.Tags, Ts: ts}
	var f []string
	names := []string{"n", "v", "ok", "msg", `fi\ eld`, "a", "b"}
	for _, i := range r.Perm(len(names)) {
		if !r.P(1, 2) && len(f) > 0 {
			continue
		}
		n := names[i]
		id := k.Meas + "\x00" + n
		if g.types[id] == 0 {
			g.types[id] = map[string]byte{"n": 'i', "v": 'f', "ok": 'o', "msg": 's'}[n]
			if g.types[id] == 0 {
				g.types[id] = "ifso"[r.N(4)]
			}
		}
		typ := g.types[id]
		if r.P(1, 60) && (typ == 'i' || typ == 'f') {
			typ = 'i' + 'f' - typ
		}
		f = append(f, n+"="+g.value(r, typ))
	}
	l.Fields = strings.Join(f, ",")
	return l
}

func (g *dsGen) wall() int64 { return g.p.Epoch + g.t }

// around picks a timestamp in the periods that are accepted, and rarely
// around their limits.
func (g *dsGen) around(r *Rng, wild int) string {
	now := g.wall()
	e := nextEnd(now, g.period)
	switch {
	case r.P(1, 4):
		return ""
	case r.P(1, 3):
		return fmt.Sprint(now - r.LogD(1, g.period/4))
	case r.P(wild, 20):
		switch r.N(6) {
		case 0: // limits
			return fmt.Sprint(e + g.period*int64(r.R(-2, 1)) + int64(r.R(-1, 1)))
		case 1:
			return fmt.Sprint(e - 2*g.period - r.LogD(1, 5*g.period))
		case 2:
			return fmt.Sprint(e + g.period + r.LogD(1, 5*g.period))
		case 3:
			return fmt.Sprint(e - 2*g.period - 1)
		case 4:
			return fmt.Sprint(r.PickD(0, 1, 1234567890, 1600000000000, 9223372036854775806, -5))
		}
		return fmt.Sprint(e + g.period)
	}
	return fmt.Sprint(e + r.D(-2*g.period, g.period-1))
}

func (g *dsGen) msg(r *Rng, max, wild int) {
	var ls []*Line
	for i, n := 0, r.R(1, max); i < n; i++ {
		ls = append(ls, g.line(r, g.around(r, wild)))
	}
	e := &Ev{T: g.t, K: "ds", S: g.subjs[r.N(len(g.subjs))], L: ls}
	if r.P(1, 20) {
		e.S = "other"
	}
	if r.P(1, 6) {
		e.S2 = "nonl"
	}
	g.p.Events = append(g.p.Events, e)
}

func (g *dsGen) end() *Plan {
	g.p.End = g.t + 3*g.period + 3*sec
	return g.p
}

func genC12(r *Rng, tier string) *Plan {
	g := dsPlan(r, "downsample", schedOpt{maxPause: 5 * ms})
	if r.P(1, 12) { // many series, so that the output needs several messages
		long := r.PickD(8000, 30000)
		for i, n := 0, r.R(50, 400); i < n; i++ {
			l := &Line{Meas: fmt.Sprintf("m%d%s", i, strings.Repeat("z", int(r.LogD(1, long))))}
			g.keys = append(g.keys, l)
		}
		for _, k := range g.keys {
			g.p.Events = append(g.p.Events, &Ev{T: g.t, K: "ds", S: g.subjs[0], L: []*Line{{Meas: k.Meas, Tags: k.Tags, Fields: "n=1i", Ts: ""}}})
		}
	}
	if r.P(1, 300) {
		// very many, which come in a few messages
		left := int(r.LogD(1000, 15000))
		for left > 0 {
			k := min2(left, int(r.LogD(100, 15000)))
			e := &Ev{T: g.t, K: "ds", S: g.subjs[0]}
			for j := 0; j < k; j++ {
				e.L = append(e.L, &Line{Meas: fmt.Sprintf("q%d", left-j), Fields: "n=1i"})
			}
			g.p.Events = append(g.p.Events, e)
			left -= k
			g.t += r.D(us, 50*ms)
			g.p.Sched.MaxPicks += uint64(k) * 1500
		}
	}
	gap := g.period / r.PickD(3, 10, 30)
	for i, n := 0, r.R(5, 60); i < n; i++ {
		g.t += r.D(us, 2*gap)
		if r.P(1, 2500) {
			g.msg(r, 5000, 1)
		}
		g.msg(r, r.PickI(1, 3, 12), 1)
	}
	return g.end()
}

func genC13(r *Rng, tier string) *Plan {
	g := dsPlan(r, "downsample-time", schedOpt{maxPause: 20 * ms})
	gap := g.period / r.PickD(1, 3, 10)
	for i, n := 0, r.R(5, 40); i < n; i++ {
		switch r.N(8) {
		case 0: // right at the end of a period
			e := nextEnd(g.wall(), g.period) - g.p.Epoch
			g.t = e + r.D(-5*ms, 5*ms)
		case 1: // nothing for a while
			g.t += r.D(g.period, 5*g.period)
		default:
			g.t += r.D(us, 2*gap)
		}
		g.msg(r, r.PickI(1, 4), 8)
		if r.P(1, 12) {
			d := r.LogD(10*ms, min64(6*g.period, 50*sec))
			g.p.Events = append(g.p.Events, &Ev{T: g.t, K: "stall", N: 0, A: d})
			if r.P(1, 2) {
				// messages pile up while it is stalled
				for j, k := 0, r.R(1, 5); j < k; j++ {
					g.t += r.D(0, d/3)
					g.msg(r, 4, 4)
				}
			}
		}
	}
	sort.SliceStable(g.p.Events, func(i, j int) bool { return g.p.Events[i].T < g.p.Events[j].T })
	return g.end()
}
