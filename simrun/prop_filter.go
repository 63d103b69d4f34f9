package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

func genRules(r *Rng, n int) []Rule {
	var rs []Rule
	for i := 0; i < n; i++ {
		ru := Rule{Subject: fmt.Sprintf("out%d", r.N(n))}
		switch r.N(6) {
		case 0, 1:
			ru.Type, ru.Match = "basic", measNames[r.N(len(measNames))]
		case 2, 3:
			ru.Type = "tags"
			ru.Tags = []KV{{tagKeys[r.N(len(tagKeys))], tagVals[r.N(len(tagVals))]}}
			if r.P(1, 3) {
				ru.Tags = append(ru.Tags, KV{tagKeys[r.N(len(tagKeys))], tagVals[r.N(len(tagVals))]})
			}
		case 4:
			ru.Type, ru.Match = "regex", r.Pick("^cpu", "host=h[12]", "net io", "=web", "a,b", `q"uote`, "id=[0-9]*7i", "^m,?", "[[:^ascii:]]", "x.y", "^[^,]*$")
		case 5:
			ru.Type, ru.Match = "negregex", r.Pick("^[a-m]", "host=", "id=[0-9]*[0-4]i", "value=", "net io", "a,b", "http=req", "fi eld")
		}
		rs = append(rs, ru)
	}
	return rs
}

func rulesJSON(rs []Rule) string { return string(toJSON(rs)) }
func rulesFrom(s string) []Rule {
	var rs []Rule
	json.Unmarshal([]byte(s), &rs)
	return rs
}

func init() {
	register(&Prop{ID: "C06", Gen: genC06, Setup: setupC06})
	register(&Prop{ID: "C07", Gen: genC07, Setup: setupC07})
	register(&Prop{ID: "C08", Gen: genC08, Setup: setupC08})
	register(&Prop{ID: "C22", Gen: genC22, Setup: setupC22})
}

const (
	monSubject  = "influx-spout-monitor"
	junkSubject = "influx-spout-junk"
)

// badBase is the first id of malformed lines; valid ones have smaller ids.
const badBase = 900000

// genBad makes a line that is not line protocol, or barely so.
func genBad(r *Rng, id int) *Line {
	base := trimNL(genLine(r, badBase+id, "").Bytes())
	var b []byte
	switch r.N(16) {
	case 0: // nothing at all
		return &Line{Raw: []byte{}}
	case 1: // cut short
		b = base[:r.N(len(base)+1)]
	case 2: // a byte lost
		k := r.N(len(base))
		b = append(append(b, base[:k]...), base[k+1:]...)
	case 3, 4: // a byte too many
		k := r.N(len(base) + 1)
		b = append(append(b, base[:k]...), r.Pick(",", "=", " ", `\`, `"`, "\x00", "\xff", "\r", "#")[0])
		b = append(b, base[k:]...)
	case 5: // doubled separators
		b = bytes.Replace(base, []byte(r.Pick(",", "=", " ")), []byte(r.Pick(",,", "==", "  ", `\`, ", ")), r.R(1, 3))
	case 6:
		b = []byte(fmt.Sprintf("m%d,%s", id, r.Pick("", "host", "host=", "=v", "b=1,a", "b=1,a=", "a=1,,c=2", "b=1,a=2,", "z=1,y=2,x", `z=1,a=\`, "=", "==", "a=1,=2 x=1i", "b=2,a=1 ", "b=2,a=1  x=1i")))
	case 7:
		b = []byte(r.Pick(",", "=", " ", `\`, `"`, ",=", "=,", ", ", " ,", ",a=1", " x=1i", `\,`, `\ `, ",,,,", "a", "==", "a,b", "\x00", "\xff\xfe", "\r", "#", "# comment"))
	case 8:
		n := r.R(1, 60)
		for i := 0; i < n; i++ {
			c := byte(r.U64())
			if c == '\n' {
				c = ','
			}
			b = append(b, c)
		}
	case 9: // only separators
		n := r.R(1, 40)
		for i := 0; i < n; i++ {
			b = append(b, ",= \\\""[r.N(5)])
		}
	case 10: // a cut inside the tags, sorted wrongly
		b = []byte(fmt.Sprintf("m%d,zz=1,aa=%d", id, id))
		b = append(b, r.Pick("", `\`, ",", ",q", ",q=", `,q=\`)...)
	case 11: // no fields
		b = []byte(fmt.Sprintf("only%d", id))
	case 12: // timestamp nonsense
		b = append(append(b, base...), r.Pick(" abc", " 12x", " ", "  12", " 1 2 3", " 99999999999999999999", " --5", " 1600000000000000000 ", " 1.5")...)
	case 13: // the same tag twice
		b = []byte(fmt.Sprintf("m%d,b=%d,a=1,b=2,a=%d x=1i", id, id, id))
	case 14: // a very long one
		b = []byte(fmt.Sprintf("long%d,b=%s,a=", id, bytes.Repeat([]byte{'x'}, int(r.LogD(100, 100000)))))
	default:
		b = append(append(b, base...), '\r')
	}
	return &Line{Raw: b}
}

// fline is one line sent to filters.
type fline struct {
	msg  *fmsg
	idx  int
	l    *Line
	rule int
	subj string
	seen int
	on   string // where it was published last
	ts   int64
	hasT bool
}

type fmsg struct {
	n     int
	T     int64
	lag   int64
	size  int
	subj  string
	to    []*Inst
	lines []*fline
	first int64 // when its first line came out
	last  int64
	hi    int64 // by when it must have been processed
}

func (m *fmsg) seen() (n int) {
	for _, x := range m.lines {
		if x.seen > 0 {
			n++
		}
	}
	return
}

// filterModel follows the lines sent to filters.
type filterModel struct {
	w     *World
	prop  string
	rules []Rule
	want  map[string][]*fline
	bad   map[string][]*fline // by the bytes they are made of
	msgs  []*fmsg
	last  map[string]int
	onOut func(x *fline, p *Pub)
	onMsg func(m *fmsg)
	isOut func(p *Pub) bool
	split bool // lines may take time into account
}

func (w *World) filterModel(prop string) *filterModel {
	m := &filterModel{w: w, prop: prop, rules: rulesFrom(w.plan.S["rules"]), want: map[string][]*fline{}, bad: map[string][]*fline{}, last: map[string]int{}}
	w.on["lines"] = func(e *Ev) { m.send(e.S, e.L, e.S2) }
	m.isOut = func(p *Pub) bool { return p.Inst != nil && p.Subject != monSubject }
	w.broker.onPub = append(w.broker.onPub, m.onPub)
	return m
}

func (m *filterModel) send(subj string, ls []*Line, opt string) *fmsg {
	w := m.w
	var b []byte
	g := &fmsg{n: len(m.msgs), T: w.Now(), lag: w.Lag(), subj: subj}
	for i, l := range ls {
		raw := l.Bytes()
		if i == len(ls)-1 && opt == "nonl" {
			raw = trimNL(raw)
			if len(raw) == 0 {
				break
			}
		}
		b = append(b, raw...)
		x := &fline{msg: g, idx: i, l: l}
		g.lines = append(g.lines, x)
		if l.Raw != nil {
			x.rule = -2
			k := sig(trimNL(raw))
			m.bad[k] = append(m.bad[k], x)
			continue
		}
		x.rule = Route(m.rules, l)
		x.subj = junkSubject
		if x.rule >= 0 {
			x.subj = m.rules[x.rule].Subject
		}
		if l.Ts != "" {
			x.ts, _ = strconv.ParseInt(l.Ts, 10, 64)
			x.hasT = true
		}
		s := l.Sorted()
		if i == len(ls)-1 && opt == "nonl" {
			s = trimNL(s)
		}
		m.want[string(s)] = append(m.want[string(s)], x)
	}
	if len(b) == 0 {
		return g
	}
	g.size = len(b)
	m.msgs = append(m.msgs, g)
	p := w.broker.Publish(subj, b)
	g.to = p.To
	if m.onMsg != nil {
		m.onMsg(g)
	}
	return g
}

func (m *filterModel) onPub(p *Pub) {
	w := m.w
	if !m.isOut(p) {
		return
	}
	if len(p.Data) == 0 {
		w.Violate(m.prop, "empty", "an empty message was published on %s", p.Subject)
	}
	for _, l := range splitLines(p.Data) {
		w.checks++
		// (the same line may have been sent more than once)
		var x *fline
		for _, y := range m.want[string(l)] {
			if x = y; y.seen == 0 {
				break
			}
		}
		if x == nil {
			k := sig(trimNL(l))
			if xs := m.bad[k]; len(xs) > 0 {
				x = xs[0]
				m.bad[k] = xs[1:]
				x.seen++
				x.on = p.Subject
				m.mark(x, p)
				continue
			}
			w.Violate(m.prop, "alien-line", "the filter published on %s a line nobody sent: %s", p.Subject, short(l))
			continue
		}
		if x.subj != p.Subject {
			w.Violate(m.prop, "misrouted", "line %s went to %s, its first matching rule (%d) says %s", short(l), p.Subject, x.rule, x.subj)
		}
		x.seen++
		x.on = p.Subject
		if x.seen > 1 {
			w.Violate(m.prop, "duplicate", "line %s was published %d times", short(l), x.seen)
		}
		k := fmt.Sprint(x.msg.n, "/", x.rule)
		if prev, ok := m.last[k]; ok && prev > x.idx {
			w.Violate(m.prop, "reordered", "line %s (number %d of its message) was published after number %d", short(l), x.idx, prev)
		}
		m.last[k] = x.idx
		m.mark(x, p)
	}
}

func (m *filterModel) mark(x *fline, p *Pub) {
	if x.msg.first == 0 {
		x.msg.first = p.T
	}
	x.msg.last = p.T
	if m.onOut != nil {
		m.onOut(x, p)
	}
}

// lost reports the first line that never came out.
func (m *filterModel) lost(ok func(x *fline) bool) {
	for _, g := range m.msgs {
		for _, x := range g.lines {
			if x.seen == 0 && x.rule != -2 && (ok == nil || !ok(x)) {
				m.w.Violate(m.prop, "lost", "line %s (for %s, in a message of %.3f s handed to %v) was never published", short(x.l.Bytes()), x.subj, float64(g.T)/1e9, names(g.to))
				return
			}
		}
	}
}

func names(ins []*Inst) (o []string) {
	for _, in := range ins {
		o = append(o, in.name())
	}
	return
}

type filterGen struct {
	p     *Plan
	rules []Rule
	id    int
	bad   int
	t     int64
}

// filterPlan starts a plan with one or more filters.
func filterPlan(r *Rng, family string, n int, o schedOpt, extra func(c *conf)) *filterGen {
	p := &Plan{Family: family, Sched: genSched(r, o), Net: genNet(r), S: map[string]string{}, P: map[string]int64{}}
	g := &filterGen{p: p, rules: genRules(r, r.N(7))}
	for i := 1; i <= n; i++ {
		c := newConf("filter", fmt.Sprintf("f%d", i)).subjects("in").i("workers", int64(r.R(1, 8)))
		if r.P(1, 8) {
			c.raw("debug = true\n")
		}
		if extra != nil {
			extra(c)
		}
		for _, ru := range g.rules {
			c.rule(ru)
		}
		p.Nodes = append(p.Nodes, NodeCfg{Name: fmt.Sprintf("f%d", i), Conf: c.String()})
	}
	p.S["rules"] = rulesJSON(g.rules)
	p.Epoch = 1600000000*sec + r.D(0, 100000000*sec)
	g.t = 500 * ms
	return g
}

// line makes a well-formed line; its timestamp is within delta of now.
func (g *filterGen) line(r *Rng, delta int64) *Line {
	ts := ""
	if r.P(2, 3) && delta > 0 {
		ts = fmt.Sprint(g.p.Epoch + g.t + r.D(-delta, delta))
	}
	g.id++
	l := genLine(r, g.id, ts)
	if many := r.P(1, 60); !many && len(l.Tags) > 0 && r.P(1, 30) {
		// a tag twice
		k := r.N(len(l.Tags))
		l.Tags = append(l.Tags[:k+1:k+1], l.Tags[k:]...)
	} else if many {
		// many tags
		k := r.N(len(l.Tags) + 1)
		t := append([]KV(nil), l.Tags[:k]...)
		for i, n := 0, int(r.LogD(5, 200)); i < n; i++ {
			t = append(t, KV{fmt.Sprint("t", i), r.Pick("av", "b=", "c d")})
		}
		l.Tags = append(t, l.Tags[k:]...)
	}
	if ts == "" && r.P(1, 50) {
		l.Fields += "\r" // part of the line
	}
	return l
}

func (g *filterGen) msg(r *Rng, lines []*Line) *Ev {
	e := &Ev{T: g.t, K: "lines", S: "in", L: lines}
	g.p.Events = append(g.p.Events, e)
	return e
}

func genC06(r *Rng, tier string) *Plan {
	g := filterPlan(r, "filter", 1, schedOpt{maxPause: 50 * ms}, nil)
	same := r.P(1, 5) // lines and messages may repeat
	for i, nm := 0, r.R(1, 25); i < nm; i++ {
		g.t += r.LogD(us, 100*ms)
		var lines []*Line
		n, pad := r.R(1, 12), 0
		if r.P(1, 60) {
			// a large message
			pad = int(r.LogD(100, 4000))
			n = r.R(1, 600000/pad/3)
			if r.P(1, 4) {
				pad = int(r.LogD(1000, 150000))
				n = r.R(1, 400000/pad)
			}
		}
		if r.P(1, 1000) {
			n, pad = int(r.LogD(1000, 4000)), 0 // very many lines
		}
		for k := 0; k < n; k++ {
			l := g.line(r, 60*sec)
			if pad > 0 {
				l.Fields += ",pad=\"" + strings.Repeat("p", r.N(2*pad)) + "\""
			}
			lines = append(lines, l)
		}
		again := same && r.P(1, 2)
		if same && n > 1 && pad == 0 {
			// lines which repeat the one before them (or, where the
			// message itself is not repeated, any other)
			for k := 1; k < n; k++ {
				if r.P(1, 3) {
					if again {
						lines[k] = lines[k-1]
					} else {
						lines[k] = lines[r.N(k)]
					}
				}
			}
		}
		e := g.msg(r, lines)
		if r.P(1, 6) {
			e.S2 = "nonl"
		}
		for again && pad == 0 {
			g.t += r.LogD(us, 100*ms)
			g.msg(r, lines).S2 = e.S2
			again = r.P(1, 2)
		}
	}
	g.p.End = g.t + 20*sec
	return g.p
}

func setupC06(w *World) {
	m := w.filterModel("C06")
	w.onEnd = append(w.onEnd, func() { m.lost(nil) })
}

// C07: the time window.

func genC07(r *Rng, tier string) *Plan {
	max := r.PickD(sec, 10*sec, 600*sec, 3600*sec, 100*ms, 2500000*3600*sec)
	g := filterPlan(r, "filter-time", 1, schedOpt{maxPause: 20 * ms}, func(c *conf) { c.d("max_time_delta", max).d("stats_interval", sec) })
	p := g.p
	p.P["max"] = max
	if max > 1000000*sec {
		max = 300000000 * sec // all times are within the window then
	}
	if r.P(1, 10) {
		p.Epoch = r.PickD(1000*sec, 5*sec, 4000000000*sec, 8000000000*sec)
	}
	off := int64(0)
	for i, nm := 0, r.R(1, 25); i < nm; i++ {
		g.t += r.LogD(us, 400*ms)
		if r.P(1, 12) {
			off = r.PickD(0, r.D(-4*max, 4*max), r.D(-max, max), -max, max)
			if p.Epoch+off < 1000*sec {
				off = 0
			}
			p.Events = append(p.Events, &Ev{T: g.t, K: "clock", N: 0, A: off})
			g.t += r.LogD(us, 100*ms)
		}
		if r.P(1, 25) {
			p.Events = append(p.Events, &Ev{T: g.t, K: "stall", N: 0, A: r.LogD(ms, min64(2*max, 60*sec))})
		}
		var lines []*Line
		n := r.R(1, 8)
		if r.P(1, 3000) {
			n = int(r.LogD(1000, 8000))
			p.Sched.MaxPicks += uint64(n) * 1000
		}
		for k := 0; k < n; k++ {
			now := p.Epoch + g.t + off
			ts := ""
			switch r.N(14) {
			case 0, 1:
			case 2:
				ts = fmt.Sprint(now + r.D(-max, max))
			case 3, 4:
				ts = fmt.Sprint(now - max + r.D(-max/3, max/3))
			case 5, 6:
				ts = fmt.Sprint(now + max + r.D(-max/3, max/3))
			case 7:
				ts = fmt.Sprint(now - r.D(max, 20*max))
			case 8:
				ts = fmt.Sprint(now + r.D(max, 20*max))
			case 9:
				ts = r.Pick("0", "1", "5", "-1", "12", "-5", "9", "123456789", "1600000000", "1600000000000", "1600000000000000", "-1600000000", "160000000000000000", "16000000000000000")
			case 10:
				ts = r.Pick("9223372036854775807", "-9223372036854775808", "-1600000000000000000", "9223372036854775806", "-9223372036854775807", "-160000000000000000")
			case 11:
				ts = fmt.Sprint(now / 1000)
			case 12:
				ts = fmt.Sprint(now / sec)
			case 13:
				ts = fmt.Sprint(now + r.D(-ms, ms))
			}
			g.id++
			l := genLine(r, g.id, ts)
			if r.P(1, 4) || n > 100 {
				l = &Line{Meas: "m", Fields: fmt.Sprintf("v=%d", g.id), Ts: ts}
			}
			lines = append(lines, l)
		}
		e := g.msg(r, lines)
		if r.P(1, 8) {
			e.S2 = "nonl"
		}
	}
	p.End = g.t + 10*sec
	return p
}

func absDiffMore(a, b, max int64) bool {
	// |a-b| > max without overflow
	if a < b {
		a, b = b, a
	}
	return uint64(a)-uint64(b) > uint64(max)
}

func setupC07(w *World) {
	m := w.filterModel("C07")
	clk := w.watchClocks()
	max := w.plan.P["max"]
	m.onMsg = func(g *fmsg) {
		w.Settle(func() { g.hi = w.Now() })
	}
	// judge tells whether a line is certainly inside or outside the window.
	judge := func(x *fline, t1 int64) (in, out bool) {
		if !x.hasT {
			return true, false
		}
		in, out = true, true
		for _, p := range clk.Walls(w.specs[0].inst, x.msg.T, t1) {
			for _, now := range p {
				if absDiffMore(x.ts, now, max-1) {
					in = false
				}
				if !absDiffMore(x.ts, now, max) {
					out = false
				}
			}
			// the whole stretch, not just its ends
			if p[0] <= x.ts && x.ts <= p[1] {
				out = false
			}
		}
		return
	}
	m.onOut = func(x *fline, p *Pub) {
		if _, out := judge(x, p.T); out {
			w.Violate("C07", "accepted", "line %s was forwarded although its time is more than %v ms away from the filter's clock", short(x.l.Bytes()), max/ms)
		}
	}
	invalid := int64(-1)
	w.broker.onPub = append(w.broker.onPub, func(p *Pub) {
		if p.Inst == nil || p.Subject != monSubject {
			return
		}
		for _, l := range splitLines(p.Data) {
			if s, err := parseSample(string(trimNL(l))); err == nil && s.Name == "invalid_time" {
				invalid = s.Value
			}
		}
	})
	w.onEnd = append(w.onEnd, func() {
		n := int64(0)
		for _, g := range m.msgs {
			if g.hi == 0 {
				return
			}
			for _, x := range g.lines {
				if x.seen > 0 {
					continue
				}
				n++
				if in, _ := judge(x, g.hi); in {
					w.Violate("C07", "rejected", "line %s was not forwarded although its time is within %v ms of the filter's clock", short(x.l.Bytes()), max/ms)
					return
				}
			}
		}
		if n != invalid {
			w.Violate("C07", "uncounted", "%d lines were rejected, invalid_time says %d", n, invalid)
		}
	})
}

// C08: malformed lines.

func genC08(r *Rng, tier string) *Plan {
	g := filterPlan(r, "filter-malformed", 1, schedOpt{maxPause: 20 * ms}, nil)
	for i, nm := 0, r.R(1, 25); i < nm; i++ {
		g.t += r.LogD(us, 100*ms)
		var lines []*Line
		den := r.R(1, 5)
		for k, n := 0, r.R(1, 12); k < n; k++ {
			if r.P(1, den) {
				g.bad++
				lines = append(lines, genBad(r, g.bad))
			} else {
				lines = append(lines, g.line(r, 60*sec))
			}
		}
		e := g.msg(r, lines)
		if r.P(1, 6) {
			e.S2 = "nonl"
		}
	}
	g.p.End = g.t + 20*sec
	return g.p
}

func setupC08(w *World) {
	m := w.filterModel("C08")
	w.onEnd = append(w.onEnd, func() { m.lost(nil) })
}

// C22: several filters.

func genC22(r *Rng, tier string) *Plan {
	if r.P(1, 3) {
		return genC22writers(r, tier)
	}
	nf := r.R(2, 4)
	g := filterPlan(r, "filter-group", nf, schedOpt{maxPause: 20 * ms}, nil)
	p := g.p
	api := map[int]bool{}
	for i := range p.Nodes {
		p.Nodes[i].Supervise = true
		if r.P(1, 3) {
			p.Nodes[i].Kind = "api"
			api[i] = true
		}
		if i > 0 && r.P(1, 5) {
			p.Nodes[i].NoStart = true
			p.Events = append(p.Events, &Ev{T: r.D(0, 8*sec), K: "start", N: i})
		}
	}
	start := g.t
	for i, nm := 0, r.R(10, 160); i < nm; i++ {
		g.t += r.LogD(us, 300*ms)
		var lines []*Line
		for k, n := 0, r.R(1, 5); k < n; k++ {
			lines = append(lines, g.line(r, 60*sec))
		}
		g.msg(r, lines)
	}
	for i, k := 0, r.N(6); i < k; i++ {
		n := r.N(nf)
		at := r.D(start, g.t)
		switch r.N(5) {
		case 0, 1:
			kind := "kill"
			if api[n] && r.P(1, 2) {
				kind = "stop"
			}
			p.Events = append(p.Events, &Ev{T: at, K: kind, N: n}, &Ev{T: at + r.LogD(ms, 4*sec), K: "start", N: n})
		case 2:
			p.Events = append(p.Events, &Ev{T: at, K: "stall", N: n, A: r.LogD(ms, 3*sec)})
		case 3:
			p.Events = append(p.Events, &Ev{T: at, K: "cut", N: n, S: "nats", A: r.LogD(ms, 5*sec)})
		case 4:
			p.Events = append(p.Events, &Ev{T: at, K: "kill", N: n})
		}
	}
	p.End = g.t + 20*sec
	return p
}

func setupC22(w *World) {
	if w.plan.Family == "writer-group" {
		setupC22writers(w)
		return
	}
	m := w.filterModel("C22")
	m.onMsg = func(g *fmsg) {
		if len(g.to) > 1 {
			w.Violate("C22", "shared", "a message was handed to %d filters: %v", len(g.to), names(g.to))
		}
		// every filter that has been up for a while takes part
		if len(g.to) == 0 {
			for _, s := range w.specs {
				if in := s.inst; in != nil && !in.dead && !in.cut["nats"] && in.apiStop0 == 0 && in.T1 == 0 &&
					w.Now()-in.T0-(w.Lag()-in.lag0) > 2*sec+w.slack() && w.neverCut(in) {
					w.Violate("C22", "unhandled", "nobody takes a message although %s has been running for %d ms", in.name(), (w.Now()-in.T0)/ms)
					break
				}
			}
		}
	}
	w.onEnd = append(w.onEnd, func() {
		m.lost(func(x *fline) bool {
			if len(x.msg.to) == 0 {
				return true // judged above
			}
			in := x.msg.to[0]
			return in.dead || in.apiStop0 != 0
		})
		w.idle("C22", func(in *Inst) int {
			n := 0
			for _, g := range m.msgs {
				for _, t := range g.to {
					if t == in {
						n++
					}
				}
			}
			return n
		}, func(in *Inst) (n int) {
			for _, g := range m.msgs {
				if g.T > in.T0 && g.T-in.T0-(g.lag-in.lag0) > 2*sec+w.slack() && (in.T1 == 0 || g.T < in.T1) {
					n++
				}
			}
			return
		})
	})
}

// idle complains about an instance that got nothing of a good share of
// messages: it does not take part.
func (w *World) idle(prop string, got, chance func(in *Inst) int) {
	k := len(w.specs)
	for _, s := range w.specs {
		for _, in := range s.insts {
			if in.dead || in.apiStop0 != 0 || !w.neverCut(in) {
				continue
			}
			n := chance(in)
			if n < 25*k || got(in) > 0 {
				continue
			}
			w.Violate(prop, "idle", "%s got none of %d messages published while it was up", in.name(), n)
		}
	}
}

func (w *World) neverCut(in *Inst) bool {
	for _, e := range w.plan.Events {
		if e.K == "cut" && w.specs[e.N] == in.spec {
			return false
		}
	}
	return true
}
