package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
)

// C14: the monitor.

func init() {
	register(&Prop{ID: "C14", Gen: genC14, Setup: setupC14})
}

const monPort = 9080

// mval is what one message says about a series.
type mval struct {
	k        int // number of the message
	val, ms  int64
	definite bool // the message is well-formed
}

// mmsg is one metrics message that a monitor was handed.
type mmsg struct {
	T, lag int64
}

// monState follows one incarnation of a monitor.
type monState struct {
	msgs   []mmsg
	series map[string][]mval
}

// strictSample reports whether a line is exactly as components write it.
func strictSample(line string, s *Sample) bool {
	i := strings.LastIndexByte(line, '}') + 1
	if i == 0 {
		i = len(s.Name)
	}
	want := fmt.Sprintf(" %d", s.Value)
	if s.HasTs {
		want += fmt.Sprintf(" %d", s.Milli)
		if s.Milli <= 0 {
			return false
		}
	}
	return line[i:] == want && !strings.HasSuffix(line[:i], ",}")
}

type monModel struct {
	w       *World
	prop    string
	states  map[*Inst]*monState
	nodes   map[int]bool
	lenient bool
	unsure  func(in *Inst, m mmsg) bool // it may not have got a message
}

func (w *World) monModel(prop string) *monModel {
	m := &monModel{w: w, prop: prop, states: map[*Inst]*monState{}, nodes: map[int]bool{}}
	for i, n := range w.plan.Nodes {
		if strings.Contains(n.Conf, `mode = "monitor"`) {
			m.nodes[i] = true
		}
	}
	w.on["metrics"] = func(e *Ev) { w.broker.Publish(monSubject, e.Data) }
	w.on["scrape"] = func(e *Ev) { m.scrape(e) }
	w.broker.onPub = append(w.broker.onPub, m.onPub)
	return m
}

func (m *monModel) state(in *Inst) *monState {
	s := m.states[in]
	if s == nil {
		s = &monState{series: map[string][]mval{}}
		m.states[in] = s
	}
	return s
}

func (m *monModel) onPub(p *Pub) {
	if p.Subject != monSubject {
		return
	}
	var samples []*Sample
	ok := true
	for _, l := range strings.Split(string(p.Data), "\n") {
		if l == "" {
			continue
		}
		s, err := parseSample(l)
		if err != nil {
			ok = false
			if p.Inst != nil && !m.lenient {
				m.w.Violate(m.prop, "format", "%s publishes an invalid metric: %q (%v)", p.Inst.name(), l, err)
			}
			continue
		}
		if !strictSample(l, s) {
			ok = false
		}
		samples = append(samples, s)
	}
	for _, in := range p.To {
		if !m.nodes[in.spec.idx] {
			continue
		}
		st := m.state(in)
		k := len(st.msgs)
		st.msgs = append(st.msgs, mmsg{m.w.Now(), m.w.Lag()})
		for _, s := range samples {
			ms := s.Milli
			if !s.HasTs || ms <= 0 {
				ms = 0
			}
			key := s.Key()
			h := st.series[key]
			if n := len(h); ok && n > 0 && h[n-1].k == k {
				h = h[:n-1] // the last one in a message counts
			}
			st.series[key] = append(h, mval{k, s.Value, ms, ok})
		}
	}
}

// scrape makes a request and judges the answer.
func (m *monModel) scrape(e *Ev) {
	w := m.w
	in := w.specs[e.N].inst
	if in == nil {
		return
	}
	st := m.state(in)
	// what it must have handled before the request
	kmin := 0
	now, lag := w.Now(), w.Lag()
	for kmin < len(st.msgs) && now-st.msgs[kmin].T-(lag-st.msgs[kmin].lag) > w.slack()+500*ms {
		kmin++
	}
	up := in.ready != 0 && now-in.T0-(lag-in.lag0) > 2*sec+w.slack()
	polite := !strings.Contains(e.S2, "abort") && !strings.Contains(e.S2, "stall") && !strings.Contains(e.S2, "half") && optDur(e.S2, "read=") >= 0
	req := *e
	req.A, req.S, req.K = monPort, "GET /metrics", "http"
	if e.S != "" {
		req.S = e.S
	}
	r := w.httpDo(&req, func(r *Req) {
		if r.In != in || in.dead || r.Aborted {
			return
		}
		if r.Err != "" {
			if up && polite {
				w.Violate(m.prop, "scrape", "a scrape of %s failed: %s", in.name(), r.Err)
			}
			return
		}
		if e.S != "" {
			return
		}
		w.checks++
		if r.Status != 200 {
			w.Violate(m.prop, "scrape", "a scrape of %s got status %d", in.name(), r.Status)
			return
		}
		m.judge(in, st, r.Body, kmin, len(st.msgs))
	})
	if !up || !polite {
		return
	}
	w.SettleAfter(optDur(e.S2, "read=")+sec, func() {
		if r.TDone == 0 && !in.dead && r.Err == "" {
			w.Violate(m.prop, "hang", "a scrape of %s has had no answer for %d ms", in.name(), (w.Now()-r.T0)/ms)
		}
	})
}

// judge compares a response with what the monitor was told, after some number
// of messages in [kmin, kmax] (a message may be in the course of being
// applied).
func (m *monModel) judge(in *Inst, st *monState, body []byte, kmin, kmax int) {
	w := m.w
	type pair struct{ v, ms int64 }
	got := map[string]pair{}
	for i, l := range strings.Split(strings.TrimSuffix(string(body), "\n"), "\n") {
		if l == "" && i == 0 && len(body) == 0 {
			break
		}
		s, err := parseSample(l)
		if err != nil {
			w.Violate(m.prop, "exposition", "%s serves an invalid line: %q (%v)", in.name(), cut(l), err)
			return
		}
		k := s.Key()
		if _, dup := got[k]; dup {
			w.Violate(m.prop, "twice", "%s serves a series twice: %s", in.name(), cut(k))
			return
		}
		got[k] = pair{s.Value, s.Milli}
	}
	if len(body) > 0 && body[len(body)-1] != '\n' {
		w.Violate(m.prop, "exposition", "the last line that %s serves is not terminated", in.name())
	}
	for k := range got {
		if st.series[k] == nil {
			w.Violate(m.prop, "phantom", "%s serves a series that it was never sent: %s", in.name(), cut(k))
			return
		}
	}
	// For each series, the numbers of messages after which it looks like
	// this; those of all series must agree, but for one message.
	lo, hi := kmin, kmax
	loK, hiK := "", ""
	keys := make([]string, 0, len(st.series))
	for k := range st.series {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		h := st.series[k]
		g, have := got[k]
		a, b, found := 0, 0, false // the latest fitting range that overlaps [kmin, kmax]
		stale := false
		maybe := false
		sure := func(v mval) bool {
			return v.definite && (m.unsure == nil || !m.unsure(in, st.msgs[v.k]))
		}
		// to: until the next definite one
		for i, to := len(h)-1, kmax; i >= -1; i-- {
			from, k := 0, to
			fits := !have
			if i >= 0 {
				from = h[i].k + 1
				if sure(h[i]) {
					to = h[i].k
				} else if k >= kmin {
					maybe = true
				}
				fits = have && h[i].val == g.v && h[i].ms == g.ms
			}
			if !fits {
				continue
			}
			if k < kmin {
				stale = true
				continue
			}
			a = from
			if !found {
				b, found = k, true
			}
		}
		if !found {
			if maybe && !have {
				continue
			}
			switch {
			case !have:
				w.Violate(m.prop, "missing", "%s does not serve a series that it was sent: %s", in.name(), cut(k))
			case stale:
				w.Violate(m.prop, "stale", "%s serves an old value %d @%d of %s, the latest is %d @%d", in.name(), g.v, g.ms, cut(k), h[len(h)-1].val, h[len(h)-1].ms)
			default:
				w.Violate(m.prop, "value", "%s serves a value %d @%d of %s that it was never sent", in.name(), g.v, g.ms, cut(k))
			}
			return
		}
		if maybe {
			continue
		}
		if a > lo {
			lo, loK = a, k
		}
		if b < hi {
			hi, hiK = b, k
		}
	}
	if lo > hi+1 {
		w.Violate(m.prop, "mixed", "%s serves a newer sample of %s along with an older one of %s", in.name(), cut(loK), cut(hiK))
	}
}

func cut(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

var promNames = []string{"received", "passed", "a", "foo_bar", "x:y", "_z", "received2", "Foo", "tri9", "failed_nats_publish", "A", "zz9", "Z_A"}
var promLabels = []string{"host", "name", "component", "a", "b", "Host", "_x", "zone", "l1", "influxdb_dbname", "A", "Zz", "z_A9"}
var promVals = []string{"h1", "h2", "", "nyc-01", "a b", "é", "x,y", "x=y", `q"uote`, `back\slash`, "{", "}", `"`, `\`, "line\nbreak", `a="b"`, "} 5", "#", "0"}

// genSample writes one metric; junk names belong to malformed messages.
func genSample(r *Rng, prefix string, val, ms int64) string {
	name := prefix + promNames[r.N(len(promNames))]
	var b strings.Builder
	b.WriteString(name)
	n := r.PickI(0, 1, 2, 3, 3, 6)
	if n > 0 {
		b.WriteByte('{')
		for i, j := range r.Perm(len(promLabels))[:n] {
			if i > 0 {
				b.WriteByte(',')
			}
			v := promVals[r.N(4)]
			if r.P(1, 4) {
				v = promVals[r.N(len(promVals))]
			}
			b.WriteString(promLabels[j] + `="` + promEsc(v) + `"`)
		}
		b.WriteByte('}')
	}
	fmt.Fprintf(&b, " %d", val)
	if ms > 0 {
		fmt.Fprintf(&b, " %d", ms)
	}
	return b.String()
}

func promEsc(v string) string {
	return strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`).Replace(v)
}

// genBadSample breaks a metric.
func genBadSample(r *Rng, id int) []byte {
	b := []byte(genSample(r, fmt.Sprintf("junk%d_", id), int64(r.N(1000)), int64(r.N(2))*int64(r.N(100000))))
	keep := len(fmt.Sprintf("junk%d_", id)) // the name stays private
	switch r.N(9) {
	case 0:
		return b[:keep+r.N(len(b)-keep+1)]
	case 1:
		k := keep + r.N(len(b)-keep)
		return append(append([]byte(nil), b[:k]...), b[k+1:]...)
	case 2, 3:
		k := keep + r.N(len(b)-keep+1)
		o := append([]byte(nil), b[:k]...)
		o = append(o, r.Pick(`"`, "{", "}", ",", "=", " ", `\`, "-", "\x00", "é", "\xff", "9", "99999999999999999999")...)
		return append(o, b[k:]...)
	case 4:
		return append(append([]byte(nil), b[:keep]...), r.Pick(`x{a="b"`, `x{`, `x{a`, `x{a=`, `x{a="`, `x{a="b`, `x{a="b"}`, `x{a="b",`, `x{}`, `x{} `, "x", "x ", "x 1 ", "x 1 2 3", "x 1.5", "x NaN", `x{a="b"}1`, `x{a="b"}}1 2`, `x{a="b\`, `x{a="b\"} 1`, `x{a="b\q"} 1`, `x{a="1",a="2"} 1`, "x  1", "x\t1", "x 9223372036854775808", "x -9223372036854775809")...)
	case 5:
		return []byte(r.Pick(`{a="b"} 1`, "{} 1", " 1", "1x 2", "{", "}", `="`, "{{{{", "   ", "a", "ab", `é 1`, "# HELP x y", "# TYPE x counter", "\x00\x00\x00", `x-y 1`, `x{1a="b"} 1`, `x{a-b="c"} 1`, `x{="c"} 1`))
	case 6:
		n := r.R(1, 60)
		o := make([]byte, n)
		for i := range o {
			o[i] = byte(r.U64())
		}
		return o
	case 7:
		n := r.R(1, 40)
		var o []byte
		for i := 0; i < n; i++ {
			o = append(o, `{}"=, \a1`[r.N(9)])
		}
		return o
	default:
		return bytes.Repeat(b[:keep+r.N(len(b)-keep+1)], r.R(1, 50))
	}
}

func genC14(r *Rng, tier string) *Plan {
	p := &Plan{Family: "monitor", Sched: genSched(r, schedOpt{maxPause: 50 * ms}), Net: genNet(r), S: map[string]string{}, P: map[string]int64{}}
	p.Epoch = 1600000000*sec + r.D(0, 100000000*sec)
	nm := r.PickI(1, 1, 1, 2)
	mon := func(name string) {
		c := newConf("monitor", name).i("port", monPort)
		p.Nodes = append(p.Nodes, NodeCfg{Name: name, Conf: c.String(), Supervise: true})
	}
	for i := 0; i < nm; i++ {
		mon(fmt.Sprintf("mon%d", i))
	}
	// real components that report to it
	for i, n := 0, r.PickI(0, 0, 1, 2, 3); i < n; i++ {
		name := r.Pick(fmt.Sprintf("c%d", i), fmt.Sprintf("c%d", i), "odd name", `qu"oted`, `b\s`, "é")
		iv := r.PickD(sec, 3*sec)
		var c *conf
		switch r.N(3) {
		case 0:
			c = newConf("filter", name).subjects("in").d("stats_interval", iv)
			for _, ru := range genRules(r, r.N(4)) {
				c.rule(ru)
			}
		case 1:
			c = newConf("listener", name).subjects("in").i("port", int64(7000+i)).d("stats_interval", iv)
		case 2:
			c = newConf("downsampler", name).subjects("in").d("stats_interval", iv).d("downsample_period", sec)
		}
		p.Nodes = append(p.Nodes, NodeCfg{Name: fmt.Sprintf("x%d", i), Conf: c.String(), Supervise: true})
	}
	t := 2500 * ms
	// The series: a few that come again and again.
	var names []string
	for i, n := 0, r.PickI(3, 10, 40, 200); i < n; i++ {
		s := genSample(r, "", 0, 0)
		names = append(names, s[:len(s)-2])
	}
	if r.P(1, 60) {
		// very many
		for i, n := 0, int(r.LogD(500, 5000)); i < n; i++ {
			names = append(names, fmt.Sprintf(`m%d{k="%d",l="x"}`, i%100, i))
		}
	}
	if r.P(1, 3) {
		// series that are easily mistaken for each other
		n, a, b := r.Pick("up", "m_", "passed"), r.Pick("a", "host", "le"), r.Pick("b", "hosts", "z1")
		x, y := r.Pick("x", "1", "é"), r.Pick("y", "2", "x")
		for _, l := range []string{
			`{%[1]s="%[3]s",%[2]s="%[4]s"}`, `{%[1]s="%[4]s",%[2]s="%[3]s"}`, `{%[1]s="%[3]s,%[2]s=%[4]s"}`, `{%[1]s="%[3]s\",%[2]s=\"%[4]s"}`,
			`{%[1]s%[2]s="%[3]s"}`, `{%[1]s="%[2]s%[3]s"}`, `{%[1]s="%[3]s"}`, `{%[1]s="%[3]s "}`, `{%[1]s="%[3]s\\"}`, `{%[1]s="%[3]s\n"}`, `{%[1]s="%[3]sn"}`,
			`{%[2]s="%[3]s"}`, `{%[1]s="%[3]s%[4]s"}`, `{%[1]s="%[3]s",%[2]s="%[4]s",zz="%[3]s"}`, `{%[1]s="{%[3]s}"}`,
		} {
			if r.P(1, 2) {
				names = append(names, n+fmt.Sprintf(l+"%.0[1]s%.0[2]s%.0[3]s%.0[4]s", a, b, x, y))
			}
		}
		names = append(names, n, n+a)
	}
	if r.P(1, 6) {
		// a response is more than a connection buffers
		p.Net.Win = r.PickI(500, 2000, 8000)
	}
	permute := func(s string) string {
		i := strings.IndexByte(s, '{')
		if i < 0 || r.P(1, 2) {
			return s
		}
		ls := splitTop2(s[i+1 : len(s)-1])
		var o []string
		for _, k := range r.Perm(len(ls)) {
			o = append(o, ls[k])
		}
		return s[:i] + "{" + strings.Join(o, ",") + "}"
	}
	val := int64(0)
	for i, n := 0, r.R(5, 60); i < n; i++ {
		t += r.LogD(us, 400*ms)
		switch k := r.N(20); {
		case k < 10:
			var b strings.Builder
			ms := (p.Epoch + t) / 1000000
			num := r.PickI(1, 1, 2, 5, 20)
			if r.P(1, 20) || len(names) > 500 && val == 0 {
				num = len(names)
			}
			for _, j := range pickN(r, len(names), num) {
				val++
				v := val
				if r.P(1, 10) {
					v = r.PickD(0, -1, 1<<63-1, -1<<63, 5)
				}
				fmt.Fprintf(&b, "%s %d", permute(names[j]), v)
				if r.P(9, 10) {
					fmt.Fprintf(&b, " %d", ms+val%3)
				}
				b.WriteByte('\n')
			}
			d := b.String()
			if r.P(1, 4) {
				d = strings.TrimSuffix(d, "\n")
			}
			p.Events = append(p.Events, &Ev{T: t, K: "metrics", Data: []byte(d)})
		case k < 14:
			var b []byte
			for j, m := 0, r.R(1, 3); j < m; j++ {
				b = append(append(b, genBadSample(r, i)...), '\n')
			}
			p.Events = append(p.Events, &Ev{T: t, K: "metrics", Data: b})
		default:
			e := &Ev{T: t, K: "scrape", N: r.N(nm)}
			switch r.N(10) {
			case 0:
				e.S2 = r.Pick("abort", "half", "stall", "read=-1")
			case 1:
				e.S2 = fmt.Sprintf("read=%d", r.LogD(ms, 10*sec))
			case 2:
				e.S = r.Pick("GET /", "GET /nothing", "POST /metrics", "HEAD /metrics", "BREW /metrics")
				if r.P(1, 2) {
					e.Parts = [][]byte{[]byte("some body")}
				}
				e.S2 = "half"
			}
			p.Events = append(p.Events, e)
			for j := 0; r.P(1, 3) && j < 4; j++ { // several at a time
				p.Events = append(p.Events, &Ev{T: t + r.LogD(us, 2*ms), K: "scrape", N: e.N})
			}
		}
	}
	for i := nm; i < len(p.Nodes); i++ {
		for j, n := 0, r.N(5); j < n; j++ {
			p.Events = append(p.Events, &Ev{T: r.D(2*sec, t), K: "pub", S: "in", Data: genLine(r, j, "").Bytes()})
		}
	}
	if r.P(1, 4) {
		n := r.N(len(p.Nodes))
		at := r.D(sec, t)
		switch r.N(3) {
		case 0:
			p.Events = append(p.Events, &Ev{T: at, K: "kill", N: n}, &Ev{T: at + r.LogD(ms, 2*sec), K: "start", N: n})
		case 1:
			p.Events = append(p.Events, &Ev{T: at, K: "stall", N: n, A: r.LogD(ms, 10*sec)})
		case 2:
			p.Events = append(p.Events, &Ev{T: at, K: "clock", N: n, A: r.D(-100*sec, 100*sec)})
		}
	}
	for i := 0; i < nm; i++ {
		p.Events = append(p.Events, &Ev{T: t + 8*sec, K: "scrape", N: i}, &Ev{T: t + 9*sec, K: "scrape", N: i})
	}
	p.End = t + 30*sec
	return p
}

// splitTop2 splits labels at the commas outside of quotes.
func splitTop2(s string) (o []string) {
	from, in := 0, false
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\' && in:
			i++
		case s[i] == '"':
			in = !in
		case s[i] == ',' && !in:
			o = append(o, s[from:i])
			from = i + 1
		}
	}
	return append(o, s[from:])
}

// pickN picks up to n different numbers below max.
func pickN(r *Rng, max, n int) []int {
	if n > max {
		n = max
	}
	return r.Perm(max)[:n]
}

func setupC14(w *World) {
	w.monModel("C14")
}
