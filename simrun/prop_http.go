package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
)

func init() {
	register(&Prop{ID: "C02", Gen: genC02, Setup: setupC02})
	register(&Prop{ID: "C04", Gen: genC04, Setup: setupC04})
	register(&Prop{ID: "C05", Gen: genC05, Setup: setupC05})
}

const httpPort = 13337

// A "post" event is a write request: S the query, Data or L the body, A seeds
// its fragmentation, B is the longest pause between fragments, S2 has the
// options of httpDo, G the port's node.

func (e *Ev) body() []byte {
	if n := int(optDur(e.S2, "fill=")); n > 0 {
		// a very large one
		if e.filled == nil {
			for k := 0; len(e.filled) < n; k++ {
				e.filled = append(e.filled, fmt.Sprintf("f%d.%d,x=%s v=1i\n", e.T, k, strings.Repeat(string(rune('a'+k%26)), 1000+k*7919%30000))...)
			}
		}
		return e.filled
	}
	if e.L == nil {
		return e.Data
	}
	var b []byte
	blank := 0 // may be dropped, and that's all
	if strings.Contains(e.S2, "blank") {
		blank = 1 + int(e.A%3)
		if e.A%2 == 0 {
			b = append(b, '\n')
		}
	}
	for i, l := range e.L {
		b = append(b, l.Bytes()...)
		if blank != 0 && i%blank == 0 {
			b = append(b, '\n')
		}
	}
	if strings.Contains(e.S2, "nonl") && len(b) > 0 {
		b = b[:len(b)-1]
	}
	return b
}

// fragment cuts a body up for its way through the network.
func fragment(b []byte, seed, maxGap int64) (parts [][]byte, gaps []int64) {
	r := newRng(uint64(seed), "frag")
	k := r.PickI(1, 1, 2, 3, 6)
	gaps = append(gaps, 0)
	for i := 0; i < k && len(b) > 0; i++ {
		n := len(b)
		if i < k-1 {
			n = r.R(0, len(b))
			if r.P(1, 4) {
				// cut right at or next to a line end
				if j := bytes.IndexByte(b, '\n'); j >= 0 {
					n = j + r.N(2)
				}
			}
		}
		parts = append(parts, b[:n])
		b = b[n:]
		g := int64(0)
		if maxGap > 0 && r.P(2, 3) {
			g = r.LogD(us, maxGap)
		}
		gaps = append(gaps, g)
	}
	if r.P(1, 3) && maxGap > 0 {
		gaps[0] = r.LogD(us, maxGap)
	}
	return
}

// post sends a write request.
func (w *World) post(e *Ev, done func(*Req)) *Req {
	b := e.body()
	opt := e.S2
	extra := int64(0)
	if strings.Contains(opt, "abort") || strings.Contains(opt, "half") || strings.Contains(opt, "stall") {
		// the client gives up before the end
		r := newRng(uint64(e.A), "cut")
		k := r.N(len(b) + 1)
		extra = int64(len(b) - k)
		if extra == 0 {
			extra = 1
		}
		if strings.Contains(opt, "whole") {
			k, extra = len(b), 0
		}
		b = b[:k]
	}
	parts, gaps := fragment(b, e.A, e.B)
	if len(gaps) > len(parts) && extra > 0 {
		gaps = append(gaps, e.B)
	}
	h := &Ev{T: e.T, K: "http", N: e.N, A: httpPort, B: extra, S: "POST /write" + e.S, S2: opt, Parts: parts, Gaps: gaps}
	return w.httpDo(h, done)
}

// hreq is what is known about one write request.
type hreq struct {
	*Req
	lines []string // what is expected, each ending in a newline
	raw   bool     // its last line lacks one
	ack   bool
	pos   int
	sz    int
	lag   int64 // at the acknowledgement
}

type hexp struct {
	q   *hreq
	idx int
}

// httpModel checks what is published against what was posted.
type httpModel struct {
	w     *World
	prop  string
	want  map[string][]hexp // several lines may look alike
	reqs  []*hreq
	cur   *hreq
	order []*hreq // requests in the order of their publication
	loose bool
	long  int // the longest line
}

func (w *World) httpModel(prop string) *httpModel {
	m := &httpModel{w: w, prop: prop, want: map[string][]hexp{}}
	w.on["post"] = func(e *Ev) {
		w.Count("requests", 1)
		ls := e.expect()
		q := &hreq{lines: ls}
		for _, l := range ls {
			if len(l) > m.long {
				m.long = len(l)
			}
		}
		if b := e.body(); len(b) > 0 && b[len(b)-1] != '\n' {
			q.raw = true
		}
		for i, l := range ls {
			m.want[l] = append(m.want[l], hexp{q, i})
			q.sz += len(l)
		}
		q.Req = w.post(e, func(r *Req) {
			if r.Status >= 200 && r.Status < 300 {
				q.ack = true
			}
			q.lag = w.Lag()
		})
		m.reqs = append(m.reqs, q)
	}
	w.broker.onPub = append(w.broker.onPub, m.onPub)
	return m
}

func (m *httpModel) onPub(p *Pub) {
	w := m.w
	if p.Inst == nil || p.Subject == "influx-spout-monitor" {
		return
	}
	if p.Subject != "in" {
		w.Violate(m.prop, "wrong-subject", "the listener published on %q", p.Subject)
		return
	}
	w.checks++
	if len(p.Data) == 0 {
		w.Violate(m.prop, "empty", "an empty message was published")
	}
	ls := splitLines(p.Data)
	for i, l := range ls {
		s := string(l)
		if s == "\n" {
			continue
		}
		open := false
		if s[len(s)-1] != '\n' {
			s += "\n"
			open = true
		}
		xs := m.want[s]
		if len(xs) == 0 {
			w.Violate(m.prop, "alien-line", "a line was published that no request contains: %s", short(l))
			return
		}
		x := xs[0]
		for _, y := range xs {
			if y.idx == y.q.pos && (m.cur == nil || m.cur == y.q) {
				x = y
				break
			}
			if y.idx == y.q.pos {
				x = y
			}
		}
		q := x.q
		if open && (i != len(ls)-1 || !q.raw || x.idx != len(q.lines)-1) {
			w.Violate(m.prop, "cut-line", "a message ends inside line %s", short(l))
		}
		if x.idx < q.pos {
			w.Violate(m.prop, "duplicate", "line %d of request %d was published again: %s", x.idx, q.ID, short(l))
			continue
		}
		if x.idx > q.pos {
			w.Violate(m.prop, "order", "line %d of request %d was published when line %d was due: %s", x.idx, q.ID, q.pos, short(l))
		}
		if m.cur != nil && m.cur != q && m.cur.pos < len(m.cur.lines) && !m.cur.Aborted {
			w.Violate(m.prop, "interleaved", "line %d of request %d was published between the lines of request %d", x.idx, q.ID, m.cur.ID)
		}
		if q.pos == 0 {
			m.order = append(m.order, q)
		}
		m.cur = q
		q.pos = x.idx + 1
	}
}

func (m *httpModel) end() {
	w := m.w
	for _, q := range m.reqs {
		if q.ack && q.pos < len(q.lines) {
			w.Violate(m.prop, "lost", "request %d was acknowledged with %d but its line %d of %d was never published: %s",
				q.ID, q.Status, q.pos, len(q.lines), short([]byte(q.lines[q.pos])))
			return
		}
		if q.Status == 0 && !q.Aborted && q.Err == "" {
			w.Violate(m.prop, "unanswered", "request %d was never answered", q.ID)
			return
		}
		if !q.ack && !q.Aborted {
			w.Violate(m.prop, "refused", "request %d was refused: status %d, %s", q.ID, q.Status, q.Err)
			return
		}
	}
}

var precisions = map[string]int64{"u": 1000, "ms": 1000000, "s": 1000000000, "m": 60000000000, "h": 3600000000000}

// expect is what has to be published for a request.
func (e *Ev) expect() []string {
	mult := int64(1)
	if i := strings.Index(e.S, "precision="); i >= 0 {
		v := e.S[i+len("precision="):]
		if j := strings.IndexByte(v, '&'); j >= 0 {
			v = v[:j]
		}
		if m, ok := precisions[v]; ok {
			mult = m
		}
	}
	var out []string
	if e.L != nil {
		for _, l := range e.L {
			x := *l
			if x.Ts != "" && mult != 1 {
				v, err := strconv.ParseInt(x.Ts, 10, 64)
				if err == nil {
					p := new(big.Int).Mul(big.NewInt(v), big.NewInt(mult))
					if p.IsInt64() && p.Int64() >= math.MinInt64+2 && p.Int64() <= math.MaxInt64-1 {
						x.Ts = p.String()
					}
				}
			}
			out = append(out, string(x.Bytes()))
		}
		return out
	}
	for _, l := range splitLines(e.body()) {
		s := string(l)
		if s == "\n" {
			continue
		}
		if s[len(s)-1] != '\n' {
			s += "\n"
		}
		out = append(out, s)
	}
	return out
}

// genPosts makes write requests.
func genPosts(r *Rng, p *Plan, t int64, n int, gapMax int64, faulty bool) int64 {
	keep := r.P(1, 2)
	for i := 0; i < n; i++ {
		if r.P(1, 4) {
			t += r.D(0, 100*us)
		} else {
			t += r.LogD(us, gapMax)
		}
		e := &Ev{T: t, K: "post", A: int64(r.U64() >> 20), S: r.Pick("", "?db=x", "?precision=ns", "?db=x&precision=ns")}
		e.Data = genBlob(r, fmt.Sprintf("r%d", i), 300000)
		if r.P(1, 30) {
			// more than a message can hold
			var b bytes.Buffer
			for k, n := 0, r.R(2000, 40000); k < n; k++ {
				fmt.Fprintf(&b, "r%d.big.%d,%s v=1i\n", i, k, strings.Repeat("t", r.N(60)))
			}
			e.Data = b.Bytes()
		} else if r.P(1, 40) {
			// chunks of exactly the maximum size, give or take one
			unit := r.PickI(64, 128, 1024)
			var b bytes.Buffer
			for k := 0; b.Len() < mega+2*unit; k++ {
				l := fmt.Sprintf("r%d.x.%d,", i, k)
				b.WriteString(l + strings.Repeat("y", unit-1-len(l)) + "\n")
			}
			d := b.Bytes()
			if k := r.N(3); k > 0 {
				d = append(d, make([]byte, 0)...)
				d = append([]byte(fmt.Sprintf("r%d%s\n", i, strings.Repeat("z", k))), d...)
			}
			e.Data = d
		}
		if r.P(1, 3) {
			e.B = r.LogD(us, r.PickD(ms, 200*ms, 3*sec))
		}
		var o []string
		if r.P(1, 3) {
			o = append(o, "chunked")
		}
		if faulty && r.P(1, 5) {
			o = append(o, r.Pick("abort", "half", "stall"))
		} else if keep && r.P(3, 4) {
			o = append(o, "keep")
		}
		if r.P(1, 3000) {
			e.Data = nil
			o = append(o, fmt.Sprintf("fill=%d", r.LogD(4<<20, 48<<20)))
		}
		e.S2 = strings.Join(o, " ")
		p.Events = append(p.Events, e)
	}
	return t
}

func genC02(r *Rng, tier string) *Plan {
	p := &Plan{Family: "listener-http", Sched: genSched(r, schedOpt{maxPause: 50 * ms}), Net: genNet(r)}
	b := genBatchCfg(r)
	if b.age > 10*sec {
		b.age = 10 * sec
	}
	c := listenerConf(r, "listener_http", b, httpPort)
	p.Nodes = []NodeCfg{{Name: "listener1", Conf: c.String()}}
	n := r.R(1, 25)
	t := genPosts(r, p, 300*ms, n, r.PickD(100*us, 5*ms, 200*ms), true)
	if r.P(1, 4) {
		p.Events = append(p.Events, &Ev{T: r.D(300*ms, t), K: r.Pick("stall", "busstall"), N: 0, A: r.LogD(ms, 3*sec)})
	}
	p.P = map[string]int64{"age": b.age}
	p.End = t + b.age + 30*sec
	return p
}

func setupC02(w *World) {
	m := w.httpModel("C02")
	w.onEnd = append(w.onEnd, m.end)
}

func genC04(r *Rng, tier string) *Plan {
	p := &Plan{Family: "listener-http", Sched: genSched(r, schedOpt{maxPause: 50 * ms}), Net: genNet(r)}
	b := genBatchCfg(r)
	if b.age > 10*sec {
		b.age = 10 * sec
	}
	c := listenerConf(r, "listener_http", b, httpPort)
	p.Nodes = []NodeCfg{{Name: "listener1", Conf: c.String()}}
	t := 300 * ms
	id := 0
	keep := r.P(1, 2)
	for i, n := 0, r.R(1, 15); i < n; i++ {
		if r.P(1, 2) {
			t += r.D(0, 100*us)
		} else {
			t += r.LogD(us, 100*ms)
		}
		prec := r.Pick("u", "ms", "s", "m", "h", "ns", "", "s", "ms")
		e := &Ev{T: t, K: "post", A: int64(r.U64() >> 20), S: r.Pick("?precision=", "?db=x&precision=") + prec}
		if r.P(1, 2) {
			e.B = r.LogD(us, r.PickD(ms, 200*ms))
		}
		k := r.R(1, 12)
		if r.P(1, 10) {
			k = r.R(100, 900)
		}
		if r.P(1, 500) {
			k = int(r.LogD(1000, 8000))
		}
		for j := 0; j < k; j++ {
			ts := ""
			switch r.N(8) {
			case 0:
			case 1:
				ts = fmt.Sprint(r.D(-100000, 100000))
			case 2: // around the largest representable time
				m := precisions[prec]
				if m == 0 {
					m = 1
				}
				ts = fmt.Sprint(math.MaxInt64/m + r.D(-2, 2))
				if m == 1 {
					ts = fmt.Sprint(int64(math.MaxInt64) - r.D(0, 3))
				}
				if r.P(1, 2) {
					ts = "-" + ts
				}
			case 3:
				ts = fmt.Sprint(int64(r.U64() >> uint(1+r.N(60))))
			default:
				m := precisions[prec]
				if m == 0 {
					m = 1
				}
				ts = fmt.Sprint((1600000000*sec + r.D(0, 1000000*sec)) / m)
			}
			l := genLine(r, id, ts)
			id++
			if r.P(1, 60) {
				l.Fields = fmt.Sprintf("id=%di,big=\"%s\"", id, strings.Repeat("B", int(r.LogD(1000, 200000))))
			}
			e.L = append(e.L, l)
		}
		var o []string
		if r.P(1, 3) {
			o = append(o, "chunked")
		}
		if r.P(1, 4) {
			o = append(o, "nonl")
		}
		if r.P(1, 8) {
			o = append(o, "blank")
		}
		if r.P(1, 12) {
			o = append(o, r.Pick("abort", "half", "stall"))
		} else if keep && r.P(3, 4) {
			o = append(o, "keep")
		}
		e.S2 = strings.Join(o, " ")
		p.Events = append(p.Events, e)
	}
	p.P = map[string]int64{"age": b.age}
	p.End = t + b.age + 30*sec
	return p
}

func setupC04(w *World) {
	m := w.httpModel("C04")
	w.onEnd = append(w.onEnd, m.end)
}

// C05: bad clients.

func genC05(r *Rng, tier string) *Plan {
	p := &Plan{Family: "listener-http", Sched: genSched(r, schedOpt{maxPause: 5 * ms}), Net: NetCfg{LatMin: 20 * us, LatMax: 300 * us}}
	b := batchCfg{count: r.PickD(1, 3, 10, 10, 100000), size: r.PickD(mega, mega, 70000, 200000), age: r.PickD(200*ms, sec, 3*sec)}
	c := listenerConf(r, "listener_http", b, httpPort)
	p.Nodes = []NodeCfg{{Name: "listener1", Conf: c.String()}}
	p.P = map[string]int64{"age": b.age, "count": b.count, "size": b.size}
	t := 300 * ms
	end := t
	big := r.P(1, 8) // everyone's are
	nb := r.R(1, 6)
	if r.P(1, 5) && !big {
		nb = int(r.LogD(6, 300))
	}
	for i := 0; i < nb; i++ {
		e := &Ev{T: t + r.LogD(us, 2*sec), K: "post", A: int64(r.U64() >> 20), S: r.Pick("", "?precision=s", "?precision=ns")}
		e.Data = []byte(strings.Repeat(fmt.Sprintf("bad%d,x=1 v=2i\n", i), r.R(1, 400)))
		if r.P(1, 12) {
			// more than a batch holds
			e.Data = bytes.Repeat([]byte(fmt.Sprintf("bad%d,x=1 v=2i\n", i)), int(r.LogD(5000, 200000)))
			p.Sched.MaxPicks *= 3
		}
		if big {
			e.Data = bytes.Repeat([]byte(fmt.Sprintf("bad%d,x=1 v=2i\n", i)), int(r.LogD(5000, 150000)))
			p.Sched.MaxPicks *= 2
		}
		switch r.N(5) {
		case 0, 1:
			e.S2 = "stall"
		case 4: // not so bad
			e.B = r.LogD(us, 100*ms)
		case 2: // trickles for a long time
			e.B = 20 * sec
			e.S2 = "trickle"
		case 3:
			e.B = r.LogD(ms, 10*sec)
			e.S2 = r.Pick("abort", "half")
		}
		if r.P(1, 3) {
			e.S2 += " chunked"
		}
		p.Events = append(p.Events, e)
	}
	for i, n := 0, r.R(2, 20); i < n; i++ {
		t += r.LogD(us, 500*ms)
		e := &Ev{T: t, K: "post", A: int64(r.U64() >> 20), S: r.Pick("", "", "?precision=s", "?precision=ns")}
		for j, k := 0, r.R(1, 5); j < k; j++ {
			e.Data = append(e.Data, fmt.Sprintf("good%d.%d,x=1 v=2i\n", i, j)...)
		}
		e.S2 = "good"
		if r.P(1, 4) {
			e.S2 += " chunked"
		}
		if big && r.P(1, 3) {
			for j, k := 0, r.R(1, 4); j < k; j++ {
				e.Data = append(e.Data, fmt.Sprintf("good%d.x%d,y=%s v=1i\n", i, j, strings.Repeat("y", int(r.LogD(50000, 900000))))...)
			}
		}
		p.Events = append(p.Events, e)
		end = t
	}
	p.End = end + b.age + 5*sec
	return p
}

func setupC05(w *World) {
	type good struct {
		*Req
		lag0, lag1 int64
		lines      map[string]bool
		left       int
	}
	var reqs []*good
	byLine := map[string]*good{}
	w.on["post"] = func(e *Ev) {
		if !strings.Contains(e.S2, "good") {
			w.post(e, nil)
			return
		}
		g := &good{lines: map[string]bool{}}
		for _, l := range splitLines(e.Data) {
			g.lines[string(l)] = true
			byLine[string(l)] = g
			g.left++
		}
		e2 := *e
		e2.S2 = strings.TrimPrefix(e.S2, "good")
		e2.B = 0
		g.lag0 = w.Lag()
		g.Req = w.post(&e2, func(r *Req) {
			g.lag1 = w.Lag()
			w.checks++
			if r.Status != 204 {
				w.Violate("C05", "refused", "request %d got status %d (%s)", r.ID, r.Status, r.Err)
			}
			if d := r.TDone - r.T0 - (g.lag1 - g.lag0) - w.slack(); d > 500*ms {
				w.Violate("C05", "slow-ack", "request %d was acknowledged only %d ms after it was sent, while other clients were slow", r.ID, d/ms)
			}
		})
		reqs = append(reqs, g)
	}
	age := w.plan.P["age"]
	w.broker.onPub = append(w.broker.onPub, func(p *Pub) {
		if p.Subject != "in" {
			return
		}
		for _, l := range splitLines(p.Data) {
			g := byLine[string(l)]
			if g == nil || !g.lines[string(l)] {
				continue
			}
			w.checks++
			g.lines[string(l)] = false
			g.left--
			if g.TDone > 0 {
				if d := p.T - g.TDone - (w.Lag() - g.lag1) - w.slack(); d > age+sec {
					w.Violate("C05", "slow-publish", "a line of request %d was published %d ms after its acknowledgement, the maximum age is %d ms", g.ID, (p.T-g.TDone)/ms, age/ms)
				}
			}
		}
	})
	w.onEnd = append(w.onEnd, func() {
		for _, g := range reqs {
			if g.TDone == 0 {
				w.Violate("C05", "no-ack", "request %d has not been answered after %d ms, while other clients are slow", g.ID, (w.Now()-g.T0)/ms)
				return
			}
			if g.left > 0 && w.Now()-g.TDone-(w.Lag()-g.lag1)-w.slack() > age+sec {
				w.Violate("C05", "not-published", "%d lines of request %d are still held %d ms after their acknowledgement", g.left, g.ID, (w.Now()-g.TDone)/ms)
				return
			}
		}
	})
}

// C03 for HTTP.

func genC03http(r *Rng, tier string) *Plan {
	p := &Plan{Family: "listener-http", Sched: genSched(r, schedOpt{maxPause: 5 * ms}), Net: NetCfg{LatMin: 20 * us, LatMax: 300 * us}}
	b := genBatchCfg(r)
	c := listenerConf(r, "listener_http", b, httpPort)
	p.Nodes = []NodeCfg{{Name: "listener1", Conf: c.String()}}
	p.P = map[string]int64{"age": b.age, "count": b.count, "size": b.size}
	t := 300 * ms
	keep := r.P(1, 2)
	for i, n := 0, r.R(1, 40); i < n; i++ {
		if r.P(1, 4) {
			t += r.D(0, 100*us)
		} else {
			t += r.LogD(us, r.PickD(ms, 100*ms, 3*sec))
		}
		prec := r.Pick("", "", "?precision=s", "?precision=ns")
		e := &Ev{T: t, K: "post", A: int64(r.U64() >> 20), S: prec}
		if keep {
			e.S2 = "keep"
		}
		k := r.R(1, 10)
		if r.P(1, 6) {
			k = int(r.LogD(10, 4000))
		}
		if r.P(1, 40) {
			k = r.R(10000, 30000)
		}
		var bb bytes.Buffer
		for j := 0; j < k; j++ {
			fmt.Fprintf(&bb, "r%d.%d,%s v=1i\n", i, j, strings.Repeat("t", r.N(60)))
		}
		e.Data = bb.Bytes()
		p.Events = append(p.Events, e)
	}
	if exact := b.size - 65536 + r.D(-1, 1); exact > 400 && r.P(1, 4) {
		// the size is just reached, or just not
		for i, e := range p.Events {
			n := int(r.D(100, exact-100))
			if i == len(p.Events)-1 || i == 3 || int64(n) > exact-200 {
				n = int(exact)
			}
			l := fmt.Sprintf("r%d.0,", i)
			e.Data = []byte(l + strings.Repeat("t", n-len(l)-6) + " v=1i\n")
			if exact -= int64(n); exact < 400 {
				break
			}
		}
	}
	if r.P(1, 4) {
		p.Events = append(p.Events, &Ev{T: r.D(300*ms, t), K: "stall", N: 0, A: r.LogD(ms, 3*sec)})
	}
	if r.P(1, 3) {
		p.Events = append(p.Events, &Ev{T: r.D(300*ms, t+b.age), K: "clock", N: 0, A: r.D(-400*sec, 400*sec)})
	}
	p.End = t + b.age + 5*sec
	return p
}

func setupC03http(w *World) {
	m := w.httpModel("C03")
	var run []*Pub // messages of one batch
	done := 0      // requests completely published
	lastBig := int64(-1)
	w.broker.onPub = append(w.broker.onPub, func(p *Pub) {
		if p.Inst == nil || p.Subject != "in" {
			return
		}
		if len(p.Data) > mega {
			w.Violate("C03", "too-big", "a message of %d bytes was published", len(p.Data))
		}
		run = append(run, p)
		// a message that may have been cut off before a line too many
		room := 70000
		if m.long >= 60000 {
			room += m.long
		}
		if m.cur == nil || m.cur.pos < len(m.cur.lines) {
			// the batch goes on in another message
			if len(p.Data) < mega-room {
				w.Violate("C03", "split", "a message of %d bytes ends inside a request", len(p.Data))
			}
			return
		}
		var items []batchItem
		off := 0
		for _, q := range m.order[done:] {
			t1, lag := q.TDone, q.lag
			if t1 == 0 {
				t1, lag = p.T, w.Lag()
			}
			t0 := q.TSent
			if t0 == 0 {
				t0 = q.T0
			}
			off += q.sz
			items = append(items, batchItem{t0, t1, lag, off, q.sz})
		}
		done = len(m.order)
		if len(items) == 0 {
			return
		}
		cont := lastBig >= 0 && p.T-lastBig < 100*ms
		if len(p.Data) >= mega-room {
			lastBig = p.T
			cont = cont || m.long >= 60000
		}
		t := run[0].T
		run = nil
		if !cont {
			checkBatch(w, "C03", items, t, w.Lag())
		}
	})
	w.onEnd = append(w.onEnd, func() {
		m.end2()
	})
}

// end2 looks for requests held too long.
func (m *httpModel) end2() {
	w := m.w
	age := w.plan.P["age"]
	for _, q := range m.reqs {
		if q.TDone > 0 && q.ack && q.pos < len(q.lines) {
			if w.Now()-q.TDone-(w.Lag()-q.lag)-w.slack() > age+sec {
				w.Violate("C03", "held", "request %d is still held %d ms after its acknowledgement, the maximum age is %d ms", q.ID, (w.Now()-q.TDone)/ms, age/ms)
				return
			}
		}
	}
}
