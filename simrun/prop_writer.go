package main

import (
	"encoding/base64"
	"fmt"
	"os"
	"strings"
)

func init() {
	register(&Prop{ID: "C09", Gen: genC09, Setup: setupC09})
	register(&Prop{ID: "C10", Gen: genC10, Setup: setupC10})
	register(&Prop{ID: "C11", Gen: genC11, Setup: setupC11})
}

// wmsg is a message published for writers.
type wmsg struct {
	n     int
	T     int64
	lag   int64
	to    []*Inst
	lines []*wline
	size  int // of what a writer holds of it
	nl    bool
}

type wline struct {
	msg   *wmsg
	idx   int
	s     string // as published
	skip  bool   // no rule matches it
	body  *wbody
	found bool // in a write being looked at, or looked at before
}

// wbody is the content of one or more write attempts.
type wbody struct {
	n        int
	s        string
	attempts []*Attempt
	lines    []*wline
	db       *DB
}

type writerModel struct {
	w       *World
	prop    string
	rules   []Rule
	want    map[string][]*wline
	unended []*wline // which end a message without a newline
	msgs    []*wmsg
	bodies  map[string]*wbody
	order   []*wbody
	onBody  func(b *wbody, a *Attempt, fresh bool)
	// many writers may get the same data
	perInst bool
	// attempts may fail before they reach the database
	lossy bool
	// what was a repetition and what was new could not be told apart
	vague bool
}

// acked reports whether the writer has certainly seen a write succeed (or
// fail, if it did) by now.
func (m *writerModel) acked(a *Attempt) bool {
	w := m.w
	// (it may have begun by waiting for a connection)
	return !a.Inst.dialing(a.S0-w.plan.P["timeout"]-w.slack(), a.S0, w.slack()) && a.Code != 0 && a.TEnd != 0 && a.TEnd-a.S0+w.slack()+(w.Lag()-a.Lag) < w.plan.P["timeout"]
}
func (b *wbody) prev() *Attempt { return b.attempts[len(b.attempts)-2] }

func (w *World) writerModel(prop string) *writerModel {
	m := &writerModel{w: w, prop: prop, rules: rulesFrom(w.plan.S["rules"]), want: map[string][]*wline{}, bodies: map[string]*wbody{}}
	w.on["msg"] = func(e *Ev) { m.send(e.S, e.L, e.S2) }
	for _, d := range w.dbs {
		d.onReq = append(d.onReq, m.onAttempt)
	}
	return m
}

func (m *writerModel) send(subj string, ls []*Line, opt string) *wmsg {
	w := m.w
	g := &wmsg{n: len(m.msgs), T: w.Now(), lag: w.Lag(), nl: true}
	var b []byte
	for i, l := range ls {
		raw := l.Bytes()
		if i == len(ls)-1 && opt == "nonl" {
			raw = trimNL(raw)
			g.nl = false
		}
		b = append(b, raw...)
		x := &wline{msg: g, idx: i, s: string(raw), skip: len(m.rules) > 0 && Route(m.rules, l) < 0}
		g.lines = append(g.lines, x)
		k := string(trimNL(raw))
		m.want[k] = append(m.want[k], x)
		if !g.nl {
			m.unended = append(m.unended, x)
		}
		if !x.skip {
			g.size += len(raw)
		}
	}
	m.msgs = append(m.msgs, g)
	p := w.broker.Publish(subj, b)
	g.to = p.To
	return g
}

// onAttempt checks one request that reached a database.
func (m *writerModel) onAttempt(a *Attempt) {
	w := m.w
	w.checks++
	S := w.plan.S
	if a.Method != "POST" || a.Path != "/write" {
		w.Violate(m.prop, "bad-request", "%s sent %s %s", a.Inst.name(), a.Method, a.RawURL)
		return
	}
	if db, ok := S["dbname"]; ok && (len(a.Query) != 1 || a.Query.Get("db") != db || len(a.Query["db"]) != 1) {
		w.Violate(m.prop, "wrong-db", "%s wrote to %s instead of database %q", a.Inst.name(), a.RawURL, db)
	}
	if host, ok := S["dbhost"]; ok && a.DB.name != host {
		w.Violate(m.prop, "wrong-server", "%s wrote to %s instead of %s", a.Inst.name(), a.DB.name, host)
	}
	if u, ok := S["user"]; ok {
		exp := ""
		if u != "" {
			exp = "Basic " + base64.StdEncoding.EncodeToString([]byte(u+":"+S["pass"]))
		}
		if a.Auth != exp {
			w.Violate(m.prop, "auth", "%s sent credentials %q instead of %q", a.Inst.name(), a.Auth, exp)
		}
	}
	if len(a.Body) == 0 {
		w.Violate(m.prop, "empty", "%s sent an empty write", a.Inst.name())
		return
	}
	key := string(a.Body)
	if m.perInst {
		key = a.Inst.name() + " " + key
	}
	b := m.bodies[key]
	if b != nil && w.plan.P["same"] > 0 && m.unwritten(a.Body) {
		if m.acked(b.attempts[len(b.attempts)-1]) {
			b = nil // other lines which say the same
		} else {
			m.vague = true
		}
	}
	if b != nil {
		b.attempts = append(b.attempts, a)
		if m.onBody != nil {
			m.onBody(b, a, false)
		}
		return
	}
	b = &wbody{n: len(m.order), s: string(a.Body), attempts: []*Attempt{a}, db: a.DB}
	m.bodies[key] = b
	m.order = append(m.order, b)
	prev := map[*wmsg]int{}
	var ls []*wline
	for _, l := range splitLines(a.Body) {
		xs := m.find(string(trimNL(l)))
		if xs == nil {
			w.Violate(m.prop, "alien-line", "%s wrote a line that nobody published: %s", a.Inst.name(), short(l))
			continue
		}
		if len(xs) > 1 && m.prop == "C09" {
			w.Violate(m.prop, "joined", "the last line of a message without a final newline was joined with the line after it: %s", short(l))
		}
		ls = append(ls, xs...)
		for _, x := range xs {
			x.found = true
		}
	}
	var last *wmsg
	for _, x := range ls {
		l := []byte(x.s)
		if x.skip {
			w.Violate(m.prop, "unmatched", "%s wrote a line that none of its rules matches: %s", a.Inst.name(), short(l))
		}
		if x.body != nil && !m.perInst {
			w.Violate(m.prop, "duplicate", "line %s was written again in a different batch", short(l))
			continue
		}
		// (which of several equal messages it is from, nobody can tell)
		if !m.perInst && !m.vague && w.plan.P["again"] == 0 {
			i, ok := prev[x.msg]
			if ok && x.idx < i {
				w.Violate(m.prop, "reordered", "line %s of a message was written after one that follows it", short(l))
			}
			if ok && last != x.msg {
				w.Violate(m.prop, "interleaved", "line %s was written apart from the other lines of its message", short(l))
			}
			for _, y := range x.msg.lines[:x.idx] {
				if m.lossy {
					break
				}
				if y.body == nil && !y.skip {
					w.Violate(m.prop, "reordered", "line %s was written before line %s of the same message", short(l), short([]byte(y.s)))
					break
				}
			}
			last = x.msg
			prev[x.msg] = x.idx
		}
		x.body = b
		b.lines = append(b.lines, x)
	}
	if m.onBody != nil {
		m.onBody(b, a, true)
	}
}

// unwritten reports whether there are lines like these that have not been
// written yet.
func (m *writerModel) unwritten(body []byte) bool {
	n := map[string]int{}
	for _, l := range splitLines(body) {
		n[string(trimNL(l))]++
	}
	for l, k := range n {
		for _, x := range m.want[l] {
			if x.body == nil {
				k--
			}
		}
		if k > 0 {
			return false
		}
	}
	return true
}

// find returns the lines which make up l. That is more than one only where
// messages without a final newline have been joined with the ones after them.
func (m *writerModel) find(l string) []*wline {
	var x *wline
	for _, y := range m.want[l] {
		if x = y; y.body == nil && !y.found || m.perInst {
			break
		}
	}
	if x != nil {
		return []*wline{x}
	}
	for _, u := range m.unended {
		if n := len(u.s); n < len(l) && l[:n] == u.s && (u.body == nil || m.perInst) {
			if xs := m.find(l[n:]); xs != nil {
				return append([]*wline{u}, xs...)
			}
		}
	}
	return nil
}

func (m *writerModel) lost(ok func(x *wline) bool) {
	if m.vague {
		return
	}
	for _, g := range m.msgs {
		for _, x := range g.lines {
			if x.body == nil && !x.skip && (ok == nil || !ok(x)) {
				m.w.Violate(m.prop, "lost", "line %s published at %.3f s (to %v) was never written", short([]byte(x.s)), float64(g.T)/1e9, names(g.to))
				return
			}
		}
	}
}

type writerCfg struct {
	workers, count, size, age    int64
	retry, interval, ttl, timout int64
}

func (c writerCfg) put(p *Plan, k *conf) {
	k.i("workers", c.workers).i("batch_max_count", c.count).raw(fmt.Sprintf("batch_max_size = \"%dB\"\n", c.size)).d("batch_max_age", c.age)
	k.i("writer_retry_batches", c.retry).d("writer_retry_interval", c.interval).d("writer_retry_timeout", c.ttl).d("write_timeout", c.timout)
	p.P["workers"], p.P["count"], p.P["size"], p.P["age"] = c.workers, c.count, c.size, c.age
	p.P["retry"], p.P["interval"], p.P["ttl"], p.P["timeout"] = c.retry, c.interval, c.ttl, c.timout
}

func genWriterCfg(r *Rng) writerCfg {
	return writerCfg{
		workers: r.PickD(1, 1, 2, 4, 8), count: r.PickD(1, 2, 3, 10, 30), size: r.PickD(10<<20, 10<<20, 1<<20, 300, 1000, 5000, 100),
		age: r.PickD(50*ms, sec, 3*sec, 300*sec), retry: r.PickD(0, 1, 1, 2, 5), interval: r.PickD(100*ms, sec, 10*sec),
		ttl: r.PickD(sec, 10*sec, 60*sec), timout: r.PickD(sec, 5*sec, 30*sec),
	}
}

func genWriterRules(r *Rng, n int) []Rule {
	var rs []Rule
	for _, ru := range genRules(r, n) {
		if ru.Type == "tags" {
			continue // writers do not know them
		}
		ru.Subject = ""
		rs = append(rs, ru)
	}
	return rs
}

// writerPlan starts a plan with writers.
func writerPlan(r *Rng, family string, n int, o schedOpt, wc writerCfg, subjects []string, extra func(c *conf)) *Plan {
	p := &Plan{Family: family, Sched: genSched(r, o), Net: genNet(r), S: map[string]string{}, P: map[string]int64{}, DBs: 1}
	for i := 1; i <= n; i++ {
		c := newConf("writer", fmt.Sprintf("w%d", i)).subjects(subjects...).s("influxdb_address", "influx1").s("influxdb_dbname", "db0")
		wc.put(p, c)
		if r.P(1, 8) {
			c.raw("debug = true\n")
		}
		if extra != nil {
			extra(c)
		}
		p.Nodes = append(p.Nodes, NodeCfg{Name: fmt.Sprintf("w%d", i), Conf: c.String()})
	}
	return p
}

// genMsgLines makes the lines of a message, of less than limit bytes each.
func genMsgLines(r *Rng, id *int, max int, limit int64) (ls []*Line) {
	for k, n := 0, r.R(1, max); k < n; k++ {
		*id++
		l := genLine(r, *id, "")
		if r.P(1, 40) {
			l.Fields += fmt.Sprintf(",s=\"%s\"", strings.Repeat("x", int(r.LogD(50, 3000))))
		}
		if int64(len(l.Bytes())) >= limit {
			l = &Line{Meas: measNames[r.N(2)], Fields: fmt.Sprintf("id=%di", *id)}
		}
		ls = append(ls, l)
	}
	return
}

func genC09(r *Rng, tier string) *Plan {
	wc := genWriterCfg(r)
	if wc.age > 3*sec {
		wc.age = 3 * sec
	}
	var subjects []string
	for i, n := 0, r.R(1, 3); i < n; i++ {
		subjects = append(subjects, fmt.Sprintf("s%d", i))
	}
	var rules []Rule
	if r.P(1, 2) {
		rules = genWriterRules(r, r.R(1, 4))
	}
	db := r.Pick("db0", "db0", "metrics", "my db", "a&b", "a+b", "50%", "é", "x#y", "q?db=other", "a/b", "a;b")
	p := writerPlan(r, "writer", 1, schedOpt{maxPause: 20 * ms}, wc, subjects, nil)
	c := newConf("writer", "w1").subjects(subjects...).s("influxdb_address", "influx1").s("influxdb_dbname", db)
	wc.put(p, c)
	for _, ru := range rules {
		c.rule(ru)
	}
	p.Nodes[0].Conf = c.String()
	p.DBs = 2
	p.S["rules"], p.S["dbname"], p.S["dbhost"] = rulesJSON(rules), db, "influx1"
	p.S["user"] = ""
	if r.P(1, 2) {
		p.S["user"] = r.Pick("user", "me@x", "ünï")
		p.S["pass"] = r.Pick("pass", "p:w", "s e c", "%41")
	}
	t, id := 500*ms, 0
	if r.P(1, 5) {
		p.Events = append(p.Events, &Ev{T: t - 100*ms, K: "db", S: "influx1", S2: r.Pick("200", "202", "mix:ok,200")})
	}
	nonl := wc.size >= 1<<20 && r.P(1, 5)
	same := !nonl && r.P(1, 5) // lines and messages may repeat
	again := same && r.P(1, 2)
	if same {
		p.P["same"] = 1
	}
	if again {
		p.P["again"] = 1
	}
	for i, n := 0, r.R(1, 40); i < n; i++ {
		t += r.LogD(us, 300*ms)
		e := &Ev{T: t, K: "msg", S: subjects[r.N(len(subjects))], L: genMsgLines(r, &id, 6, wc.size)}
		if r.P(1, 1500) && wc.size >= 5000 {
			e.L = genMsgLines(r, &id, 6000, wc.size)
		}
		if wc.size >= 1<<20 && r.P(1, 80) {
			// as much as a message can hold
			for k, n := 0, r.R(2, 12); k < n; k++ {
				id++
				l := genLine(r, id, "")
				l.Fields += fmt.Sprintf(",s=\"%s\"", strings.Repeat("x", int(r.LogD(5000, 80000))))
				e.L = append(e.L, l)
			}
		}
		if r.P(1, 12) {
			e.S = "other"
		}
		if nonl && r.P(1, 5) {
			e.S2 = "nonl"
		}
		p.Events = append(p.Events, e)
		if same {
			for k := 1; k < len(e.L) && !again; k++ {
				if r.P(1, 4) {
					e.L[k] = e.L[k-1]
				}
			}
			for again && r.P(1, 2) {
				// the same message again
				t += r.LogD(us, 300*ms)
				d := *e
				d.T = t
				p.Events = append(p.Events, &d)
			}
		}
		if r.P(1, 30) {
			p.Events = append(p.Events, &Ev{T: t, K: "pub", S: subjects[0]}) // an empty message
		}
		if r.P(1, 30) {
			p.Events = append(p.Events, &Ev{T: t, K: "stall", N: 0, A: r.LogD(ms, wc.timout/2)})
		}
	}
	p.S["subjects"] = strings.Join(subjects, " ")
	p.End = t + wc.age + 10*sec
	return p
}

func setupC09(w *World) {
	os.Setenv("INFLUXDB_USER", w.plan.S["user"])
	os.Setenv("INFLUXDB_PASS", w.plan.S["pass"])
	m := w.writerModel("C09")
	w.on["msg"] = func(e *Ev) {
		if e.S == "other" {
			// of no interest to the writer: must not show up anywhere
			var b []byte
			for _, l := range e.L {
				b = append(b, l.Bytes()...)
			}
			w.broker.Publish(e.S, b)
			return
		}
		m.send(e.S, e.L, e.S2)
	}
	m.onBody = func(b *wbody, a *Attempt, fresh bool) {
		if !fresh && m.acked(b.prev()) {
			w.Violate("C09", "duplicate", "a batch of %d bytes was written again although the first write succeeded", len(b.s))
		}
		if a.Body[len(a.Body)-1] != '\n' && len(b.lines) > 0 {
			x := b.lines[len(b.lines)-1]
			if x.msg.nl || x.idx != len(x.msg.lines)-1 {
				w.Violate("C09", "cut-line", "a write ends inside a line: %s", short(a.Body))
			}
		}
	}
	w.onEnd = append(w.onEnd, func() { m.lost(nil) })
}

// C11: limits.

// genC11stream is about how batches are split: lines of any length, and
// messages which end anywhere.
func genC11stream(r *Rng) *Plan {
	wc := genWriterCfg(r)
	wc.workers, wc.timout, wc.retry = 1, 30*sec, 0
	wc.size = r.PickD(1, 7, 50, 100, 300, 1000, 5000)
	wc.age = r.PickD(50*ms, sec)
	p := writerPlan(r, "writer-stream", 1, schedOpt{maxPause: 5 * ms}, wc, []string{"s0"}, nil)
	p.P["stream"] = 1
	t := 500 * ms
	gap := r.PickD(100*us, 10*ms, 300*ms)
	max := int(wc.size * r.PickD(1, 2, 4))
	for i, n := 0, r.R(1, 30); i < n; i++ {
		t += r.LogD(us, gap)
		var b []byte
		for j, k := 0, r.R(1, 5); j < k; j++ {
			if n := r.N(max + 1); r.P(1, 4) {
				n = int(wc.size) + r.R(-2, 2)
				b = append(b, strings.Repeat("y", max2(n, 0))...)
			} else {
				b = append(b, fmt.Sprintf("m%d,l=%d ", i, j)[:min2(n, 5)]...)
				b = append(b, strings.Repeat("x", max2(n-6, 0))...)
			}
			if j < k-1 || !r.P(1, 10) {
				b = append(b, '\n')
			}
		}
		p.Events = append(p.Events, &Ev{T: t, K: "raw", S: "s0", Data: b})
		if r.P(1, 20) {
			p.Events = append(p.Events, &Ev{T: t, K: "db", S: "influx1", S2: r.Pick("ok", "ok", "slow:200", "drip:100")})
		}
	}
	p.End = t + wc.age + 10*sec
	return p
}

func setupC11stream(w *World) {
	P := w.plan.P
	var want []byte
	ends := map[int]bool{0: true} // where messages end
	pos := 0
	w.on["raw"] = func(e *Ev) {
		want = append(want, e.Data...)
		ends[len(want)] = true
		w.broker.Publish(e.S, e.Data)
	}
	w.dbs[0].onReq = append(w.dbs[0].onReq, func(a *Attempt) {
		w.checks++
		n := len(a.Body)
		if n == 0 {
			w.Violate("C11", "empty", "an empty write was sent")
			return
		}
		if int64(n) > P["size"] {
			w.Violate("C11", "too-big", "a write of %d bytes was sent, the limit is %d", n, P["size"])
		}
		if pos+n > len(want) || string(want[pos:pos+n]) != string(a.Body) {
			w.Violate("C11", "stream", "the writes so far do not add up to the messages so far: after %d bytes %s was written", pos, short(a.Body))
			return
		}
		pos += n
		if a.Body[n-1] != '\n' && !ends[pos] && strings.Contains(string(a.Body), "\n") {
			w.Violate("C11", "cut-line", "a write ends inside a line although it could end before it: %s", short(a.Body))
		}
	})
	w.onEnd = append(w.onEnd, func() {
		if pos != len(want) && w.dbs[0].mode == "ok" {
			w.Violate("C11", "stream-end", "%d bytes of messages were published but only %d were written", len(want), pos)
		}
	})
}

func genC11(r *Rng, tier string) *Plan {
	if r.P(1, 6) {
		return genC11stream(r)
	}
	wc := genWriterCfg(r)
	wc.workers = r.PickD(1, 1, 1, 2, 4)
	wc.timout = 30 * sec
	p := writerPlan(r, "writer", 1, schedOpt{maxPause: 5 * ms}, wc, []string{"s0"}, nil)
	var rules []Rule
	if r.P(1, 3) {
		rules = genWriterRules(r, r.R(1, 4))
		c := &conf{}
		c.raw(p.Nodes[0].Conf)
		for _, ru := range rules {
			c.rule(ru)
		}
		p.Nodes[0].Conf = c.String()
	}
	p.S["rules"] = rulesJSON(rules)
	p.Net = NetCfg{LatMin: 20 * us, LatMax: 300 * us}
	failing := r.P(1, 4)
	t, id := 500*ms, 0
	gap := r.PickD(100*us, 10*ms, 300*ms, 2*sec)
	acc := int64(0)
	for i, n := 0, r.R(1, 50); i < n; i++ {
		t += r.LogD(us, gap)
		e := &Ev{T: t, K: "msg", S: "s0", L: genMsgLines(r, &id, r.PickI(1, 3, 12), wc.size)}
		if r.P(1, 10) && wc.size >= 1<<20 {
			e.S2 = "nonl"
		}
		// now and then, a message fills a batch exactly
		z := int64(0)
		for _, l := range e.L {
			z += int64(len(l.Bytes()))
		}
		if room := wc.size - acc - z; len(rules) == 0 && wc.size <= 10000 && room >= 5 && r.P(1, 3) {
			l := e.L[len(e.L)-1]
			l.Fields += ",s=\"" + strings.Repeat("x", int(room)-5) + "\""
			z += room
		}
		if acc += z; acc >= wc.size || r.P(1, int(wc.count)) {
			acc = 0
		}
		p.Events = append(p.Events, e)
		if r.P(1, 20) {
			p.Events = append(p.Events, &Ev{T: t, K: "db", S: "influx1", S2: r.Pick("ok", "ok", "slow:200", "slow:2500", "drip:100")})
		}
		if failing && r.P(1, 5) {
			p.Events = append(p.Events, &Ev{T: t, K: "db", S: "influx1", S2: r.Pick("ok", "503", "500", "404", "mix:ok,503", "mix:503,503,400", "slow503:200")})
		}
		if r.P(1, 40) {
			p.Events = append(p.Events, &Ev{T: t, K: "stall", N: 0, A: r.LogD(ms, 3*sec)})
		}
		if r.P(1, 30) {
			p.Events = append(p.Events, &Ev{T: t, K: "clock", N: 0, A: r.D(-400*sec, 400*sec)})
		}
	}
	p.End = t + 10*sec
	if wc.age <= 3*sec {
		p.End += wc.age
	}
	return p
}

// busyTime is the time an instance's writes have taken, in all.
type busyTime struct {
	w    *World
	done int64
	open map[*Attempt]int64
}

func (w *World) busyTime(d *DB) *busyTime {
	b := &busyTime{w: w, open: map[*Attempt]int64{}}
	d.onReq = append(d.onReq, func(a *Attempt) { b.open[a] = a.S0 })
	end := func(a *Attempt) {
		if s, ok := b.open[a]; ok {
			b.done += w.Now() - s
			delete(b.open, a)
		}
	}
	d.onDone = append(d.onDone, end)
	d.gone = append(d.gone, end)
	return b
}

func (b *busyTime) total() int64 {
	n := b.done
	for _, s := range b.open {
		n += b.w.Now() - s
	}
	return n
}

func setupC11(w *World) {
	if w.plan.P["stream"] != 0 {
		setupC11stream(w)
		return
	}
	m := w.writerModel("C11")
	P := w.plan.P
	busy := w.busyTime(w.dbs[0])
	busyAt := map[*wmsg]int64{}
	w.on["msg"] = func(e *Ev) {
		bt := busy.total()
		g := m.send(e.S, e.L, e.S2)
		busyAt[g] = bt
	}
	type sent struct {
		b     *wbody
		a     *Attempt
		msgs  []*wmsg
		part  bool // begins or ends inside a message
		held  int64
		early string
	}
	byConn := map[*Inst][]*sent{}
	m.onBody = func(b *wbody, a *Attempt, fresh bool) {
		if !fresh {
			if m.acked(b.prev()) && b.prev().Code < 300 {
				w.Violate("C11", "duplicate", "a batch was written twice")
			}
			return
		}
		if len(b.lines) == 0 {
			return
		}
		size, count, age := P["size"], P["count"], P["age"]
		if int64(len(a.Body)) > size {
			w.Violate("C11", "too-big", "a write of %d bytes was sent, the limit is %d", len(a.Body), size)
		}
		if a.Body[len(a.Body)-1] != '\n' && len(b.lines) > 0 {
			x := b.lines[len(b.lines)-1]
			if x.msg.nl || x.idx != len(x.msg.lines)-1 {
				w.Violate("C11", "cut-line", "a write ends inside a line: %s", short(a.Body))
			}
		}
		s := &sent{b: b, a: a}
		var held int64
		for _, x := range b.lines {
			if len(s.msgs) == 0 || s.msgs[len(s.msgs)-1] != x.msg {
				s.msgs = append(s.msgs, x.msg)
				held += int64(x.msg.size)
				if !x.msg.nl {
					held++
				}
			}
		}
		s.held = held
		for _, x := range s.msgs[0].lines {
			if !x.skip && x.body != b {
				s.part = true
			}
		}
		lm := s.msgs[len(s.msgs)-1]
		for _, x := range lm.lines {
			if !x.skip && x.body != b {
				s.part = true
			}
		}
		first := s.msgs[0]
		if !s.part && int64(len(s.msgs)) < count && held < size && a.S1-first.T < age {
			s.early = fmt.Sprintf("%d messages and %d bytes were written %d ms after the first of them was published (limits: %d, %d bytes, %d ms)",
				len(s.msgs), held, (a.S1-first.T)/ms, count, size, age/ms)
		}
		byConn[a.Inst] = append(byConn[a.Inst], s)
		// lateness
		busyNow := busy.total() - busyAt[first]
		late := a.S0 - first.T - (w.Lag() - first.lag) - w.slack() - busyNow
		if late > age+sec {
			w.Violate("C11", "late", "data was held for %d ms (writes took %d ms meanwhile), the maximum age is %d ms", (a.S0-first.T)/ms, busyNow/ms, age/ms)
		}
		if P["workers"] == 1 {
			k := int64(len(s.msgs))
			if k > count && !s.part {
				w.Violate("C11", "count", "%d messages were written at once, the limit is %d", k, count)
			}
			if k >= count || held >= size {
				busyNow := busy.total() - busyAt[lm]
				if late := a.S0 - lm.T - (w.Lag() - lm.lag) - w.slack() - busyNow; late > 100*ms {
					w.Violate("C11", "late-full", "a full batch (%d messages, %d bytes) was held for another %d ms", k, held, (a.S0-lm.T)/ms)
				}
			}
		}
	}
	w.onEnd = append(w.onEnd, func() {
		for _, ss := range byConn {
			for i, s := range ss {
				if s.early == "" {
					continue
				}
				// A batch that was too big is sent in pieces, which may end
				// where messages end: then the neighbouring pieces explain it.
				ok := false
				for j, o := range ss {
					if j == i || o.a.S1 < s.a.S0-60*sec || o.a.S0 > s.a.T+60*sec {
						continue
					}
					if j < i && int64(len(o.msgs))+int64(len(s.msgs)) >= 2 && o.held+s.held >= P["size"] {
						ok = true
					}
					if j > i && s.held+o.held >= P["size"] {
						ok = true
					}
				}
				if !ok {
					w.Violate("C11", "early", "%s", s.early)
					return
				}
			}
		}
		for _, g := range m.msgs {
			for _, x := range g.lines {
				if x.body == nil && !x.skip {
					busyNow := busy.total() - busyAt[g]
					if w.Now()-g.T-(w.Lag()-g.lag)-w.slack()-busyNow > P["age"]+sec {
						w.Violate("C11", "held", "a message is still held %d ms after it was published, the maximum age is %d ms", (w.Now()-g.T)/ms, P["age"]/ms)
						return
					}
				}
			}
		}
	})
}

// C22 with writers that share a queue group.

func genC22writers(r *Rng, tier string) *Plan {
	wc := genWriterCfg(r)
	wc.age = r.PickD(50*ms, sec)
	n := r.R(2, 4)
	subjects := []string{"s0"}
	for r.P(1, 3) {
		subjects = append(subjects, fmt.Sprintf("s%d", len(subjects)))
	}
	p := writerPlan(r, "writer-group", n, schedOpt{maxPause: 20 * ms}, wc, subjects, func(c *conf) { c.s("queue_group", "g") })
	for i := range p.Nodes {
		p.Nodes[i].Supervise = true
	}
	api := map[int]bool{}
	for i := range p.Nodes {
		if r.P(1, 3) {
			p.Nodes[i].Kind = "api"
			api[i] = true
		}
	}
	t, id := 500*ms, 0
	for i, k := 0, r.R(10, 80); i < k; i++ {
		t += r.LogD(us, 300*ms)
		p.Events = append(p.Events, &Ev{T: t, K: "msg", S: subjects[r.N(len(subjects))], L: genMsgLines(r, &id, 4, wc.size)})
	}
	for i, k := 0, r.N(5); i < k; i++ {
		n := r.N(n)
		at := r.D(500*ms, t)
		switch r.N(4) {
		case 0, 1:
			kind := "kill"
			if api[n] {
				kind = "stop"
			}
			p.Events = append(p.Events, &Ev{T: at, K: kind, N: n}, &Ev{T: at + r.LogD(ms, 4*sec), K: "start", N: n})
		case 2:
			p.Events = append(p.Events, &Ev{T: at, K: "stall", N: n, A: r.LogD(ms, 800*ms)})
		case 3:
			p.Events = append(p.Events, &Ev{T: at, K: "cut", N: n, S: "nats", A: r.LogD(ms, 5*sec)})
		}
	}
	p.End = t + 15*sec
	return p
}

func setupC22writers(w *World) {
	m := w.writerModel("C22")
	m.onBody = func(b *wbody, a *Attempt, fresh bool) {
		if !fresh && m.acked(b.prev()) {
			w.Violate("C22", "duplicate", "a batch was written again by %s", a.Inst.name())
		}
		for _, x := range b.lines {
			ok := false
			for _, in := range x.msg.to {
				ok = ok || in == a.Inst
			}
			if !ok {
				w.Violate("C22", "stolen", "%s wrote a line that was handed to %v", a.Inst.name(), names(x.msg.to))
			}
		}
	}
	w.on["msg"] = func(e *Ev) {
		g := m.send(e.S, e.L, e.S2)
		if len(g.to) > 1 {
			w.Violate("C22", "shared", "a message was handed to %d writers: %v", len(g.to), names(g.to))
		}
	}
	w.onEnd = append(w.onEnd, func() {
		m.lost(func(x *wline) bool {
			if len(x.msg.to) == 0 {
				return true
			}
			in := x.msg.to[0]
			return in.dead || in.apiStop0 != 0
		})
	})
}

// C10: retries.

// genC10same has batches with the same content, which must be retried all the
// same: each of them is to be written.
func genC10same(r *Rng) *Plan {
	wc := writerCfg{workers: 1, count: 1, size: 10 << 20, age: sec, retry: 20, interval: r.PickD(100*ms, 500*ms, 2*sec), ttl: 600 * sec, timout: 5 * sec}
	p := writerPlan(r, "writer-retry-same", 1, schedOpt{maxPause: 5 * ms}, wc, []string{"s0"}, nil)
	p.Net = NetCfg{LatMin: 20 * us, LatMax: 300 * us}
	t := 500 * ms
	p.Events = append(p.Events, &Ev{T: t, K: "db", S: "influx1", S2: r.Pick("503", "500", "mix:ok,503", "504")})
	for i, n := 0, r.R(2, 12); i < n; i++ {
		t += r.LogD(us, r.PickD(10*ms, sec))
		p.Events = append(p.Events, &Ev{T: t, K: "raw", S: "s0", Data: []byte(r.Pick("a v=1i\n", "a v=1i\n", "b v=2i\n"))})
	}
	t += r.LogD(ms, 10*sec)
	p.Events = append(p.Events, &Ev{T: t, K: "db", S: "influx1", S2: "ok"})
	p.End = t + 15*wc.interval + 20*sec
	return p
}

func setupC10same(w *World) {
	sent, done := map[string]int{}, map[string]int{}
	w.on["raw"] = func(e *Ev) {
		sent[string(e.Data)]++
		w.broker.Publish(e.S, e.Data)
	}
	w.dbs[0].onDone = append(w.dbs[0].onDone, func(a *Attempt) {
		w.checks++
		if a.Code/100 != 2 {
			return
		}
		k := string(a.Body)
		if done[k]++; done[k] > sent[k] {
			w.Violate("C10", "again", "batch %q was written %d times, it had been sent %d times", k, done[k], sent[k])
		}
	})
	w.onEnd = append(w.onEnd, func() {
		for _, k := range []string{"a v=1i\n", "b v=2i\n"} {
			if done[k] < sent[k] {
				w.Violate("C10", "lost", "batch %q was written %d times, it had been sent %d times", k, done[k], sent[k])
			}
		}
	})
}

func genC10(r *Rng, tier string) *Plan {
	if r.P(1, 15) {
		return genC10same(r)
	}
	wc := genWriterCfg(r)
	wc.count = r.PickD(1, 1, 2, 3)
	wc.age = r.PickD(50*ms, sec)
	wc.workers = r.PickD(1, 1, 2, 3)
	wc.size = r.PickD(10<<20, 10<<20, 300)
	wc.retry = r.PickD(0, 1, 2, 3, 5, 20)
	wc.timout = r.PickD(sec, 5*sec, 300*ms)
	steady := r.P(1, 6) // new failures keep coming
	if steady {
		wc.workers, wc.count, wc.size, wc.retry = 1, 1, 10<<20, 20
		wc.interval, wc.ttl, wc.timout = r.PickD(500*ms, sec, 2*sec), 60*sec, r.PickD(100*ms, 300*ms)
	}
	p := writerPlan(r, "writer-retry", 1, schedOpt{maxPause: 5 * ms}, wc, []string{"s0"}, func(c *conf) {
		if r.P(1, 3) && !strings.Contains(c.String(), "debug") {
			c.raw("debug = true\n")
		}
	})
	p.Net = NetCfg{LatMin: 20 * us, LatMax: 300 * us}
	modes := []string{"ok", "503", "500", "400", "404", "reset-before", "reset-after", "close", "silent", "silent-after", "slow:100",
		"garbage", "part503", "mix:ok,503", "mix:503,503,400", "mix:ok,reset-after", "mix:503,silent", "slow503:200", "301", "304", "429", fmt.Sprint(400 + r.N(32)), fmt.Sprint(500 + r.N(12)), fmt.Sprintf("mix:503,503,%d", r.PickI(401, 403, 405, 408, 409, 413, 422, 451)), "200", "mix:200,503,204",
		fmt.Sprintf("slow:%d", wc.timout/ms*9/10), fmt.Sprintf("slow:%d", wc.timout/ms+50), fmt.Sprintf("drip:%d", wc.timout/ms*2)}
	if r.P(1, 2) {
		modes = append(modes, "refuse", "drop", "stall")
		p.P["unseen"] = 1
	}
	t, id := 500*ms, 0
	gap := r.PickD(10*ms, 300*ms, 2*sec)
	if steady {
		p.Events = append(p.Events, &Ev{T: t, K: "db", S: "influx1", S2: r.Pick("503", "500", "reset-before", "close", "mix:503,503,ok")})
	}
	n := r.R(1, 30)
	if steady {
		n += 8
	}
	for i := 0; i < n; i++ {
		if steady {
			t += r.D(wc.interval/5, wc.interval*9/10)
		} else {
			t += r.LogD(us, gap)
		}
		p.Events = append(p.Events, &Ev{T: t, K: "msg", S: "s0", L: genMsgLines(r, &id, 3, wc.size)})
		if !steady && r.P(1, 3) {
			p.Events = append(p.Events, &Ev{T: t + r.D(-20*ms, 20*ms), K: "db", S: "influx1", S2: modes[r.N(len(modes))]})
		}
	}
	if r.P(1, 2) {
		t += r.LogD(10*ms, wc.ttl)
		p.Events = append(p.Events, &Ev{T: t, K: "db", S: "influx1", S2: "ok"})
	} else {
		p.P["unhealed"] = 1
	}
	p.End = t + wc.ttl + (wc.retry+1)*(wc.interval+wc.timout)/2 + 10*sec + int64(len(p.Events))*wc.timout
	return p
}

// retryState follows one batch through its attempts.
type retryState struct {
	added, lag int64 // when its first attempt failed, at the latest
	fail0      int64 // and at the earliest
	over       string
	overT      int64
}

func setupC10(w *World) {
	if w.plan.Family == "writer-retry-same" {
		setupC10same(w)
		return
	}
	m := w.writerModel("C10")
	m.lossy = true
	P := w.plan.P
	cluster := newClusters()
	st := map[*wbody]*retryState{}
	byAttempt := map[*Attempt]*wbody{}
	var retries []*Attempt
	// failed notes the end of an attempt, from the writer's point of view
	ended := func(a *Attempt) {
		b := byAttempt[a]
		if b == nil {
			return
		}
		s := st[b]
		t := a.TEnd
		if t == 0 {
			t = a.TClient
		}
		first := b.attempts[0] == a
		switch {
		case a.Code >= 200 && a.Code < 300:
			if m.acked(a) {
				s.over, s.overT = "it had succeeded", t
			}
		case a.Code >= 400 && a.Code < 500 && !first:
			if m.acked(a) {
				s.over, s.overT = "it had been refused for good", t
			}
		}
		if first && s.added == 0 {
			s.added, s.fail0 = t, a.S0
			s.lag = w.Lag()
		}
	}
	w.dbs[0].onDone = append(w.dbs[0].onDone, ended)
	w.dbs[0].gone = append(w.dbs[0].gone, ended)
	m.onBody = func(b *wbody, a *Attempt, fresh bool) {
		byAttempt[a] = b
		cluster.join(fmt.Sprint("b", b.n), fmt.Sprint("c", a.Conn))
		// no attempt outlives the timeout
		w.SettleAfter(P["timeout"], func() {
			if a.TEnd == 0 && a.TClient == 0 && !a.Inst.dead {
				w.Violate("C10", "timeout", "an attempt is still going on %d ms after it was started, the write timeout is %d ms", (w.Now()-a.S1)/ms, P["timeout"]/ms)
			}
		})
		if fresh {
			st[b] = &retryState{}
			return
		}
		s := st[b]
		if P["retry"] == 0 {
			w.Violate("C10", "disabled", "a batch was sent again although retries are disabled")
			return
		}
		if s.over != "" && a.S0 > s.overT && !w.dbs[0].resetIn(s.overT, s.overT+w.slack()+sec) {
			w.Violate("C10", "again", "a batch was sent again %d ms after %s", (a.S0-s.overT)/ms, s.over)
		}
		p := b.prev()
		if p.Outcome != "part503" && p.TEnd == 0 && p.TClient == 0 && a.S0 > p.S1 && a.S1-p.S0 < P["timeout"] {
			w.Violate("C10", "overlap", "a batch was sent again while an attempt of it was still going on")
		}
		if s.added != 0 {
			if late := a.S0 - s.added - (w.Lag() - s.lag) - w.slack(); late > P["ttl"]+P["timeout"] {
				// (it is only queued when the retry attempt of the moment is over)
				w.Violate("C10", "expired", "a batch was sent again %d ms after it failed first, its retry timeout is %d ms", (a.S0-s.added)/ms, P["ttl"]/ms)
			}
		}
		// displaced by newer ones
		if P["workers"] == 1 && s.added != 0 && P["unseen"] == 0 {
			n := int64(0)
			margin := w.slack() + w.Lag() - a.Lag
			// a batch joins the queue once the retry of the moment is over
			join := func(at int64) int64 {
				joined := at
				for _, ob := range m.order {
					for i, x := range ob.attempts {
						if i == 0 || x == a || x.S0 > at+margin {
							continue
						}
						end := x.TEnd
						if x.TClient > end {
							end = x.TClient
						}
						if end == 0 {
							end = a.S0
						}
						if end > joined {
							joined = end
						}
					}
				}
				return joined
			}
			// which also happens later if it is held up
			since := join(s.added + w.Lag() - s.lag)
			for _, o := range m.order {
				so := st[o]
				if o == b || so == nil || so.added == 0 || so.fail0 <= since+margin || join(so.added)+margin+(w.Lag()-so.lag) >= a.S0 {
					continue
				}
				// unresolved: no attempt since that may have ended it
				open := true
				for i, x := range o.attempts {
					if x.Code >= 200 && x.Code < 300 || i > 0 && (x.Code >= 400 && x.Code < 500 || x.TEnd == 0 && x.TClient == 0) || x.TEnd == 0 && x.TClient == 0 {
						open = false
					}
				}
				if open {
					n++
				}
			}
			if n >= P["retry"] {
				w.Violate("C10", "displaced", "a batch was sent again although %d newer ones wait for a retry, the limit is %d", n, P["retry"])
			}
		}
		retries = append(retries, a)
		for i := len(retries) - 2; i >= 0; i-- {
			o := retries[i]
			if !cluster.same(fmt.Sprint("c", o.Conn), fmt.Sprint("c", a.Conn)) && P["workers"] != 1 {
				continue
			}
			if a.S1-o.S0 < P["interval"] {
				w.Violate("C10", "too-often", "a retry was made %d ms after the one before, the retry interval is %d ms", (a.S1-o.S0)/ms, P["interval"]/ms)
			}
			break
		}
	}
	// A batch that failed is attempted again within the time that the others
	// in the queue may take.
	check := func(a *Attempt) {
		b := byAttempt[a]
		if b == nil || P["retry"] == 0 || P["unseen"] != 0 {
			return
		}
		s := st[b]
		i := len(b.attempts) - 1
		if b.attempts[i] != a || a.Code >= 200 && a.Code < 300 || i > 0 && a.Code >= 400 && a.Code < 500 || strings.HasPrefix(a.Outcome, "slow") || strings.HasPrefix(a.Outcome, "drip") {
			return
		}
		if a.Code >= 400 && a.Code < 500 {
			return // refused at once: not a temporary failure
		}
		// those before it in the queue
		q := int64(0)
		for _, o := range m.order {
			if o != b && st[o] != nil && st[o].over == "" {
				q++
			}
		}
		if q > P["retry"] {
			q = P["retry"]
		}
		bound := (q+1)*(P["interval"]+P["timeout"]) + P["timeout"]
		t0 := w.Now()
		w.SettleAfter(bound+sec, func() {
			if len(b.attempts) > i+1 || a.Inst.dead {
				return
			}
			if s.fail0+P["ttl"] < w.Now()+sec {
				return // may have expired
			}
			// may have been displaced
			n := int64(0)
			for _, o := range m.order {
				so := st[o]
				if o != b && so != nil && (so.added == 0 || so.added+w.slack()+w.Lag()-so.lag > s.fail0) {
					n++
				}
			}
			if n >= P["retry"] {
				return
			}
			w.Violate("C10", "no-retry", "a batch whose write failed (%s) was not attempted again within %d ms (interval %d ms, timeout %d ms, retry timeout %d ms, limit %d)",
				a.Outcome, (w.Now()-t0)/ms, P["interval"]/ms, P["timeout"]/ms, P["ttl"]/ms, P["retry"])
		})
	}
	w.dbs[0].onDone = append(w.dbs[0].onDone, check)
	w.dbs[0].gone = append(w.dbs[0].gone, check)
	w.onEnd = append(w.onEnd, func() {
		if P["unseen"] != 0 {
			return
		}
		m.lost(nil)
	})
}

// clusters is a union-find over names.
type clusters struct{ up map[string]string }

func newClusters() *clusters { return &clusters{map[string]string{}} }
func (c *clusters) root(a string) string {
	for {
		b, ok := c.up[a]
		if !ok || b == a {
			return a
		}
		a = b
	}
}
func (c *clusters) join(a, b string)      { c.up[c.root(a)] = c.root(b) }
func (c *clusters) same(a, b string) bool { return c.root(a) == c.root(b) }
