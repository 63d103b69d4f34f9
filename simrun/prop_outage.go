package main

import (
	"bytes"
	"fmt"
	"strings"
)

// C16: outages of the bus.

func init() {
	register(&Prop{ID: "C16", Gen: genC16, Setup: setupC16})
}

// recovery is how long a component may take to be back after the bus is: it
// tries every two seconds, and an attempt under way may take two.
const recovery = 7 * sec

// outage is a time during which an instance's link to the bus was unreliable.
type outage struct {
	node   int // -1: all
	t0, t1 int64
	lag0   int64
	lag1   int64
	cut    bool
}

type outages struct {
	w *World
	l []*outage
}

// watchOutages notes all outages.
func (w *World) watchOutages() *outages {
	o := &outages{w: w}
	wrap := func(k string, node func(e *Ev) int, dur func(e *Ev) int64) {
		old := w.on[k]
		w.on[k] = func(e *Ev) {
			x := &outage{node: node(e), t0: w.Now(), t1: 1 << 62, lag0: w.Lag(), cut: k == "cut"}
			o.l = append(o.l, x)
			old(e)
			w.After(dur(e)+1, func() { x.t1, x.lag1 = w.Now(), w.Lag() })
		}
	}
	all := func(e *Ev) int { return -1 }
	wrap("busdown", all, func(e *Ev) int64 { return e.A })
	wrap("busreset", func(e *Ev) int { return e.N }, func(e *Ev) int64 { return 0 })
	wrap("cut", func(e *Ev) int { return e.N }, func(e *Ev) int64 { return e.A })
	return o
}

// hit reports whether the link of a node may have been down at some time
// between t0 and t1 (and not yet been recovered from).
func (o *outages) hit(node int, t0, t1 int64) bool {
	for _, x := range o.l {
		if x.node >= 0 && x.node != node || x.t0 > t1 {
			continue
		}
		if x.t1 == 1<<62 {
			return true
		}
		end := x.t1 + recovery + o.w.slack() + (o.w.Lag() - x.lag1)
		if end >= t0 {
			return true
		}
	}
	return false
}

// canaryBox sends unique valid input and follows it.
type canaryBox struct {
	w      *World
	prop   string
	rules  []Rule
	udp    map[int]*udpModel
	subj   map[int]string // what a node subscribes to
	all    []*canaryState
	by     map[string]*canaryState
	due    func(c *canaryState) bool
	strict bool // nothing else may come out
	posts  int64
}

func (w *World) canaries(prop string) *canaryBox {
	b := &canaryBox{w: w, prop: prop, rules: rulesFrom(w.plan.S["rules"]), subj: map[int]string{}, udp: map[int]*udpModel{}, by: map[string]*canaryState{}}
	for i, n := range w.plan.Nodes {
		b.subj[i] = map[string]string{"udp": "in", "http": "in", "filter": "in", "ds": "ds", "writer": "w", "monitor": monSubject}[n.Name]
		if n.Name == "udp" {
			b.udp[i] = w.watchUDP(w.specs[i])
		}
	}
	w.on["canary"] = b.send
	w.broker.onPub = append(w.broker.onPub, b.onPub)
	if len(w.dbs) > 0 {
		w.dbs[0].onReq = append(w.dbs[0].onReq, func(a *Attempt) {
			for _, l := range splitLines(a.Body) {
				b.saw("db", l, 0)
			}
		})
	}
	w.onEnd = append(w.onEnd, func() {
		for _, c := range b.all {
			if c.seen == 0 && c.due && b.due(c) {
				w.Violate(prop, "lost", "input to the %s %d ms into the run never came out: %s", c.ev.S, c.T/ms, short(c.line))
			}
		}
	})
	return b
}

func (b *canaryBox) expect(e *Ev, subj string, line []byte) *canaryState {
	c := &canaryState{ev: e, T: b.w.Now(), lag: b.w.Lag(), subj: subj, line: line, due: true}
	b.all = append(b.all, c)
	b.by[subj+" "+string(line)] = c
	return c
}

func (b *canaryBox) send(e *Ev) {
	w := b.w
	in := w.specs[e.N].inst
	var data []byte
	for _, l := range e.L {
		data = append(data, l.Bytes()...)
	}
	switch e.S {
	case "udp":
		for _, l := range e.L {
			b.expect(e, "in", l.Bytes())
		}
		m := b.udp[e.N]
		n := m.lost
		w.on["udp"](&Ev{K: "udp", N: e.N, A: 7000, Data: data})
		if m.lost > n {
			for _, c := range b.all[len(b.all)-len(e.L):] {
				c.due = false
			}
		}
	case "http":
		for _, l := range e.L {
			b.expect(e, "in", l.Bytes())
		}
		r := w.httpDo(&Ev{K: "http", N: e.N, A: 8000, S: "POST /write", Parts: [][]byte{data}}, func(r *Req) {
			w.checks++
			if !in.dead && r.Status != 204 {
				w.Violate(b.prop, "post", "a valid HTTP write got status %d %s", r.Status, r.Err)
			}
		})
		w.SettleAfter(b.posts, func() {
			if r.TDone == 0 && !in.dead {
				b.stuck(in, "post", fmt.Sprintf("a valid HTTP write has had no answer for %d ms", (w.Now()-r.T0)/ms), r.T0)
			}
		})
	case "filter":
		for _, l := range e.L {
			s := junkSubject
			if k := Route(b.rules, l); k >= 0 {
				s = b.rules[k].Subject
			}
			b.expect(e, s, l.Sorted())
		}
		w.broker.Publish("in", data)
	case "ds":
		for _, l := range e.L {
			b.expect(e, "ds-archive", append(trimNL(l.Bytes()), ' '))
		}
		w.broker.Publish("ds", data)
	case "writer":
		for _, l := range e.L {
			b.expect(e, "db", l.Bytes())
		}
		w.broker.Publish("w", data)
	}
}

// stuck reports that an instance has not handled input since t0.
func (b *canaryBox) stuck(in *Inst, kind, msg string, t0 int64) {
	if in.filled(t0, b.w.Now()) {
		kind, msg = "blocked", "while its partitioned connection to the bus was full: "+msg
	}
	b.w.Violate(b.prop, kind, "%s", msg)
}

func (b *canaryBox) saw(subj string, l []byte, conn int) {
	k := string(l)
	if subj == "ds-archive" {
		if i := strings.LastIndexByte(k, ' '); i > 0 {
			k = k[:i+1]
		}
	}
	b.w.checks++
	c := b.by[subj+" "+k]
	if c == nil {
		if b.strict {
			b.w.Violate(b.prop, "corrupt", "something came out on %s that nobody sent: %s", subj, short(l))
		}
		return
	}
	c.seen++
	if c.seen == 1 {
		c.conn = conn
	}
	if c.seen > 1 && !(c.conn != conn && b.w.broker.relapsed[c.conn]) {
		b.w.Violate(b.prop, "twice", "input came out twice: %s", short(l))
	}
}

func (b *canaryBox) onPub(p *Pub) {
	if p.Inst == nil || p.Subject == monSubject {
		return
	}
	if len(p.Data) > 0 && p.Data[len(p.Data)-1] != '\n' && p.Subject != "ds-archive" && b.strict {
		b.w.Violate(b.prop, "corrupt", "a message does not end with a complete line: %s", short(p.Data))
	}
	for _, l := range splitLines(p.Data) {
		if p.Subject == "ds-archive" && len(l) > 0 && l[len(l)-1] != '\n' {
			l = append(append([]byte(nil), l...), '\n')
		}
		b.saw(p.Subject, l, p.Conn)
	}
}

func genC16(r *Rng, tier string) *Plan {
	fam := r.Pick("udp", "http", "filter", "ds", "writer", "monitor", "all")
	p := &Plan{Family: "outage-" + fam, Sched: genSched(r, schedOpt{maxPause: 10 * ms}), Net: genNet(r), S: map[string]string{}, P: map[string]int64{}}
	p.Epoch = 1600000000*sec + r.D(0, 100000000*sec)
	p.DBs = 1
	rules := genRules(r, r.N(4))
	p.S["rules"] = rulesJSON(rules)
	hold := int64(0)
	add := func(name string, c *conf) {
		c.d("stats_interval", r.PickD(sec, 3*sec))
		if name == "udp" || name == "http" || name == "writer" {
			age := r.PickD(10*ms, 200*ms, sec)
			c.d("batch_max_age", age).i("batch_max_count", int64(r.PickI(1, 5, 100)))
			if age > hold {
				hold = age
			}
		}
		if name == "filter" {
			for _, ru := range rules {
				c.rule(ru)
			}
		}
		p.Nodes = append(p.Nodes, NodeCfg{Name: name, Conf: c.String()})
	}
	period := r.PickD(sec, 2*sec)
	for _, k := range []string{"udp", "http", "filter", "ds", "writer", "monitor"} {
		if k != fam && (fam != "all" || k == "filter") {
			continue
		}
		switch k {
		case "udp":
			add(k, newConf("listener", k).subjects("in").i("port", 7000))
		case "http":
			add(k, newConf("listener_http", k).subjects("in").i("port", 8000))
		case "filter":
			add(k, newConf("filter", k).subjects("in").i("workers", int64(r.R(1, 4))))
		case "ds":
			add(k, newConf("downsampler", k).subjects("ds").d("downsample_period", period).s("downsample_suffix", "-archive"))
			if period+sec > hold {
				hold = period + sec
			}
		case "writer":
			add(k, newConf("writer", k).subjects("w").s("influxdb_address", "influx1").s("influxdb_dbname", "db0").i("workers", int64(r.R(1, 3))))
		case "monitor":
			add(k, newConf("monitor", k).i("port", monPort))
		}
	}
	p.P["hold"] = hold
	id := 0
	t := 3 * sec
	ev := func(e *Ev) { p.Events = append(p.Events, e) }
	send := func(at int64) {
		for i, n := range p.Nodes {
			if n.Name == "monitor" {
				id++
				ev(&Ev{T: at, K: "metrics", Data: []byte(fmt.Sprintf("m{n=\"%d\"} %d\nc{k=\"%d\"} %d\n", id%4, id, id%2, id))})
				if r.P(1, 2) {
					ev(&Ev{T: at + r.LogD(us, 3*sec), K: "scrape", N: i})
				}
				continue
			}
			var ls []*Line
			for j, k := 0, r.PickI(1, 1, 3); j < k; j++ {
				id++
				l := genLine(r, id, "")
				if n.Name == "ds" {
					l = &Line{Meas: "canary", Tags: []KV{{"n", fmt.Sprint(id)}}, Fields: fmt.Sprintf("v=%di", id)}
				}
				ls = append(ls, l)
			}
			ev(&Ev{T: at, K: "canary", N: i, S: n.Name, L: ls})
		}
	}
	maxOut := r.PickD(sec, 10*sec, 10*sec, 60*sec, 60*sec, 20*min)
	for i, n := 0, r.R(1, 5); i < n; i++ {
		for j, k := 0, r.N(5); j < k; j++ {
			send(t)
			t += r.LogD(us, sec)
		}
		node := r.N(len(p.Nodes))
		d := r.LogD(ms, maxOut)
		if r.P(1, 3) {
			// close to the intervals of the client
			d = r.PickD(2*sec, 4*sec, 2100*ms, 120*sec, 240*sec, 360*sec, 6*sec) + r.D(-200*ms, 200*ms)
		}
		from := t
		switch r.N(6) {
		case 0, 1:
			ev(&Ev{T: t, K: "busdown", A: d})
		case 2:
			n := node
			if r.P(1, 2) {
				n = -1
			}
			ev(&Ev{T: t, K: "busreset", N: n})
			d = 0
		case 3, 4:
			ev(&Ev{T: t, K: "cut", N: node, S: "nats", A: d})
		case 5: // both
			ev(&Ev{T: t, K: "cut", N: node, S: "nats", A: d})
			d2 := r.LogD(ms, 10*sec)
			ev(&Ev{T: t + r.D(0, d), K: "busdown", A: d2})
			d += d2
		}
		// meanwhile
		for j, k := 0, r.N(6); j < k; j++ {
			send(t + r.D(0, d+3*sec))
		}
		if r.P(1, 3) { // traffic right at the edges
			for j := 0; j < 4; j++ {
				send(t + r.D(-3*ms, 3*ms))
				send(t + d + r.D(-3*ms, 3*ms))
			}
		}
		if r.P(1, 12) {
			// more than the client keeps for later
			for i, n := range p.Nodes {
				if n.Name == "udp" || n.Name == "http" {
					p.P["flood"] = 1
					for j := 0; j < 170; j++ {
						id++
						l := genLine(r, id, "")
						l.Fields += ",pad=\"" + strings.Repeat("p", 55000) + "\""
						ev(&Ev{T: from + int64(j)*ms/10, K: "canary", N: i, S: n.Name, L: []*Line{l}})
					}
				}
			}
		}
		t += d
		if r.P(1, 3) {
			t += r.LogD(ms, 3*sec) // the next one comes soon
		} else {
			t += recovery + r.LogD(sec, 10*sec)
			send(t)
		}
	}
	t += recovery + 3*sec
	for i := 0; i < 3; i++ {
		send(t)
		t += sec
	}
	for i, n := range p.Nodes {
		if n.Name == "monitor" {
			ev(&Ev{T: t + 5*sec, K: "scrape", N: i})
		}
	}
	p.End = t + 20*sec
	return p
}

func setupC16(w *World) {
	o := w.watchOutages()
	hold := w.plan.P["hold"]
	m := w.monModel("C16")
	b := w.canaries("C16")
	b.strict = true
	b.posts = 8 * sec
	b.due = func(c *canaryState) bool {
		in := w.specs[c.ev.N].inst
		return !in.filled(c.T-5*sec, c.T+hold+sec) && !o.hit(c.ev.N, c.T, c.T+hold+w.slack()+sec+(w.Lag()-c.lag))
	}
	m.unsure = func(in *Inst, msg mmsg) bool {
		return o.hit(in.spec.idx, msg.T, msg.T+w.slack()+(w.Lag()-msg.lag))
	}
	// all datagrams are read, whatever the state of the bus
	oldUDP := w.on["udp"]
	w.on["udp"] = func(e *Ev) {
		oldUDP(e)
		in := w.specs[e.N].inst
		for _, u := range in.udp {
			u, n, t0 := u, len(u.q), w.Now()
			if n == 0 || len(u.q[n-1]) == 0 {
				continue
			}
			last := &u.q[n-1][0]
			w.SettleAfter(b.posts, func() {
				for _, d := range u.q {
					if len(d) > 0 && &d[0] == last && !in.dead {
						b.stuck(in, "unread", fmt.Sprintf("a datagram has not been read for %d s", b.posts/sec), t0)
					}
				}
			})
		}
	}
	type pubAt struct{ t, lag int64 }
	counters := map[*Inst]pubAt{}
	w.broker.onPub = append(w.broker.onPub, func(p *Pub) {
		if p.Inst != nil && p.Subject == monSubject {
			counters[p.Inst] = pubAt{w.Now(), w.Lag()}
		}
	})
	w.onEnd = append(w.onEnd, func() {
		for i, s := range w.specs {
			if w.plan.Nodes[i].Name == "monitor" || s.inst.dead {
				continue
			}
			w.checks++
			if c := counters[s.inst]; w.Now()-c.t-(w.Lag()-c.lag) > 15*sec+w.slack() {
				w.Violate("C16", "silent", "%s has not published its counters for %d s at the end", s.inst.name(), (w.Now()-c.t)/sec)
			}
		}
		for i, s := range w.specs {
			if k := w.plan.Nodes[i].Name; k == "udp" || k == "http" || s.inst.dead {
				continue
			}
			if !w.broker.Subscribed(s.inst, b.subj[i]) {
				w.Violate("C16", "unsubscribed", "%s is not subscribed to %s at the end", s.inst.name(), b.subj[i])
			}
		}
	})
}

var _ = bytes.Index
