package main

import (
	"bytes"
	"fmt"
	"math"
	"runtime"
	"strconv"
	"strings"
)

// C20 (probes) and C21 (stopping and failing starts): components are started
// and stopped through their Start and Stop functions (some are processes of
// their own) again and again, in good times and bad ones.

func init() {
	register(&Prop{ID: "C20", Gen: func(r *Rng, tier string) *Plan { return genLife(r, "C20") }, Setup: func(w *World) { setupLife(w, "C20") }})
	register(&Prop{ID: "C21", Gen: func(r *Rng, tier string) *Plan { return genLife(r, "C21") }, Setup: func(w *World) { setupLife(w, "C21") }})
}

// lifeConf makes the configuration of a component.
func lifeConf(r *Rng, kind string, i int, timeout int64, long bool) string {
	// with long intervals nothing happens on its own before it is stopped
	lng := func(v int64) int64 {
		if long && r.P(1, 2) {
			return r.PickD(20*sec, 60*sec, 600*sec)
		}
		return v
	}
	var c *conf
	in := fmt.Sprintf("in%d", i)
	batch := func() {
		c.d("batch_max_age", lng(r.PickD(ms, 50*ms, 300*ms))).i("batch_max_count", int64(r.PickI(1, 2, 50)))
	}
	switch kind {
	case "udp":
		c = newConf("listener", "").subjects("out"+strconv.Itoa(i)).i("port", int64(7000+i))
		batch()
	case "http":
		c = newConf("listener_http", "").subjects("out"+strconv.Itoa(i)).i("port", int64(8000+i))
		batch()
	case "filter":
		c = newConf("filter", "").subjects(in).i("workers", int64(r.R(1, 4)))
	case "writer":
		subj := []string{in}
		for k := r.N(3); k > 0; k-- {
			subj = append(subj, fmt.Sprintf("%s-%d", in, k))
		}
		c = newConf("writer", "").subjects(subj...).s("influxdb_address", "influx1").s("influxdb_dbname", "db").i("workers", int64(r.R(1, 3)))
		batch()
		c.d("write_timeout", timeout).i("writer_retry_batches", int64(r.PickI(0, 1, 10))).d("writer_retry_interval", lng(r.PickD(ms, 100*ms, 2*sec))).d("writer_retry_timeout", 20*sec)
		if r.P(1, 3) {
			c.raw(fmt.Sprintf("batch_max_size = \"%dB\"\n", r.PickI(100, 3000)))
		}
	case "ds":
		subj := []string{in}
		for k := r.N(3); k > 0; k-- {
			subj = append(subj, fmt.Sprintf("%s-%d", in, k))
		}
		c = newConf("downsampler", "").subjects(subj...).d("downsample_period", lng(r.PickD(sec, 3*sec))).s("downsample_suffix", "-archive")
	case "monitor":
		c = newConf("monitor", "").i("port", int64(9000+i))
	}
	c.i("probe_port", int64(probePort+i)).d("stats_interval", lng(r.PickD(50*ms, sec, 3*sec)))
	c.s("nats_subject_monitor", fmt.Sprintf("mon%d", i))
	if kind == "filter" {
		for k := r.N(3); k > 0; k-- {
			c.rule(Rule{Type: "basic", Match: fmt.Sprintf("never%d", k), Subject: "nowhere"})
		}
		if r.P(1, 2) {
			c.rule(Rule{Type: "regex", Match: "mk[0-9]+q", Subject: fmt.Sprintf("out%d", i)})
		}
	}
	return c.String()
}

func genLife(r *Rng, prop string) *Plan {
	p := &Plan{Sched: genSched(r, schedOpt{maxPause: 5 * ms}), Net: genNet(r), S: map[string]string{}, P: map[string]int64{}, DBs: 1}
	p.Epoch = 1600000000*sec + r.D(0, 100000000*sec)
	if p.Sched.Cost > 10*us {
		p.Sched.Cost = 10 * us
	}
	p.Sched.MaxPicks *= 3
	timeout := r.PickD(300*ms, sec, 4*sec)
	p.P["timeout"] = timeout
	var kinds []string
	n := r.PickI(1, 1, 1, 2, 3)
	ev := func(e *Ev) { p.Events = append(p.Events, e) }
	all := []string{"udp", "http", "filter", "writer", "ds", "monitor"}
	only := r.Pick(all...)
	// a writer is stopped while its database does not answer
	sick := prop == "C21" && r.P(1, 10)
	if sick {
		only = "writer"
	}
	p.Family = "life-" + only
	long := prop == "C21" && r.P(1, 4)
	if long {
		p.P["long"] = 1
	}
	for i := 0; i < n; i++ {
		k := only
		if i > 0 {
			k = r.Pick(all...)
		}
		kinds = append(kinds, k)
		kind := "api"
		if prop == "C20" && r.P(1, 4) {
			kind = "main"
		}
		p.Nodes = append(p.Nodes, NodeCfg{Name: fmt.Sprintf("%s%d", k, i), Kind: kind, Conf: lifeConf(r, k, i, timeout, long), NoStart: true, Supervise: kind == "main"})
	}
	p.S["kinds"] = strings.Join(kinds, ",")
	// when the troubles are over
	calm := r.LogD(sec, 30*sec)
	if sick {
		p.Family = "life-writer-sick"
	}
	if !sick && (prop == "C20" && r.P(1, 2) || prop == "C21" && r.P(1, 3)) {
		p.Family += "-calm"
		calm = 3 * sec
	} else {
		for k := r.R(1, 3); k > 0; k-- {
			t := r.D(0, calm)
			if r.P(1, 2) {
				// while something starts
				t = r.LogD(10*us, 50*ms)
			}
			d := r.LogD(ms, 15*sec)
			if t+d > calm {
				d = calm - t + 1
			}
			switch r.N(6) {
			case 0:
				ev(&Ev{T: t, K: "busdown", A: d})
			case 1:
				ev(&Ev{T: t, K: "busstall", A: d})
			case 2:
				ev(&Ev{T: t, K: "cut", N: r.N(n), A: d, S: "nats"})
			case 3:
				ev(&Ev{T: t, K: "busreset", N: r.N(n+1) - 1})
			case 4:
				ev(&Ev{T: t, K: "netslow", A: int64(r.PickI(20, 100)), B: r.PickD(10*ms, 200*ms, sec)})
				ev(&Ev{T: t + d, K: "netslow", A: int64(p.Net.SlowP), B: p.Net.SlowMax, Fixed: true})
			case 5:
				ev(&Ev{T: t, K: "cut", N: r.N(n), A: d, S: "influx1"})
			}
		}
		if sick {
			calm = r.D(10*sec, 30*sec)
			if r.P(1, 2) {
				// only retries are affected
				ev(&Ev{T: 0, K: "db", S: "influx1", S2: r.Pick("503", "refuse", "close", "reset-before"), Fixed: true})
				for k := r.R(1, 4); k > 0; k-- {
					ev(&Ev{T: r.D(200*ms, calm), K: "db", S: "influx1", S2: r.Pick("silent", "503", "stall", "silent-after", "mix:503,silent")})
				}
			} else {
				ev(&Ev{T: 0, K: "db", S: "influx1", S2: r.Pick("silent", "silent-after", "stall", "drop", "drip:3000", fmt.Sprintf("slow:%d", timeout/ms*2/3), fmt.Sprintf("slow:%d", timeout/ms+50))})
			}
		} else if r.P(2, 3) {
			for k := r.R(1, 3); k > 0; k-- {
				ev(&Ev{T: r.D(0, calm), K: "db", S: "influx1", S2: r.Pick("refuse", "drop", "stall", "silent", "silent-after", "503", "500", "close", "garbage", "reset-before",
					"slow:200", fmt.Sprintf("slow:%d", timeout/ms+50), "drip:3000", "mix:ok,503", "mix:ok,silent")})
			}
		}
	}
	// the bus reads nothing for a long time while there is much to send
	jam := prop == "C21" && !sick && (only == "udp" || only == "http" || only == "filter") && r.P(1, 30)
	if jam {
		p.Family = "life-jam"
		calm = 50 * sec
		ev(&Ev{T: r.D(ms, 2*sec), K: "busstall", A: r.D(10*sec, 45*sec)})
		ev(&Ev{T: 0, K: "cycle", N: 0, A: r.D(3*sec, 8*sec), B: 100 * ms})
		ev(&Ev{T: 0, K: "load", N: 0, A: r.D(2*sec, 4*sec), B: int64(r.PickI(10, 1500)), S2: fmt.Sprint(r.PickI(1000, 9000, 60000))})
	}
	ev(&Ev{T: calm, K: "db", S: "influx1", S2: "ok", Fixed: true})
	cycles := 0
	last := int64(0)
	for i := 0; i < n; i++ {
		t := r.LogD(ms, 2*sec)
		m := r.R(0, 3)
		if sick && m == 0 {
			m = 1
		}
		for k := 0; k < m; k++ {
			cycles++
			e := &Ev{T: t, K: "cycle", N: i, A: r.LogD(10*us, 6*sec), B: r.LogD(10*us, sec)}
			switch r.N(8) {
			case 0:
				e.A = 0
			case 1:
				e.A = sec + r.D(0, 200*ms)
			}
			if sick && i == 0 {
				e.A = r.D(100*ms, 4*sec)
			}
			if (r.P(1, 3) || prop == "C21" && r.P(1, 3)) && !(sick && i == 0 && k == 0) {
				// it must fail to start, or may
				e.S = r.Pick("bus", "busmid", "stall", "fd", "port", "rule", "subject")
				switch {
				case e.S == "busmid":
					e.S2 = fmt.Sprint(r.LogD(10*us, 5*ms))
				case e.S == "fd":
					e.S2 = fmt.Sprint(r.R(1, 6))
				case e.S == "port" && kinds[i] != "udp" && kinds[i] != "http" && kinds[i] != "monitor", e.S == "rule" && kinds[i] != "filter" && kinds[i] != "writer":
					e.S = "bus"
				case e.S == "subject" && (kinds[i] == "udp" || kinds[i] == "http"):
					e.S = "port"
				case e.S == "rule":
					e.S2 = r.Pick("type = \"regex\"\nmatch = \"(a\"", "type = \"regex\"\nmatch = \"a[\"", "type = \"what\"\nmatch = \"x\"", "type = \"negregex\"\nmatch = \"*\"", "type = \"negregex\"\nmatch = \"a{2,1}\"")
				}
			}
			ev(e)
			if r.P(2, 3) || sick && i == 0 {
				lo := &Ev{T: t, K: "load", N: i, A: r.LogD(ms, 3*sec), B: int64(r.PickI(1, 10, 100, 1500)), S: r.Pick("", "", "slow", "deaf", "stuck", "part"), S2: fmt.Sprint(r.PickI(60, 1000, 9000))}
				if r.P(1, 2) {
					// just before it is stopped
					lo.A = e.A - r.LogD(ms, sec)
				}
				ev(lo)
			}
			if kinds[i] == "udp" && r.P(1, 4) {
				ev(&Ev{T: t + r.D(0, 2*sec), K: "udperr", N: i, A: r.LogD(sec, 8*sec), B: r.LogD(ms, 900*ms)})
			}
			t += r.D(0, calm/2+1)
		}
		// the last time, which has to work
		ev(&Ev{T: max64(t, calm) + 2*sec, K: "cycle", N: i, A: r.PickD(3*sec, 6*sec), S: "final", Fixed: true})
		last = max64(last, max64(t, calm)+2*sec)
		if prop == "C20" || r.P(1, 2) {
			ev(&Ev{T: 0, K: "probing", N: i, A: r.LogD(20*us, r.PickD(2*ms, 100*ms)), B: int64(r.R(50, 800))})
		}
	}
	if prop == "C20" && r.P(1, 3) {
		p.P["stophold"] = 1
	}
	p.P["after"] = r.PickD(0, 0, 0, ms, 100*ms)
	p.P["calm"] = calm
	p.P["burst"] = r.LogD(20*us, 500*us)
	if r.P(1, 2) {
		p.P["bind"] = r.LogD(100*us, 20*ms)
	}
	p.End = last + 60*sec + int64(cycles)*2*timeout
	return p
}

// A node and where it is in its life.
type lnode struct {
	l     *life
	s     *Spec
	i     int
	kind  string
	queue []*Ev
	loads []*Ev
	cur   *lcycle
	all   []*lcycle
	tick  func()
	next  bool // a cycle is about to begin
}

// lcycle is the time from one start to the end of the stop that follows.
type lcycle struct {
	n      *lnode
	in     *Inst
	ev     *Ev
	T0     int64 // start called
	T0lag  int64
	TR     int64 // start returned
	TRlag  int64
	failed bool
	TS     int64 // stop called
	TSlag  int64
	// what has been held by then
	TSheld    uint64
	TSheldLag int64
	TE        int64 // stop returned
	ready     int64 // first positive answer
	tests     int
	bursts    int
	over      bool
	heavy     bool // has been sent a lot of work
	must      bool // it cannot succeed
	may       bool // it need not
	probed    bool
	probedOK  int
}

type trb struct {
	node   int
	t0, t1 int64
	hard   bool // connections are lost
	db     bool
}

type life struct {
	w       *World
	prop    string
	nodes   []*lnode
	trb     []*trb
	id      int
	tests   []*ltest
	timeout int64
	held    []func()
	stalls  int
	downs   int
}

// ltest is data sent to a component which said that it was ready.
type ltest struct {
	c    *lcycle
	T    int64
	mark string
	got  bool
	what string
}

func setupLife(w *World, prop string) {
	l := &life{w: w, prop: prop, timeout: w.plan.P["timeout"]}
	kinds := strings.Split(w.plan.S["kinds"], ",")
	for i, s := range w.specs {
		n := &lnode{l: l, s: s, i: i, kind: kinds[i]}
		l.nodes = append(l.nodes, n)
		s.stopAfter = -1
		s.onAPI = func(in *Inst, what string) { n.api(what) }
		s.onDeath = func(in *Inst) { n.died(in) }
		s.onStart = func(in *Inst) { n.born(in) }
	}
	wrap := func(k string, node func(e *Ev) int, dur func(e *Ev) int64, hard bool) {
		old := w.on[k]
		w.on[k] = func(e *Ev) {
			x := &trb{node: node(e), t0: w.Now(), t1: math.MaxInt64, hard: hard, db: e.S == "influx1"}
			l.trb = append(l.trb, x)
			old(e)
			w.After(dur(e)+1, func() { x.t1 = w.Now() })
		}
	}
	all := func(e *Ev) int { return -1 }
	one := func(e *Ev) int { return e.N }
	dur := func(e *Ev) int64 { return e.A }
	for _, k := range []string{"busdown", "busstall"} {
		k := k
		w.on[k] = func(e *Ev) {
			l.bus(k == "busstall", 1)
			w.After(e.A, func() { l.bus(k == "busstall", -1) })
		}
	}
	wrap("busdown", all, dur, true)
	wrap("busstall", all, dur, false)
	wrap("busreset", one, func(e *Ev) int64 { return 0 }, true)
	wrap("cut", one, dur, false)
	var slow *trb
	oldSlow := w.on["netslow"]
	w.on["netslow"] = func(e *Ev) {
		oldSlow(e)
		if slow != nil {
			slow.t1 = w.Now()
		}
		slow = nil
		if !e.Fixed {
			slow = &trb{node: -1, t0: w.Now(), t1: math.MaxInt64}
			l.trb = append(l.trb, slow)
		}
	}
	var db *trb
	oldDB := w.on["db"]
	w.on["db"] = func(e *Ev) {
		oldDB(e)
		if db != nil {
			db.t1 = w.Now() + 2*l.timeout
			db = nil
		}
		if e.S2 != "ok" {
			db = &trb{node: -1, t0: w.Now(), t1: math.MaxInt64, db: true}
			l.trb = append(l.trb, db)
		}
	}
	w.on["cycle"] = func(e *Ev) {
		n := l.nodes[e.N]
		n.queue = append(n.queue, e)
		n.proceed(0)
	}
	w.on["load"] = func(e *Ev) { l.nodes[e.N].loads = append(l.nodes[e.N].loads, e) }
	w.on["probing"] = l.probing
	if d := w.plan.P["bind"]; d > 0 {
		w.net.onBind = func(in *Inst, port int) int64 {
			for _, n := range l.nodes {
				if n.s.inst == in && n.cur != nil && prop == "C20" {
					n := n
					w.After(1, func() { l.ask(n, true) })
				}
			}
			return w.net.sim.net.D(d/2, d)
		}
	}
	w.broker.onPub = append(w.broker.onPub, l.published)
	w.dbs[0].onReq = append(w.dbs[0].onReq, func(a *Attempt) { l.seen(a.Inst, a.Body) })
	w.onEnd = append(w.onEnd, func() {
		for _, n := range l.nodes {
			if c := n.cur; c != nil && !c.over || len(n.queue) > 0 {
				w.Count("unfinished", 1)
			}
		}
	})
}

// trouble reports whether there was any between two moments.
func (l *life) trouble(node int, t0, t1 int64, f func(x *trb) bool) bool {
	for _, x := range l.trb {
		if (x.node == node || x.node == -1) && x.t0 <= t1 && x.t1 >= t0 && f(x) {
			return true
		}
	}
	return false
}

func anyBus(x *trb) bool  { return !x.db }
func hardBus(x *trb) bool { return x.hard && !x.db }
func anyDB(x *trb) bool   { return x.db }
func any(x *trb) bool     { return true }

// bus begins or ends an outage.  They may overlap.
func (l *life) bus(stall bool, d int) {
	b := l.w.broker
	if stall {
		l.stalls += d
		if on := l.stalls > 0; on != b.stall {
			b.Stall(on)
			if !on {
				l.release()
			}
		}
		return
	}
	l.downs += d
	if l.downs > 0 {
		b.Down()
	} else {
		b.Up()
	}
}

// release publishes what was held back while the bus stood still.
func (l *life) release() {
	if l.w.broker.stall {
		return
	}
	h := l.held
	l.held = nil
	for _, f := range h {
		f()
	}
}

// publish puts a message on the bus, as another client of it would.
func (l *life) publish(subject string, data []byte) {
	if l.w.broker.stall {
		l.held = append(l.held, func() { l.publish(subject, data) })
		return
	}
	l.w.broker.Publish(subject, data)
}

// proceed begins the next cycle once the last one is over.
func (n *lnode) proceed(gap int64) {
	if n.next || len(n.queue) == 0 || n.cur != nil && !n.cur.over {
		return
	}
	n.next = true
	n.l.w.After(gap+1, func() {
		n.next = false
		e := n.queue[0]
		n.queue = n.queue[1:]
		n.begin(e)
		if n.tick != nil {
			n.l.w.After(1, n.tick)
		}
	})
}

func (n *lnode) begin(e *Ev) {
	w, s := n.l.w, n.s
	c := &lcycle{n: n, ev: e, T0: w.Now(), T0lag: w.Lag()}
	undo := func() {}
	switch e.S {
	case "port":
		port := map[string]int{"udp": 7000, "http": 8000, "monitor": 9000}[n.kind] + n.i
		s.occupied[port] = true
		undo = func() { delete(s.occupied, port) }
		c.must = true
		w.Fault("port_occupied")
	case "rule":
		path := s.confPath()
		old := s.files[path]
		s.files[path] = &simFile{data: append(append([]byte(nil), old.data...), "\n[[rule]]\n"+e.S2+"\nsubject = \"s\"\n"...)}
		undo = func() { s.files[path] = old }
		c.must = true
		w.Fault("invalid_rule")
	case "subject":
		// one to which the bus client refuses to subscribe
		path := s.confPath()
		old := s.files[path]
		text := string(old.data)
		good := fmt.Sprintf("\"in%d\"", n.i)
		if n.kind == "monitor" {
			good = fmt.Sprintf("\"mon%d\"", n.i)
		} else if last := fmt.Sprintf("\"in%d-1\"", n.i); e.A%2 == 0 && strings.Contains(text, last) {
			good = last
		}
		s.files[path] = &simFile{data: []byte(strings.Replace(text, good, "\"a b\"", 1))}
		undo = func() { s.files[path] = old }
		c.must = true
		w.Fault("invalid_subject")
	case "bus", "busmid", "stall":
		x := &trb{node: -1, t1: math.MaxInt64, hard: e.S != "stall"}
		on := func() {
			x.t0 = w.Now()
			n.l.trb = append(n.l.trb, x)
			n.l.bus(e.S == "stall", 1)
		}
		done := false
		undo = func() {
			done = true
			if x.t0 == 0 {
				return
			}
			n.l.bus(e.S == "stall", -1)
			x.t1 = w.Now()
		}
		if e.S == "busmid" {
			d, _ := strconv.ParseInt(e.S2, 10, 64)
			c.may = true
			w.After(d, func() {
				if !done {
					on()
				}
			})
		} else {
			c.must = true
			on()
		}
	case "fd":
		k, _ := strconv.Atoi(e.S2)
		s.failOp = k
		undo = func() { s.failOp = 0 }
		c.may = true
	}
	if s.cfg.Kind == "main" {
		// until the process has come up or is gone, or after a while
		old := undo
		undone := false
		undo = func() {
			if !undone {
				undone = true
				old()
			}
		}
		w.After(5*sec, undo)
	}
	n.cur = c
	n.all = append(n.all, c)
	s.undo = undo
	s.stopAfter = e.A
	if e.S == "final" && e.A == 0 {
		s.stopAfter = 3 * sec
	}
	if s.cfg.Kind == "api" && s.inst != nil && !s.inst.dead {
		// in the same process
		c.in = s.inst
		w.Again(s)
		w.Count("started_again", 1)
	} else {
		w.Start(s)
	}
	if c.in == nil {
		// no more processes
		c.over = true
		undo()
		return
	}
	if s.cfg.Kind == "api" {
		w.SettleAfter(n.startBound(), func() {
			if c.TR == 0 && !c.in.dead && n.cur == c {
				w.Violate(n.l.prop, "start-hangs", "starting %s has not returned after %d ms", c.in.name(), (w.Now()-c.T0)/ms)
			}
		})
	}
}

// startBound is how long a start may take: the bus client gives up connecting
// after 2 s and flushing after 10 s.
func (n *lnode) startBound() int64 { return 3*sec + 12*sec }

func (n *lnode) born(in *Inst) {
	if n.cur == nil || n.cur.over {
		return
	}
	if n.cur.in != nil && n.cur.in != in {
		// its supervisor starts it again
		c := n.cur
		n.cur = &lcycle{n: n, ev: c.ev, T0: n.l.w.Now(), T0lag: n.l.w.Lag(), may: true}
		c.over = true
		n.all = append(n.all, n.cur)
	}
	n.cur.in = in
}

// died is called when a process has gone by itself.
func (n *lnode) died(in *Inst) {
	w := n.l.w
	c := n.cur
	if c == nil || c.in != in || in.death != "exit" {
		return
	}
	n.s.undo()
	if in.code == 0 {
		w.Violate(n.l.prop, "exit", "%s could not start but exits with code 0", in.name())
	}
	if c.ready != 0 {
		w.Violate(n.l.prop, "ready-failed", "%s said it was ready and then failed to start", in.name())
	}
	if !c.must && !c.may && !n.l.trouble(n.i, c.T0-sec, w.Now(), anyBus) {
		w.Violate(n.l.prop, "start-failed", "%s failed to start although nothing was wrong: %s", in.name(), in.deathMsg)
	}
}

// api is called when Start or Stop return, and before Stop.
func (n *lnode) api(what string) {
	w, c := n.l.w, n.cur
	in := c.in
	switch what {
	case "started":
		n.s.undo()
		c.TR, c.TRlag = w.Now(), w.Lag()
		w.checks++
		err := in.apiErr
		switch {
		case err != nil && !c.must && !c.may && !n.l.trouble(n.i, c.T0-sec, w.Now(), anyBus):
			w.Violate(n.l.prop, "start-failed", "%s failed to start although nothing was wrong: %v", in.name(), err)
		case err == nil && c.must:
			w.Violate(n.l.prop, "start-succeeded", "%s claims to have started in spite of: %s %s", in.name(), c.ev.S, c.ev.S2)
		case err == nil && n.s.failHit && !n.l.trouble(n.i, c.T0-sec, w.Now(), anyBus):
			w.Violate(n.l.prop, "start-succeeded", "%s claims to have started although a system call failed (%s)", in.name(), n.s.failWhat)
		}
		n.s.failHit = false
		if err != nil {
			w.Fault("failed_start")
			c.failed = true
			n.ports(c, "failed to start")
			if c.ready != 0 {
				w.Violate(n.l.prop, "ready-failed", "%s said it was ready and then failed to start: %v", in.name(), err)
			}
			n.finish(c)
			return
		}
		for _, lo := range n.loads {
			lo := lo
			w.After(max64(lo.A, 0)+1, func() { n.load(c, lo) })
		}
		n.loads = nil
		if r := newRng(uint64(c.ev.A), "stophold"); n.l.prop == "C20" && c.ev.A > 10*ms && w.plan.P["stophold"] != 0 {
			// something is still busy when it is told to stop
			d, a := r.LogD(ms, min64(c.ev.A/2, 300*ms)), r.LogD(200*ms, 5*sec)
			w.After(c.ev.A-d, func() { w.on["hold"](&Ev{N: n.i, A: d + a}) })
		}
		if n.l.prop == "C21" {
			w.SettleAfter(sec, func() { n.l.test(c) })
		}
	case "stop":
		w.Fault("component_stop")
		c.TS, c.TSlag = w.Now(), w.Lag()
		c.TSheld, c.TSheldLag = runtime.SimHeld(), runtime.SimHeldLag()
		if n.l.prop == "C20" {
			var again func()
			again = func() {
				if c.TE == 0 && n.cur == c && !c.in.dead {
					n.l.ask(n, true)
					n.l.ask(n, false)
					w.After(100*ms, again)
				}
			}
			w.After(w.slack()+ms, again)
		}
		w.SettleAfter(3*sec, func() { n.hangs(c, 3*sec) })
	case "stopped":
		n.ports(c, "stopped")
		w.checks++
		c.TE = w.Now()
		n.finish(c)
	}
}

// hangs is called when the time to stop is up.
func (n *lnode) hangs(c *lcycle, given int64) {
	w := n.l.w
	if c.TE != 0 || c.in.dead {
		return
	}
	bound := 3 * sec
	if n.l.trouble(n.i, c.TS-20*sec, w.Now(), anyBus) {
		// a flush of the bus connection may take 10 s, a reconnection
		// attempt under way 4 s
		bound += 18 * sec
	}
	if n.kind == "writer" && n.l.trouble(n.i, c.TS-20*sec-2*n.l.timeout, w.Now(), any) {
		// the writes under way
		bound += n.l.timeout + sec
	}
	if n.l.prop == "C20" {
		return
	}
	if given < bound {
		w.SettleAfter(bound-given, func() { n.hangs(c, bound) })
		return
	}
	if c.in.jammed(c.T0, w.Now()) {
		w.Violate(n.l.prop, "blocked", "while its connection to the bus was full: stopping %s has not returned after %d ms", c.in.name(), (w.Now()-c.TS)/ms)
		return
	}
	w.Violate(n.l.prop, "stop-hangs", "stopping %s has not returned after %d ms", c.in.name(), (w.Now()-c.TS)/ms)
}

// finish looks at what a component which was stopped or has not started leaves.
func (n *lnode) finish(c *lcycle) {
	w := n.l.w
	var look func()
	tries := 0
	again := false
	look = func() {
		if c.in.dead {
			c.over = true
			return
		}
		for _, d := range c.in.dials {
			if d.t1 == 0 && tries < 200 {
				// the kernel is at it
				tries++
				w.SettleAfter(sec, look)
				return
			}
		}
		if !again && (len(c.in.conns) > 0 || goroutines(c.in) > 0) && n.l.trouble(n.i, c.T0, w.Now(), hardBus) {
			// the bus client may be waiting until it is time to reconnect
			again = true
			w.SettleAfter(4*sec, look)
			return
		}
		w.checks++
		what := "stopped"
		if c.failed {
			what = "failed to start"
		}
		var left []*CConn
		for _, x := range c.in.conns {
			if x.peer == "nats" && goroutines(c.in) == 0 && n.l.trouble(n.i, c.T0, w.Now(), anyBus) {
				// The bus client forgets the connection when the bus is
				// mute while it reconnects.
				x.forgotten = true
			}
			if !x.forgotten {
				left = append(left, x)
			}
		}
		if k := len(left); k > 0 {
			w.Violate(n.l.prop, "leaves-conn", "%s has %s but still has %d connections (first: to %s)", c.in.name(), what, k, left[0].peer)
		}
		if k := goroutines(c.in); k > 0 {
			w.Violate(n.l.prop, "leaves-goroutine", "%s has %s but still has %d goroutines", c.in.name(), what, k)
		}
		w.Count("looked_after", 1)
		c.over = true
		n.proceed(c.ev.B)
	}
	if n.l.prop == "C20" {
		c.over = true
		n.proceed(c.ev.B)
		return
	}
	if c.TE != 0 {
		w.SettleAfter(20*ms, func() { n.writing(c) })
	}
	w.SettleAfter(sec, look)
}

// writing looks for writes to the database which are still under way when
// the writer has been stopped.
func (n *lnode) writing(c *lcycle) {
	if c.in.dead {
		return
	}
	for _, d := range c.in.dials {
		if d.t1 == 0 || d.t1 > c.TE {
			return
		}
	}
	n.l.w.checks++
	for _, x := range c.in.conns {
		if x.peer != "nats" && !x.forgotten {
			n.l.w.Violate(n.l.prop, "still-writing", "%s has stopped but is still talking to %s", c.in.name(), x.peer)
			return
		}
	}
}

// ports looks for ports which a component has not closed.
func (n *lnode) ports(c *lcycle, what string) {
	w := n.l.w
	for p := range c.in.listeners {
		w.Violate(n.l.prop, "leaves-port", "%s has %s but still listens on port %d", c.in.name(), what, p)
	}
	for p := range c.in.udp {
		w.Violate(n.l.prop, "leaves-port", "%s has %s but still has UDP port %d", c.in.name(), what, p)
	}
}

// load sends a component some work.
func (n *lnode) load(c *lcycle, e *Ev) {
	w := n.l.w
	if c.in.dead || n.cur != c {
		return
	}
	size, _ := strconv.Atoi(e.S2)
	line := "load,t=" + strings.Repeat("x", 40) + " v=1i\n"
	data := []byte(strings.Repeat(line, size/len(line)+1))
	k := int(e.B)
	if lim := 512 << 10 / len(data); k > lim {
		k = lim
	}
	c.heavy = c.heavy || k >= 100 || k*len(data) > 20000
	if e.S == "stuck" || e.S == "part" {
		// clients which never finish
		for i := 0; i < 1+k%3; i++ {
			w.httpDo(&Ev{K: "http", N: n.i, A: int64(probePort + n.i), S: "GET /healthz", S2: "part"}, nil)
		}
	}
	switch n.kind {
	case "udp":
		for ; k > 0; k-- {
			w.net.Deliver(c.in, 7000+n.i, data)
		}
	case "http":
		if k > 60 {
			k = 60
		}
		for ; k > 0; k-- {
			x := &Ev{K: "http", N: n.i, A: int64(8000 + n.i), S: "POST /write", Parts: [][]byte{data}}
			switch e.S {
			case "stuck":
				x.B, x.S2 = int64(1+len(data)), "stall"
			case "part":
				x.S2 = "part"
			case "slow":
				h := len(data) / 2
				x.Parts = [][]byte{data[:h], data[h:]}
				x.Gaps = []int64{0, 2 * sec}
			}
			w.httpDo(x, nil)
		}
	case "monitor":
		for i := 0; i < k; i++ {
			n.l.publish(fmt.Sprintf("mon%d", n.i), []byte(fmt.Sprintf("load{n=\"%d\"} 1\n", i)))
		}
		for i := 0; i < 20 && i < k; i++ {
			x := &Ev{K: "http", N: n.i, A: int64(9000 + n.i), S: "GET /metrics"}
			switch e.S {
			case "deaf":
				x.S2 = "read=-1"
			case "stuck", "part":
				x.S2 = "part"
			}
			w.httpDo(x, nil)
		}
	default:
		for ; k > 0; k-- {
			n.l.publish(fmt.Sprintf("in%d", n.i), data)
		}
	}
	w.Count("loads", 1)
}

// test sends data to a component which is ready and expects it to get through.
func (l *life) test(c *lcycle) {
	w, n := l.w, c.n
	if c.in.dead || c.TS != 0 || c.failed || n.cur != c || c.over {
		return
	}
	// while the database is not well there is nothing to learn
	l.id++
	t := &ltest{c: c, T: w.Now(), mark: fmt.Sprintf("mk%dq", l.id)}
	line := []byte(t.mark + ",t=x v=1i\n")
	hold := 3 * sec
	switch n.kind {
	case "udp":
		t.what = "a datagram"
		if !w.net.Deliver(c.in, 7000+n.i, line) {
			if u := c.in.udp[7000+n.i]; u != nil {
				return // full
			}
			w.Violate(l.prop, "deaf", "%s says it is ready but has no socket", c.in.name())
			return
		}
	case "http":
		t.what = "an HTTP write"
		w.httpDo(&Ev{K: "http", N: n.i, A: int64(8000 + n.i), S: "POST /write", Parts: [][]byte{line}}, func(r *Req) {
			w.checks++
			if r.Status != 204 && c.TS == 0 && !c.in.dead && !c.in.jammed(t.T, w.Now()) {
				w.Violate(l.prop, "deaf", "%s says it is ready but a write gets %d %s", c.in.name(), r.Status, r.Err)
			}
		})
	case "filter", "writer", "ds":
		t.what = "a message"
		subj := fmt.Sprintf("in%d", n.i)
		// the last of its subjects first
		if k := strings.Count(n.s.cfg.Conf, "\""+subj+"-"); k > 0 {
			if k = (k + c.tests - 1) % (k + 1); k > 0 {
				subj = fmt.Sprintf("%s-%d", subj, k)
			}
		}
		l.publish(subj, line)
		if n.kind == "ds" {
			hold += 6 * sec
		}
	case "monitor":
		t.what = "a metric"
		l.publish(fmt.Sprintf("mon%d", n.i), []byte(t.mark+"{a=\"b\"} 1\n"))
		l.scrape(c, t, false)
	}
	l.tests = append(l.tests, t)
	var judge func()
	tries := 0
	judge = func() {
		now := w.Now()
		if c.in.dead || c.TS != 0 || c.over || l.trouble(n.i, max64(c.T0, t.T-30*sec), now, hardBus) || n.kind == "writer" && l.trouble(n.i, t.T-10*sec, now, anyDB) {
			w.Count("tests_void", 1)
			return
		}
		if !t.got && l.trouble(n.i, t.T-10*sec, now, anyBus) && tries < 100 {
			// late at worst
			tries++
			w.SettleAfter(2*sec, func() {
				if n.kind == "monitor" {
					l.scrape(c, t, true)
				}
				w.SettleAfter(sec, judge)
			})
			return
		}
		if !t.got && (c.heavy || w.plan.P["long"] != 0) {
			w.Count("tests_void", 1)
			return
		}
		w.checks++
		w.Count("tests", 1)
		if !t.got {
			if c.in.jammed(c.T0, now) {
				w.Violate(l.prop, "blocked", "while its connection to the bus was full: %s sent to %s has not got through", t.what, c.in.name())
				return
			}
			w.Violate(l.prop, "lost", "%s sent to %s %d us after it said it was ready has been lost", t.what, c.in.name(), (t.T-c.ready)/us)
		}
	}
	if n.kind == "monitor" {
		w.SettleAfter(hold-sec, func() { l.scrape(c, t, true) })
	}
	w.SettleAfter(hold, judge)
}

func (l *life) scrape(c *lcycle, t *ltest, late bool) {
	w := l.w
	if c.in.dead || c.TS != 0 {
		return
	}
	w.httpDo(&Ev{K: "http", N: c.n.i, A: int64(9000 + c.n.i), S: "GET /metrics"}, func(r *Req) {
		w.checks++
		if r.Status != 200 && c.TS == 0 && !c.in.dead {
			w.Violate(l.prop, "deaf", "%s says it is ready but a scrape gets %d %s", c.in.name(), r.Status, r.Err)
		}
		if bytes.Contains(r.Body, []byte(t.mark+"{")) {
			t.got = true
		}
	})
}

func (l *life) published(p *Pub) {
	if p.Inst != nil {
		if strings.HasPrefix(p.Subject, "mon") {
			return
		}
		l.seen(p.Inst, p.Data)
	}
}

func (l *life) seen(in *Inst, data []byte) {
	if !bytes.Contains(data, []byte("mk")) {
		return
	}
	for _, t := range l.tests {
		if !t.got && t.c.in == in && bytes.Contains(data, []byte(t.mark+",")) {
			t.got = true
		}
	}
}

// probing asks a component's probes again and again.
func (l *life) probing(e *Ev) {
	w, n := l.w, l.nodes[e.N]
	left := e.B
	gap := e.A
	var tick func()
	gen := 0
	n.tick = func() {
		gen++
		tick()
	}
	tick = func() {
		left--
		if n.s.inst != nil && n.cur != nil {
			l.ask(n, true)
			if left%3 == 0 {
				l.ask(n, false)
			}
		}
		if left == e.B/2 {
			gap = max64(gap, 10*ms)
		}
		d := gap
		if c := n.cur; c != nil && l.prop == "C20" && w.Now()-c.T0 < 10*ms && c.bursts < 100 {
			// this is when it matters
			c.bursts++
			d = w.plan.P["burst"]
		} else if left <= 0 {
			d = 500 * ms
		}
		g := gen
		w.After(d, func() {
			if g == gen {
				tick()
			}
		})
	}
	w.After(1, tick)
}

func (l *life) ask(n *lnode, ready bool) {
	w, c := l.w, n.cur
	if c.over || c.in == nil {
		return
	}
	path := "/healthz"
	if ready {
		path = "/readyz"
	}
	T, lag := w.Now(), w.Lag()
	if c.TS != 0 && runtime.SimHeld() == c.TSheld {
		// Whatever is being held was so before, not by what stops it.
		lag -= runtime.SimHeldLag() - c.TSheldLag
	}
	r := w.httpDo(&Ev{K: "http", N: n.i, A: int64(probePort + n.i), S: "GET " + path}, func(r *Req) {
		if n.cur != c || c.in.dead && r.Status != 200 {
			return
		}
		w.checks++
		w.Count("probes", 1)
		yes := r.Status == 200
		if r.Status != 200 && r.Status != 503 && r.Status != 0 {
			w.Violate(l.prop, "probe", "%s of %s gets %d", path, c.in.name(), r.Status)
		}
		if c.TS != 0 && yes && T > c.TS && (T-c.TS) > w.slack()+(lag-c.TSlag) {
			w.Violate(l.prop, "stopping", "%s of %s succeeds %d ms after it was told to stop", path, c.in.name(), (T-c.TS)/ms)
		}
		if c.failed && yes && T > c.TR {
			w.Violate(l.prop, "failed", "%s of %s succeeds although it failed to start", path, c.in.name())
		}
		up := l.upSince(c)
		if up != 0 && !yes && c.TS == 0 && !c.failed && T-up > sec+w.slack()+(lag-c.TRlag) {
			w.Violate(l.prop, "down", "%s of %s gets %d %s %d ms after it was started", path, c.in.name(), r.Status, r.Err, (T-up)/ms)
		}
		if ready && yes && !c.failed {
			if c.ready == 0 {
				c.ready = w.Now()
				w.Count("ready", 1)
			}
			if c.tests < 5 && l.prop == "C20" {
				c.tests++
				if d := w.plan.P["after"]; d > 0 {
					w.After(d, func() { l.test(c) })
				} else {
					l.test(c)
				}
			}
		}
	})
	w.SettleAfter(5*sec, func() {
		if r.TDone == 0 && !c.in.dead && c.TS == 0 && n.cur == c && !l.trouble(n.i, T, w.Now(), any) {
			w.Violate(l.prop, "mute", "%s of %s does not respond", path, c.in.name())
		}
	})
}

// upSince says when a component was known to have started successfully.
func (l *life) upSince(c *lcycle) int64 {
	if c.n.s.cfg.Kind == "api" {
		if c.failed {
			return 0
		}
		return c.TR
	}
	if c.in.dead || l.w.Now()-c.T0 < 20*sec || l.trouble(c.n.i, c.T0-20*sec, l.w.Now(), anyBus) {
		return 0
	}
	return c.T0 + 15*sec
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
