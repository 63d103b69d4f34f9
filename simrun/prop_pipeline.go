package main

import (
	"fmt"
	"strings"
)

// C19 and C25: whole deployments.

func init() {
	register(&Prop{ID: "C19", Gen: genC19, Setup: func(w *World) { setupPipe(w, "C19") }})
	register(&Prop{ID: "C25", Gen: genC25, Setup: func(w *World) { setupPipe(w, "C25") }})
}

// sink is where lines end up: a writer, or several which share a queue group.
type sink struct {
	name  string
	db    string
	subj  map[string]bool
	nodes []int
}

// pline is a line that has been sent to a listener.
type pline struct {
	T, lag int64
	node   int
	req    *Req // nil: a datagram
	size   int
	line   []byte // as a writer gets it
	subj   string
	got    map[*sink][]*Attempt
	judged bool
	nonl   bool // it ended a body that did not end in a newline
}

// trouble is a time during which data may get lost or late at some place.
type trouble struct {
	node  int    // -1: everything that uses the bus
	db    string // this database instead
	loss0 int64  // messages under way between these may be lost
	loss1 int64
	down0 int64 // and it does not handle messages between these
	down1 int64
	soft  bool // it is only late
}

const never = int64(1) << 62

type pipe struct {
	w         *World
	prop      string
	rules     []Rule
	sinks     []*sink
	of        map[int]*sink
	listeners []int
	filters   []int
	by        map[string]*pline
	lines     []*pline
	unended   []*pline
	troubles  []*trouble
	hold      int64
	timeout   int64
	stallEnd  int64
}

// pipeGen generates deployments.
type pipeGen struct {
	r     *Rng
	p     *Plan
	id    int
	lst   []int
	fil   []int
	wri   []int
	wdb   []string
	kinds []string
}

func newPipe(r *Rng, fam string, minDBs int) *pipeGen {
	p := &Plan{Family: fam, Sched: genSched(r, schedOpt{maxPause: 5 * ms}), Net: genNet(r), S: map[string]string{}, P: map[string]int64{}}
	g := &pipeGen{r: r, p: p}
	p.Epoch = 1600000000*sec + r.D(0, 100000000*sec)
	p.DBs = r.R(minDBs, 3)
	p.Sched.MaxPicks *= 2
	rules := genRules(r, r.N(5))
	p.S["rules"] = rulesJSON(rules)
	subjects := []string{junkSubject}
	seen := map[string]bool{}
	for _, ru := range rules {
		if !seen[ru.Subject] {
			seen[ru.Subject] = true
			subjects = append(subjects, ru.Subject)
		}
	}
	if fam != "isolation" && r.P(1, 12) {
		p.P["nonl"] = 1
	}
	add := func(kind string, c *conf) int {
		c.d("stats_interval", r.PickD(sec, 3*sec))
		p.Nodes = append(p.Nodes, NodeCfg{Name: fmt.Sprintf("%s%d", kind, len(p.Nodes)), Conf: c.String(), Supervise: true})
		g.kinds = append(g.kinds, kind)
		return len(p.Nodes) - 1
	}
	batch := func(c *conf) {
		age := r.PickD(10*ms, 100*ms, sec)
		c.d("batch_max_age", age).i("batch_max_count", int64(r.PickI(1, 3, 20, 1000)))
		if p.P["nonl"] == 0 && r.P(1, 3) {
			c.raw(fmt.Sprintf("batch_max_size = \"%dB\"\n", r.PickI(200, 3000)))
		}
		if age > p.P["age"] {
			p.P["age"] = age
		}
	}
	for i, n := 0, r.PickI(1, 1, 2, 3); i < n; i++ {
		if r.P(1, 2) {
			c := newConf("listener", "").subjects("in").i("port", 7000)
			batch(c)
			g.lst = append(g.lst, add("udp", c))
		} else {
			c := newConf("listener_http", "").subjects("in").i("port", 8000)
			batch(c)
			g.lst = append(g.lst, add("http", c))
		}
	}
	for i, n := 0, r.PickI(1, 1, 2, 3); i < n; i++ {
		c := newConf("filter", "").subjects("in").i("workers", int64(r.R(1, 4)))
		for _, ru := range rules {
			c.rule(ru)
		}
		g.fil = append(g.fil, add("filter", c))
	}
	timeout := r.PickD(500*ms, 2*sec, 5*sec)
	p.P["timeout"] = timeout
	n := r.R(1, 4)
	if n < p.DBs {
		n = p.DBs
	}
	for i := 0; i < n; i++ {
		db := fmt.Sprintf("influx%d", i%p.DBs+1)
		var subj []string
		for _, s := range subjects {
			if r.P(1, 2) {
				subj = append(subj, s)
			}
		}
		if len(subj) == 0 {
			subj = []string{subjects[r.N(len(subjects))]}
		}
		members, group := 1, ""
		switch r.N(5) {
		case 0:
			members, group = 2, fmt.Sprintf("g%d", i)
		case 1:
			group = fmt.Sprintf("g%d", i)
		}
		for j := 0; j < members; j++ {
			c := newConf("writer", "").subjects(subj...).i("workers", int64(r.R(1, 3))).s("influxdb_address", db).s("influxdb_dbname", "db")
			batch(c)
			c.d("write_timeout", timeout).i("writer_retry_batches", int64(r.PickI(0, 1, 10))).d("writer_retry_interval", r.PickD(100*ms, sec)).d("writer_retry_timeout", r.PickD(2*sec, 20*sec))
			if group != "" {
				c.s("queue_group", group)
			}
			if r.P(1, 6) {
				c.raw("debug = true\n")
			}
			g.wri = append(g.wri, add("writer", c))
			g.wdb = append(g.wdb, db)
			k := len(p.Nodes) - 1
			p.S[fmt.Sprintf("sink%d", k)] = fmt.Sprintf("%s|%d|%s", db, i, strings.Join(subj, ","))
		}
	}
	return g
}

func (g *pipeGen) ev(e *Ev) { g.p.Events = append(g.p.Events, e) }

// send makes an input event.
func (g *pipeGen) send(t int64) {
	r := g.r
	k := g.lst[r.N(len(g.lst))]
	var ls []*Line
	max := 6
	if g.kinds[k] == "udp" {
		max = 3
	}
	for i, n := 0, r.R(1, max); i < n; i++ {
		g.id++
		ts := ""
		if r.P(1, 3) {
			ts = fmt.Sprint(g.p.Epoch + t + r.D(-60*sec, 60*sec))
		}
		ls = append(ls, genLine(r, g.id, ts))
	}
	opt := ""
	if g.p.P["nonl"] != 0 && r.P(1, 2) {
		opt = "nonl"
	}
	g.ev(&Ev{T: t, K: "in", N: k, S: g.kinds[k], S2: opt, L: ls})
}

// traffic sends input between two moments.
func (g *pipeGen) traffic(t0, t1 int64, n int) {
	for i := 0; i < n; i++ {
		t := g.r.D(t0, t1)
		for j, k := 0, g.r.PickI(1, 1, 1, 2, 10); j < k; j++ {
			g.send(t)
			t += g.r.PickD(0, us, 100*us, 3*ms)
		}
	}
}

func genC19(r *Rng, tier string) *Plan {
	fam := r.Pick("healthy", "crash", "crash", "bus", "backend", "all", "all")
	g := newPipe(r, "pipeline-"+fam, 1)
	p := g.p
	t := 3 * sec
	for i, n := 0, r.R(1, 5); i < n; i++ {
		d := r.LogD(10*ms, 20*sec)
		n := r.PickI(1, 5, 20, 40)
		g.traffic(t-r.D(0, 50*ms), t+d+r.D(0, 50*ms), n)
		for j, m := 0, r.R(1, 4); j < m; j++ {
			g.fault(fam, t+r.D(0, d/4+1), d)
		}
		t += d + r.LogD(10*ms, 15*sec)
	}
	for _, e := range p.Events {
		if e.K != "in" && e.T+e.A > t {
			t = e.T + e.A
		}
	}
	g.calm(t)
	return p
}

// fault adds one fault between t and t+d.
func (g *pipeGen) fault(fam string, t, d int64) {
	r := g.r
	kind := map[string]string{"crash": "kill", "bus": r.Pick("busdown", "busreset", "cut", "busstall"), "backend": "db"}[fam]
	if fam == "all" {
		kind = r.Pick("kill", "kill", "busdown", "busreset", "cut", "busstall", "db", "db", "netslow", "stall")
	}
	if fam == "healthy" {
		kind = r.Pick("stall", "netslow", "slow", "busstall", "")
	}
	switch kind {
	case "kill":
		k := r.N(len(g.kinds))
		g.ev(&Ev{T: t, K: "kill", N: k})
		g.ev(&Ev{T: t + r.D(ms, d+2*ms), K: "start", N: k, Fixed: true})
	case "busdown":
		g.ev(&Ev{T: t, K: "busdown", A: r.LogD(ms, d+2*ms)})
	case "busreset":
		g.ev(&Ev{T: t, K: "busreset", N: r.N(len(g.kinds)+1) - 1})
	case "cut":
		g.ev(&Ev{T: t, K: "cut", N: r.N(len(g.kinds)), S: "nats", A: r.LogD(ms, d+2*ms)})
	case "busstall":
		g.ev(&Ev{T: t, K: "busstall", A: r.LogD(ms, d+2*ms)})
	case "db":
		g.db(t, d, g.wdb[r.N(len(g.wdb))])
	case "slow":
		g.ev(&Ev{T: t, K: "db", S: g.wdb[r.N(len(g.wdb))], S2: fmt.Sprintf("slow:%d", r.D(1, g.p.P["timeout"]/ms/2))})
		g.ev(&Ev{T: t + d, K: "db", S: g.wdb[r.N(len(g.wdb))], S2: "ok"})
	case "netslow":
		g.ev(&Ev{T: t, K: "netslow", A: 300, B: r.LogD(ms, 50*ms)})
		g.ev(&Ev{T: t + d, K: "netslow", A: 0})
	case "stall":
		g.ev(&Ev{T: t, K: "stall", N: r.N(len(g.kinds)), A: d})
	}
}

func (g *pipeGen) db(t, d int64, db string) {
	r := g.r
	for i, n := 0, r.R(1, 3); i < n; i++ {
		g.ev(&Ev{T: t + int64(i)*d/int64(n), K: "db", S: db, S2: r.Pick("503", "500", "400", "refuse", "drop", "drop", "stall", "part503", "silent", "silent-after", "reset-before", "reset-after",
			"close", "garbage", "slow:100", fmt.Sprintf("slow:%d", g.p.P["timeout"]/ms+100), "drip:3000", "slow503:300", "mix:ok,503,reset-after", "mix:ok,silent")})
	}
	g.ev(&Ev{T: t + d, K: "db", S: db, S2: "ok", Fixed: true})
}

// calm ends a plan: all faults are over, and everything has to work again.
func (g *pipeGen) calm(t int64) {
	p := g.p
	for i := 1; i <= p.DBs; i++ {
		g.ev(&Ev{T: t, K: "db", S: fmt.Sprintf("influx%d", i), S2: "ok", Fixed: true})
	}
	g.ev(&Ev{T: t, K: "netslow", Fixed: true})
	for k := range g.kinds {
		g.ev(&Ev{T: t, K: "start", N: k, Fixed: true})
	}
	t += recovery + 6*sec + 3*p.P["timeout"]
	for i := 0; i < 4*len(g.lst); i++ {
		g.send(t)
		t += g.r.LogD(us, sec)
	}
	p.End = t + 30*sec
}

func genC25(r *Rng, tier string) *Plan {
	g := newPipe(r, "isolation", 2)
	p := g.p
	t := 3 * sec
	bad := fmt.Sprintf("influx%d", r.R(1, p.DBs))
	fam := r.Pick("fault", "fault", "churn", "both")
	p.Family += "-" + fam
	var its []int
	for i, k := range g.wri {
		if g.wdb[i] == bad {
			its = append(its, k)
		}
	}
	if fam != "fault" && r.P(1, 2) {
		// a new backend
		for _, k := range its {
			p.Nodes[k].NoStart = true
			g.ev(&Ev{T: t + r.LogD(ms, 10*sec), K: "start", N: k, Fixed: true})
		}
	}
	for i, n := 0, r.R(1, 4); i < n; i++ {
		d := r.LogD(10*ms, 60*sec)
		m := r.PickI(5, 20, 60)
		g.traffic(t-r.D(0, 50*ms), t+d+r.D(0, 50*ms), m)
		switch {
		case fam != "churn" && r.P(1, 8):
			// nothing gets through; TCP tries less and less often
			d = r.D(31*sec, 50*sec)
			g.ev(&Ev{T: t, K: "db", S: bad, S2: "drop"})
			g.ev(&Ev{T: t + d, K: "db", S: bad, S2: "ok", Fixed: true})
		case fam != "churn":
			g.db(t, d, bad)
		}
		if fam != "fault" {
			k := its[r.N(len(its))]
			g.ev(&Ev{T: t + r.D(0, d/2), K: "kill", N: k})
			g.ev(&Ev{T: t + d + r.D(0, d), K: "start", N: k, Fixed: true})
		}
		if r.P(1, 6) {
			g.ev(&Ev{T: t + r.D(0, d), K: "cut", N: its[r.N(len(its))], S: r.Pick(bad, "nats", "*"), A: r.LogD(ms, d)})
		}
		t += d + r.LogD(10*ms, 15*sec)
	}
	for _, e := range p.Events {
		if e.K != "in" && e.T+e.A > t {
			t = e.T + e.A
		}
	}
	g.calm(t)
	return p
}

func setupPipe(w *World, prop string) {
	P, S := w.plan.P, w.plan.S
	q := &pipe{w: w, prop: prop, rules: rulesFrom(S["rules"]), of: map[int]*sink{}, by: map[string]*pline{}, timeout: P["timeout"]}
	q.hold = 2*P["age"] + 2*sec + 500*ms // listeners and writers look at the age every second
	groups := map[string]*sink{}
	for i, n := range w.plan.Nodes {
		switch {
		case strings.HasPrefix(n.Name, "udp"), strings.HasPrefix(n.Name, "http"):
			q.listeners = append(q.listeners, i)
		case strings.HasPrefix(n.Name, "filter"):
			q.filters = append(q.filters, i)
		case strings.HasPrefix(n.Name, "writer"):
			f := strings.SplitN(S[fmt.Sprintf("sink%d", i)], "|", 3)
			s := groups[f[1]]
			if s == nil {
				s = &sink{name: n.Name, db: f[0], subj: map[string]bool{}}
				for _, x := range strings.Split(f[2], ",") {
					s.subj[x] = true
				}
				groups[f[1]] = s
				q.sinks = append(q.sinks, s)
			}
			s.nodes = append(s.nodes, i)
			q.of[i] = s
		}
	}
	w.on["in"] = q.send
	q.watch()
	for _, d := range w.dbs {
		d := d
		d.onReq = append(d.onReq, func(a *Attempt) { q.attempt(d, a) })
	}
	w.onEnd = append(w.onEnd, func() {
		for _, l := range q.lines {
			if !l.judged {
				q.judge(l, true)
			}
		}
	})
}

// open notes the beginning of a trouble; the returned function ends it.
func (q *pipe) open(x *trouble) func() {
	w := q.w
	x.loss0, x.down0, x.loss1, x.down1 = w.Now(), w.Now(), never, never
	q.troubles = append(q.troubles, x)
	return func() {
		if x.down1 == never {
			x.down1 = w.Now()
		}
		if x.loss1 == never {
			x.loss1 = w.Now()
		}
	}
}

// watch notes all troubles.
func (q *pipe) watch() {
	w := q.w
	wrap := func(k string, f func(e *Ev, old func(e *Ev))) {
		old := w.on[k]
		w.on[k] = func(e *Ev) { f(e, old) }
	}
	dead := map[int]func(){}
	for i, s := range w.specs {
		i, s := i, s
		first := true
		s.onStart = func(in *Inst) {
			if dead[i] == nil && (!first || in.T0 > sec) {
				dead[i] = q.open(&trouble{node: i})
			} else if first {
				dead[i] = q.open(&trouble{node: i})
			}
			first = false
			// it is up when it has told its counters, and a moment later
			n := in.n
			var check func()
			check = func() {
				if in.dead || s.inst.n != n {
					return
				}
				if in.ready == 0 {
					w.After(100*ms, check)
					return
				}
				w.SettleAfter(100*ms, func() {
					if !in.dead && dead[i] != nil {
						dead[i]()
						dead[i] = nil
					}
				})
			}
			w.After(100*ms, check)
		}
		if w.plan.Nodes[i].NoStart {
			dead[i] = q.open(&trouble{node: i})
			first = false
		}
	}
	w.onEnd = append(w.onEnd, func() {
		for i, s := range w.specs {
			w.checks++
			if dead[i] != nil {
				w.Violate(q.prop, "down", "%s is not up at the end, long after the last fault", s.cfg.Name)
			}
		}
	})
	wrap("kill", func(e *Ev, old func(e *Ev)) {
		in := w.specs[e.N].inst
		if in != nil && !in.dead && dead[e.N] == nil {
			x := &trouble{node: e.N}
			dead[e.N] = q.open(x)
			w.SettleAfter(0, func() { x.loss1 = w.Now() })
		} else if in != nil && !in.dead {
			// killed while it was starting: what it got is lost
			x := &trouble{node: e.N}
			end := q.open(x)
			w.SettleAfter(0, end)
		}
		old(e)
	})
	link := func(k string, dur func(e *Ev) int64, node func(e *Ev) int) {
		wrap(k, func(e *Ev, old func(e *Ev)) {
			x := &trouble{node: node(e)}
			extra := int64(recovery)
			if k == "cut" && e.S != "nats" {
				// (also) its database
				x.db = ""
				extra += 2 * q.timeout
			}
			end := q.open(x)
			old(e)
			var over func()
			over = func() {
				// nobody can reconnect to a bus that is stalled
				if rest := q.stallEnd + recovery - w.Now(); rest > 0 && q.stallEnd > 0 {
					w.SettleAfter(rest, over)
					return
				}
				end()
			}
			w.SettleAfter(dur(e)+extra, over)
		})
	}
	link("busdown", func(e *Ev) int64 { return e.A }, func(e *Ev) int { return -1 })
	link("busreset", func(e *Ev) int64 { return 0 }, func(e *Ev) int { return e.N })
	link("cut", func(e *Ev) int64 { return e.A }, func(e *Ev) int { return e.N })
	wrap("busstall", func(e *Ev, old func(e *Ev)) {
		end := q.open(&trouble{node: -1, soft: true})
		if t := w.Now() + e.A; t > q.stallEnd {
			q.stallEnd = t
		}
		old(e)
		w.SettleAfter(e.A+3*sec, end)
	})
	cur := map[string]func(){}
	wrap("db", func(e *Ev, old func(e *Ev)) {
		old(e)
		ms := e.S2
		slow := strings.HasPrefix(ms, "slow:")
		var n int64
		if slow {
			fmt.Sscanf(ms[5:], "%d", &n)
			slow = n*1000000+w.slack()+200*1000000 < q.timeout
		}
		if c := cur[e.S]; c != nil {
			// what is under way now may still fail
			w.SettleAfter(2*q.timeout+sec, c)
			delete(cur, e.S)
		}
		if ms != "ok" {
			cur[e.S] = q.open(&trouble{db: e.S, node: -2, soft: slow})
		}
	})
}

func (x *trouble) at(node int) bool { return x.node == node || x.node == -1 }

// loses reports whether a place may have lost a message between two moments,
// and idle whether it may have been out of action.
func (q *pipe) loses(node int, t0, t1 int64, soft bool) bool {
	for _, x := range q.troubles {
		if x.soft == soft && x.at(node) && x.loss0 <= t1 && x.loss1 >= t0 {
			return true
		}
	}
	return false
}

func (q *pipe) idle(node int, t0, t1 int64) bool {
	for _, x := range q.troubles {
		if !x.soft && x.at(node) && x.down0 <= t1 && x.down1 >= t0 {
			return true
		}
	}
	return false
}

// group is loses for several which share the work.
func (q *pipe) group(nodes []int, t0, t1 int64) bool {
	up := false
	for _, n := range nodes {
		if q.loses(n, t0, t1, false) {
			return true
		}
		if !q.idle(n, t0, t1) {
			up = true
		}
	}
	return !up
}

func (q *pipe) dbTrouble(db string, t0, t1 int64, soft bool) bool {
	for _, x := range q.troubles {
		if x.soft == soft && x.db == db && x.loss0 <= t1 && x.loss1 >= t0 {
			return true
		}
	}
	return false
}

func (q *pipe) send(e *Ev) {
	w := q.w
	s := w.specs[e.N]
	in := s.inst
	if in == nil || in.dead {
		return
	}
	var data []byte
	var ls []*pline
	for _, l := range e.L {
		data = append(data, l.Bytes()...)
		x := &pline{T: w.Now(), lag: w.Lag(), node: e.N, line: l.Sorted(), subj: junkSubject, got: map[*sink][]*Attempt{}}
		x.size = len(x.line)
		if k := Route(q.rules, l); k >= 0 {
			x.subj = q.rules[k].Subject
		}
		ls = append(ls, x)
		q.by[string(trimNL(x.line))] = x
	}
	if e.S2 == "nonl" {
		data = trimNL(data)
		if e.S == "http" {
			ls[len(ls)-1].nonl = true
			q.unended = append(q.unended, ls[len(ls)-1])
		}
	}
	ok := true
	if e.S == "udp" {
		w.Count("datagrams", 1)
		ok = w.net.Deliver(in, 7000, data)
		if !ok && !q.loses(e.N, w.Now(), w.Now(), false) && !q.idle(e.N, w.Now(), w.Now()) && !q.loses(e.N, w.Now(), w.Now(), true) && len(in.udp) == 0 {
			w.Violate(q.prop, "deaf", "the listener %s has no socket", in.name())
		}
	} else {
		r := w.httpDo(&Ev{K: "http", N: e.N, A: 8000, S: "POST /write", Parts: [][]byte{data}}, nil)
		for _, l := range ls {
			l.req = r
		}
		w.SettleAfter(sec, func() {
			w.checks++
			t0, t1 := r.T0, w.Now()
			if r.Status != 204 && !q.loses(e.N, t0, t1, false) && !q.idle(e.N, t0, t1) && !q.loses(e.N, t0-5*sec, t1, true) {
				w.Violate(q.prop, "post", "%s answered a valid write with %d %s", in.name(), r.Status, r.Err)
			}
		})
	}
	if !ok {
		return
	}
	for _, l := range ls {
		l := l
		q.lines = append(q.lines, l)
		w.SettleAfter(q.hold, func() { q.judge(l, false) })
	}
}

// judge decides whether a line has got where it had to.
func (q *pipe) judge(l *pline, end bool) {
	w := q.w
	if l.judged {
		return
	}
	now := w.Now()
	if l.req != nil && l.req.Status != 204 {
		// not accepted (or nobody knows)
		l.judged = true
		return
	}
	if q.loses(l.node, l.T, now, false) || q.idle(l.node, l.T, now) || q.group(q.filters, l.T, now) {
		l.judged = true
		return
	}
	w.Count("followed", 1)
	late := q.loses(l.node, l.T-5*sec, now, true)
	for _, s := range q.sinks {
		if !s.subj[l.subj] {
			continue
		}
		if len(l.got[s]) > 0 {
			w.Count("arrived", 1)
			continue
		}
		w.checks++
		if q.group(s.nodes, l.T, now) || q.dbTrouble(s.db, l.T, now, false) {
			w.Count("excused", 1)
			continue
		}
		if w.Lag()-l.lag > q.timeout/3 {
			// held up so long that a write may have timed out
			w.Count("overloaded", 1)
			continue
		}
		if late || q.dbTrouble(s.db, l.T-10*sec, now, true) {
			// only late
			if !end {
				w.SettleAfter(5*sec, func() { q.judge(l, false) })
				return
			}
			if now-l.T < 25*sec {
				continue
			}
		}
		l.judged = true
		w.Violate(q.prop, "lost", "a line sent to %s at %d ms has not reached %s through %s by %d ms: %s", w.specs[l.node].cfg.Name, l.T/ms, s.db, s.name, now/ms, short(l.line))
		return
	}
	l.judged = true
	w.Count("judged", 1)
}

// attempt checks what a database gets.
func (q *pipe) attempt(d *DB, a *Attempt) {
	w := q.w
	s := q.of[a.Inst.spec.idx]
	if s == nil {
		w.Violate(q.prop, "alien", "%s writes to %s", a.Inst.name(), d.name)
		return
	}
	if d.name != s.db || a.Query.Get("db") != "db" {
		w.Violate(q.prop, "wrong-db", "%s writes to %s (%s)", a.Inst.name(), d.name, a.RawURL)
	}
	seen := map[*pline]bool{}
	for _, raw := range splitLines(a.Body) {
		w.checks++
		ls := q.find(string(trimNL(raw)))
		if len(ls) == 0 {
			w.Violate(q.prop, "corrupt", "%s gets something that nobody sent: %s", d.name, short(raw))
			return
		}
		if len(ls) > 1 {
			w.Violate(q.prop, "joined", "the last line of an HTTP write without a final newline was joined with the line after it: %s", short(raw))
		}
		for _, l := range ls {
			if !q.one(d, s, a, l, seen) {
				return
			}
		}
	}
}

// find returns the lines which make up l: one, unless lines that did not end
// in a newline have been joined with others.
func (q *pipe) find(l string) []*pline {
	if x := q.by[l]; x != nil {
		return []*pline{x}
	}
	for _, u := range q.unended {
		n := string(trimNL(u.line))
		if len(n) < len(l) && l[:len(n)] == n {
			if xs := q.find(l[len(n):]); xs != nil {
				return append([]*pline{u}, xs...)
			}
		}
	}
	return nil
}

func (q *pipe) one(d *DB, s *sink, a *Attempt, l *pline, seen map[*pline]bool) bool {
	w := q.w
	if !s.subj[l.subj] {
		w.Violate(q.prop, "misrouted", "%s gets a line for %s: %s", d.name, l.subj, short(l.line))
		return false
	}
	if seen[l] && len(w.broker.relapsed) == 0 {
		w.Violate(q.prop, "twice", "%s gets a line twice in one write: %s", d.name, short(l.line))
		return false
	}
	seen[l] = true
	for _, b := range l.got[s] {
		if b.Inst != a.Inst || string(b.Body) != string(a.Body) {
			if len(w.broker.relapsed) > 0 {
				continue
			}
			w.Violate(q.prop, "twice", "%s gets a line again in a different write: %s", d.name, short(l.line))
			return false
		}
		if b.Code >= 200 && b.Code < 300 && q.known(d, b) {
			w.Violate(q.prop, "again", "%s gets a line again although its write succeeded: %s", d.name, short(l.line))
			return false
		}
	}
	l.got[s] = append(l.got[s], a)
	return true
}

// known reports whether the writer has certainly seen the outcome of a write.
func (q *pipe) known(d *DB, a *Attempt) bool {
	w := q.w
	if a.TEnd == 0 || a.Inst.dialing(a.S0-q.timeout-w.slack(), a.S0, w.slack()) || q.loses(a.Inst.spec.idx, a.S0, a.TEnd+w.slack(), false) {
		return false
	}
	return a.TEnd-a.S0+w.slack()+(w.Lag()-a.Lag) < q.timeout && !d.resetIn(a.S0, a.TEnd+w.slack()+sec)
}
