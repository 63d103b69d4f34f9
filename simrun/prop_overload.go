package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
)

// C18: more data than a component can handle.

func init() {
	register(&Prop{ID: "C18", Gen: genC18, Setup: setupC18})
}

type oline struct {
	m    *omsg
	out  int
	want []byte
	subj string
}

// omsg is one message sent to a component.
type omsg struct {
	T, lag int64
	subj   string
	size   int
	lines  []*oline
	n      int   // lines that have come out
	first  int64 // when
	last   int64
}

type overload struct {
	w     *World
	prop  string
	kind  string
	msgs  []*omsg
	by    map[string]*oline
	marks []omark
	id    int
	big   map[string]int
}

// omark is a moment at which the backlog is looked at.
type omark struct {
	t   int64
	lag int64
	cut map[string]int // messages of the subject that had certainly arrived
}

func genC18(r *Rng, tier string) *Plan {
	if r.P(1, 400) {
		return genSwarm(r, r.Pick("filter", "writer"))
	}
	return genOverload(r)
}

func genOverload(r *Rng) *Plan {
	kind := r.Pick("filter", "filter", "writer", "writer", "ds")
	p := &Plan{Family: "overload-" + kind, Sched: genSched(r, schedOpt{maxPause: 5 * ms}), Net: genNet(r), S: map[string]string{"kind": kind}, P: map[string]int64{}}
	p.Epoch = 1600000000*sec + r.D(0, 100000000*sec)
	if p.Net.SegMax > 0 && p.Net.SegMax < 1000 {
		p.Net.SegMax = 1000 // there are megabytes to be carried
	}
	p.Net.Win = r.PickI(4096, 16384, 65536)
	p.Sched.MaxPicks *= 6
	limit := int64(r.PickI(1000, 4096, 20000, 64<<10, 64<<10, 200<<10))
	workers := int64(r.R(1, 4))
	period := r.PickD(20*sec, 30*sec)
	subj := "in"
	subjects := []string{"in"}
	name := kind
	patient := true
	every := r.PickD(sec, 3*sec)
	c := newConf(map[string]string{"filter": "filter", "writer": "writer", "ds": "downsampler"}[kind], name)
	c.d("stats_interval", every).raw(fmt.Sprintf("nats_max_pending_size = \"%dB\"\n", limit))
	switch kind {
	case "filter":
		c.subjects("in").i("workers", workers)
		c.raw("[[rule]]\ntype = \"basic\"\nmatch = \"a\"\nsubject = \"out\"\n")
	case "writer":
		subjects = []string{"in", "in2"}[:r.R(1, 2)]
		bm := int64(r.PickI(500, 5000, 50000))
		p.P["batch"] = bm
		p.P["timeout"] = 500 * ms
		c.subjects(subjects...).i("workers", workers).s("influxdb_address", "influx1").s("influxdb_dbname", "db0")
		// Writes which time out have to be seen by the database: they must
		// not time out for another reason.
		patient = r.P(1, 2)
		wt := int64(500 * ms)
		if patient {
			wt = 60 * sec
		}
		c.i("batch_max_count", int64(r.PickI(1, 5, 50))).raw(fmt.Sprintf("batch_max_size = \"%dB\"\n", bm)).d("batch_max_age", r.PickD(50*ms, sec)).d("write_timeout", wt).i("writer_retry_batches", 0)
		p.DBs = 1
	case "ds":
		subjects = []string{"in", "in2"}[:r.R(1, 2)]
		c.subjects(subjects...).d("downsample_period", period).s("downsample_suffix", "-ds")
		workers = 1
	}
	p.P["limit"], p.P["workers"], p.P["period"] = limit, workers, period
	p.Nodes = append(p.Nodes, NodeCfg{Name: name, Conf: c.String()})
	ev := func(e *Ev) { p.Events = append(p.Events, e) }
	t := 2 * sec
	total := 0
	budget := r.PickI(500, 1500, 3000, 4500)
	for i, n := 0, r.R(1, 4); i < n && total < budget; i++ {
		// what holds it up
		d := r.LogD(10*ms, 10*sec)
		switch r.N(6) {
		case 0:
			if patient {
				ev(&Ev{T: t, K: "stall", A: d})
			}
		case 1, 2:
			if kind == "writer" {
				how := r.Pick("slow:300", "slow:50", "slow:3000", "mix:ok,slow:100,503")
				if !patient {
					how = r.Pick("slow:200", "slow:50", "silent", "silent", "mix:ok,silent,503")
				}
				ev(&Ev{T: t, K: "db", S: "influx1", S2: how})
				ev(&Ev{T: t + d, K: "db", S: "influx1", S2: "ok", Fixed: true})
				break
			}
			ev(&Ev{T: t, K: "busstall", A: d})
		case 3:
			ev(&Ev{T: t, K: "busstall", A: d})
		case 4:
			if !patient {
				break
			}
			ev(&Ev{T: t, K: "netslow", A: 300, B: r.LogD(ms, 200*ms)})
			ev(&Ev{T: t + d, K: "netslow", A: 0})
		}
		if r.P(1, 2) {
			for k := r.R(1, 3); k > 0; k-- {
				ev(&Ev{T: t + r.LogD(us, d), K: "hold", A: r.LogD(100*ms, 5*sec)})
			}
		}
		if r.P(1, 2) {
			subj = subjects[r.N(len(subjects))]
		}
		for j, m := 0, r.R(1, 3); j < m; j++ {
			k := r.R(1, budget/2)
			size := int64(r.PickI(40, 100, 100, 300, 1000, int(limit/3), int(limit+10)))
			if bm := p.P["batch"]; bm > 0 && size > bm {
				size = bm // longer lines are cut
			}
			if kind == "ds" && size > 2000 {
				size = 2000 // a message has to be handled within a period
			}
			if size*int64(k) > 2<<20 {
				k = int(2 << 20 / size)
			}
			total += k
			gap := r.PickD(0, us, 20*us, 200*us)
			ev(&Ev{T: t + r.D(0, d), K: "burst", S: subj, A: gap, B: size, N: k, S2: r.Pick("", "multi")})
		}
		t += d
		if r.P(2, 3) {
			t += r.LogD(100*ms, 10*sec)
		}
		ev(&Ev{T: t, K: "burst", S: subj, A: sec / 10, B: 60, N: r.R(1, 5)})
	}
	t += 20 * sec
	ev(&Ev{T: t, K: "burst", S: "in", A: sec / 10, B: 60, N: 3})
	p.End = t + 20*sec + 2*period + 2*every
	return p
}

// genSwarm makes more small messages wait than the bus client would hold if it
// counted them.
func genSwarm(r *Rng, kind string) *Plan {
	p := &Plan{Family: "overload-swarm", Sched: genSched(r, schedOpt{}), Net: NetCfg{LatMin: 20 * us, LatMax: 300 * us, Win: 65536}, S: map[string]string{"kind": kind}, P: map[string]int64{}}
	p.Epoch = 1600000000*sec + r.D(0, 100000000*sec)
	p.Sched.MaxPicks *= 60
	p.P["limit"], p.P["workers"] = 20<<20, 1
	c := newConf(kind, kind).d("stats_interval", sec).raw("nats_max_pending_size = \"20MB\"\n").subjects("in").i("workers", 1)
	if kind == "filter" {
		c.raw("[[rule]]\ntype = \"basic\"\nmatch = \"a\"\nsubject = \"out\"\n")
	} else {
		p.P["batch"], p.P["timeout"] = 100000, 500*ms
		c.s("influxdb_address", "influx1").s("influxdb_dbname", "db0").i("batch_max_count", 10000).raw("batch_max_size = \"100000B\"\n").d("batch_max_age", sec).d("write_timeout", 60*sec).i("writer_retry_batches", 0)
		p.DBs = 1
	}
	p.Nodes = append(p.Nodes, NodeCfg{Name: kind, Conf: c.String()})
	t, d := 2*sec, 20*sec
	if kind == "filter" {
		p.Events = append(p.Events, &Ev{T: t, K: "busstall", A: d})
	} else {
		p.Events = append(p.Events, &Ev{T: t, K: "db", S: "influx1", S2: "slow:20000"}, &Ev{T: t + d/2, K: "db", S: "influx1", S2: "ok"})
	}
	p.Events = append(p.Events, &Ev{T: t + 100*ms, K: "burst", S: "in", B: 40, N: r.R(85000, 90000)})
	t += d + 30*sec
	p.Events = append(p.Events, &Ev{T: t, K: "burst", S: "in", A: sec / 10, B: 60, N: 3})
	p.End = t + 22*sec
	return p
}

func setupC18(w *World) { setupOverload(w, "C18") }

func setupOverload(w *World, prop string) {
	o := &overload{w: w, prop: prop, kind: w.plan.S["kind"], by: map[string]*oline{}, big: map[string]int{}}
	w.on["burst"] = func(e *Ev) {
		left := e.N
		var next func()
		next = func() {
			for left > 0 {
				left--
				o.send(e)
				if e.A > 0 {
					w.After(e.A, next)
					return
				}
			}
		}
		next()
		o.mark()
	}
	w.broker.onPub = append(w.broker.onPub, func(p *Pub) {
		if p.Inst == nil || p.Subject == monSubject {
			return
		}
		o.saw(p.Subject, p.Data)
	})
	if len(w.dbs) > 0 {
		w.dbs[0].onReq = append(w.dbs[0].onReq, func(a *Attempt) { o.saw("db", a.Body) })
	}
	var tick func()
	tick = func() { o.mark(); w.After(300*ms, tick) }
	w.After(2*sec, tick)
	w.onEnd = append(w.onEnd, o.end)
}

func (o *overload) send(e *Ev) {
	w := o.w
	m := &omsg{T: w.Now(), lag: w.netLag(), subj: e.S}
	n := 1
	if e.S2 == "multi" {
		n = 1 + o.id%4
	}
	var data []byte
	for i := 0; i < n; i++ {
		o.id++
		meas := "ab"[o.id%2 : o.id%2+1]
		l := fmt.Sprintf("%s,k=%d", meas, o.id)
		if pad := int(e.B)/n - len(l) - 10; pad > 0 {
			l += strings.Repeat("x", pad)
		}
		l += " v=7i\n"
		x := &oline{m: m, want: []byte(l)}
		switch o.kind {
		case "filter":
			x.subj = map[string]string{"a": "out", "b": junkSubject}[meas]
		case "writer":
			x.subj = "db"
		case "ds":
			x.subj = e.S + "-ds"
		}
		o.by[l] = x
		m.lines = append(m.lines, x)
		data = append(data, l...)
	}
	m.size = len(data)
	if m.size > o.big[e.S] {
		o.big[e.S] = m.size
	}
	p := w.broker.Publish(e.S, data)
	if len(p.To) == 0 {
		for _, x := range m.lines {
			delete(o.by, string(x.want))
		}
		return
	}
	o.msgs = append(o.msgs, m)
}

// violate reports a violation; for C17 only the counters matter.
func (o *overload) violate(kind, f string, a ...interface{}) {
	if o.prop == "C18" || kind == "count" {
		o.w.Violate(o.prop, kind, f, a...)
	}
}

// reported are the counts of dropped messages that were published, with the
// time that they are said to be of.
func (o *overload) reported(in *Inst, subj string) (out [][2]int64) {
	for _, p := range o.w.broker.pubs {
		if p.Inst != in || p.Subject != monSubject || !bytes.Contains(p.Data, []byte("nats_dropped")) {
			continue
		}
		for _, l := range strings.Split(strings.TrimSpace(string(p.Data)), "\n") {
			if s, err := parseSample(l); err == nil && s.Name == "nats_dropped" && (o.kind == "filter" || s.Labels["subject"] == subj) {
				out = append(out, [2]int64{s.Milli*ms - o.w.plan.Epoch, s.Value})
			}
		}
	}
	return
}

// taken checks the backlog of a downsampler, by its own count of the messages
// it has taken: what has arrived, was not dropped and is not counted waits.
func (o *overload) taken(in *Inst, bySubj map[string][]*omsg, limit int) {
	bound := 0
	for _, msgs := range bySubj {
		bound += limit + maxSum(msgs, 1024+1+2)
	}
	k := 0
	for _, p := range o.w.broker.pubs {
		if p.Inst != in || p.Subject != monSubject {
			continue
		}
		for _, l := range splitLines(p.Data) {
			s, err := parseSample(string(trimNL(l)))
			if err != nil || s.Name != "received" {
				continue
			}
			t := s.Milli*ms - o.w.plan.Epoch
			for k+1 < len(o.marks) && o.marks[k+1].t <= t {
				k++
			}
			if k >= len(o.marks) || o.marks[k].t > t {
				continue
			}
			var sizes []int
			for subj, msgs := range bySubj {
				for _, m := range msgs[:o.marks[k].cut[subj]] {
					if m.n > 0 {
						sizes = append(sizes, m.size)
					}
				}
			}
			n := len(sizes) - int(s.Value)
			if n <= 0 {
				continue
			}
			sort.Ints(sizes)
			held := 0
			for _, z := range sizes[:n] {
				held += z
			}
			o.w.checks++
			if held > o.w.most {
				o.w.most = held
			}
			if held > bound {
				o.violate("backlog", "at %d ms at least %d bytes (%d messages) wait, beyond the limit of %d and all that the queues can hold (%d)", t/ms, held, n, limit, bound)
				return
			}
		}
	}
}

// maxSum is the size of the n largest messages that came out.
func maxSum(msgs []*omsg, n int) (sum int) {
	var sizes []int
	for _, m := range msgs {
		if m.n > 0 {
			sizes = append(sizes, m.size)
		}
	}
	sort.Sort(sort.Reverse(sort.IntSlice(sizes)))
	for i := 0; i < len(sizes) && i < n; i++ {
		sum += sizes[i]
	}
	return
}

// lagIn bounds the delays between two moments.
func (o *overload) lagIn(a, b int64) int64 {
	l0, l1 := int64(0), o.w.Lag()
	for _, k := range o.marks {
		if k.t <= a {
			l0 = k.lag
		}
		if k.t >= b {
			l1 = k.lag
			break
		}
	}
	return l1 - l0
}

// prompt checks that what has been dropped is reported the next time: a
// message has been dropped once a later one comes out.
func (o *overload) prompt(in *Inst, subj string, msgs []*omsg) {
	type pass struct {
		t int64
		n int64 // messages dropped before
	}
	var ps []pass
	n := int64(0)
	for _, m := range msgs {
		if m.n == 0 {
			n++
		} else {
			ps = append(ps, pass{m.first, n})
		}
	}
	for _, r := range o.reported(in, subj) {
		o.w.checks++
		for _, p := range ps {
			if p.t+2*o.w.slack()+ms < r[0] && p.n > r[1] && p.t+2*o.w.slack()+ms+o.lagIn(p.t, r[0]) < r[0] {
				o.violate("count", "%d messages on %s had been dropped by %d ms, but only %d are reported for %d ms", p.n, subj, p.t/ms, r[1], r[0]/ms)
				return
			}
		}
	}
}

func (o *overload) mark() {
	w := o.w
	k := omark{t: w.Now(), lag: w.Lag(), cut: map[string]int{}}
	n := map[string]int{}
	lag := w.netLag()
	for _, m := range o.msgs {
		n[m.subj]++
		if k.t-m.T-(lag-m.lag) > w.slack() {
			k.cut[m.subj] = n[m.subj]
		}
	}
	o.marks = append(o.marks, k)
}

func (o *overload) saw(subj string, data []byte) {
	w := o.w
	for _, l := range splitLines(data) {
		w.checks++
		key := l
		if o.kind == "ds" {
			i := bytes.LastIndexByte(l, ' ')
			if i < 0 {
				i = 0
			}
			key = append(append([]byte(nil), l[:i]...), '\n')
		}
		x := o.by[string(key)]
		switch {
		case x == nil:
			o.violate("corrupt", "something that was not sent comes out on %s: %s", subj, short(l))
			return
		case x.subj != subj:
			o.violate("misrouted", "%s comes out on %s instead of %s", short(l), subj, x.subj)
			return
		}
		x.out++
		if x.out > 1 {
			o.violate("twice", "a line comes out twice: %s", short(l))
			return
		}
		x.m.n++
		x.m.last = w.Now()
		if x.m.first == 0 {
			x.m.first = w.Now()
		}
	}
}

func (o *overload) end() {
	w := o.w
	limit := int(w.plan.P["limit"])
	workers := int(w.plan.P["workers"])
	in := w.specs[0].inst
	if in == nil || in.dead {
		return
	}
	bySubj := map[string][]*omsg{}
	for _, m := range o.msgs {
		if m.n != 0 && m.n != len(m.lines) {
			o.violate("part", "%d of %d lines of a message on %s came out", m.n, len(m.lines), m.subj)
			return
		}
		bySubj[m.subj] = append(bySubj[m.subj], m)
	}
	total := int64(0)
	var subjects []string
	for s := range bySubj {
		subjects = append(subjects, s)
	}
	sort.Strings(subjects)
	if o.kind == "ds" {
		o.taken(in, bySubj, limit)
	}
	for _, s := range subjects {
		msgs := bySubj[s]
		dropped := int64(0)
		// Drops: only if all that was waiting exceeds the limit.
		type exit struct {
			t int64
			n int
		}
		var exits []exit
		for _, m := range msgs {
			if m.n > 0 {
				exits = append(exits, exit{m.last, m.size})
			}
		}
		sort.Slice(exits, func(i, j int) bool { return exits[i].t < exits[j].t })
		inn, out, k := 0, 0, 0
		for _, m := range msgs {
			for k < len(exits) && exits[k].t < m.T {
				out += exits[k].n
				k++
			}
			w.checks++
			if m.n > 0 {
				inn += m.size
				continue
			}
			dropped++
			if o.kind != "ds" && inn-out+m.size <= limit {
				o.violate("early", "a message of %d bytes at %d ms was dropped with %d bytes waiting, within the limit of %d", m.size, m.T/ms, inn-out, limit)
				return
			}
			if o.kind == "ds" && inn+m.size <= limit {
				o.violate("early", "a message of %d bytes at %d ms was dropped after %d bytes, within the limit of %d", m.size, m.T/ms, inn, limit)
				return
			}
		}
		if dropped > 0 {
			w.Fault("overload_drop")
		}
		w.Count("dropped", int(dropped))
		total += dropped
		o.prompt(in, s, msgs)
		key := "nats_dropped"
		if o.kind != "filter" {
			if v, ok := w.lastStatOf(in, key, "subject", s); !ok || v != dropped {
				o.violate("count", "%d messages on %s were dropped, but %d reported", dropped, s, v)
			}
		} else if v, ok := w.lastStat(in, key); !ok || v != dropped {
			o.violate("count", "%d messages were dropped, but %d reported", dropped, v)
		}
		if o.kind == "ds" {
			continue
		}
		// The backlog: what has arrived and not come out.
		bound := limit + maxSum(msgs, 1024+workers+2)
		switch o.kind {
		case "filter":
			bound += workers * (w.plan.Net.Win + 100<<10)
		case "writer":
			bound += 2 * workers * (int(w.plan.P["batch"]) + o.big[s])
		}
		for _, mk := range o.marks {
			held := 0
			for _, m := range msgs[:mk.cut[s]] {
				if m.n > 0 && m.last > mk.t {
					held += m.size
				}
			}
			if held > w.most {
				w.most = held
			}
			if held > bound {
				o.violate("backlog", "at %d ms %d bytes from %s wait, beyond the limit of %d and all that its queue can hold (%d)", mk.t/ms, held, s, limit, bound)
				return
			}
		}
	}
}

// lastStatOf is the value of an instance's metric with some label as it was
// published last.
func (w *World) lastStatOf(in *Inst, name, label, val string) (v int64, ok bool) {
	for _, p := range w.broker.pubs {
		if p.Inst != in || p.Subject != monSubject || !bytes.Contains(p.Data, []byte(name)) {
			continue
		}
		for _, l := range strings.Split(strings.TrimSpace(string(p.Data)), "\n") {
			if s, err := parseSample(l); err == nil && s.Name == name && s.Labels[label] == val {
				v, ok = s.Value, true
			}
		}
	}
	return
}
