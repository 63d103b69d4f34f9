package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// C17: the counters that components publish about themselves.

func init() {
	register(&Prop{ID: "C17", Gen: genC17, Setup: setupC17})
}

// counter is what is known about one counter of one instance: how many events
// it may have counted (each from its time on), and how many it must have.
type counter struct {
	hi, lo cum
	last   int64
	seen   bool
}

type statInst struct {
	in     *Inst
	c      map[string]*counter
	rounds []statRound
	round  map[string]bool
}

type statRound struct {
	t, lag int64 // when it arrived
	ms     int64
}

type statModel struct {
	w      *World
	prop   string
	insts  map[*Inst]*statInst
	clocks *clockLog
	kind   map[int]string // component of each node
	label  map[int]map[string]string
	every  map[int]int64
	sub    map[int]map[string]string // counter with a label of its own: the label
	series map[int][]string          // keys of each round
	lossy  bool                      // rounds may be lost
}

func (w *World) statModel(prop string) *statModel {
	m := &statModel{w: w, prop: prop, insts: map[*Inst]*statInst{}, clocks: w.watchClocks(), kind: map[int]string{},
		label: map[int]map[string]string{}, every: map[int]int64{}, sub: map[int]map[string]string{}, series: map[int][]string{}}
	w.broker.onPub = append(w.broker.onPub, m.onPub)
	w.onEnd = append(w.onEnd, m.end)
	return m
}

func (m *statModel) inst(in *Inst) *statInst {
	s := m.insts[in]
	if s == nil {
		s = &statInst{in: in, c: map[string]*counter{}}
		m.insts[in] = s
	}
	return s
}

func (m *statModel) counter(in *Inst, key string) *counter {
	s := m.inst(in)
	c := s.c[key]
	if c == nil {
		c = &counter{}
		s.c[key] = c
	}
	return c
}

// count notes n events which must all be counted.
func (m *statModel) count(in *Inst, key string, n int) {
	c := m.counter(in, key)
	c.hi.add(m.w, int64(n))
	c.lo.add(m.w, int64(n))
}

func (m *statModel) onPub(p *Pub) {
	w := m.w
	if p.Inst == nil || p.Subject != monSubject {
		return
	}
	in := p.Inst
	n := in.spec.idx
	st := m.inst(in)
	for _, l := range strings.Split(strings.TrimSuffix(string(p.Data), "\n"), "\n") {
		s, err := parseSample(l)
		if err != nil {
			w.Violate(m.prop, "format", "%s publishes an invalid metric %q: %v", in.name(), l, err)
			return
		}
		key := s.Name
		want := map[string]string{"component": m.kind[n], "name": m.label[n]["name"], "host": "simhost"}
		for k, v := range m.label[n] {
			want[k] = v
		}
		if own := m.sub[n][s.Name]; own != "" {
			want[own] = s.Labels[own]
			key += "|" + s.Labels[own]
		}
		w.checks++
		if fmt.Sprint(want) != fmt.Sprint(s.Labels) {
			w.Violate(m.prop, "labels", "%s labels %s with %v instead of %v", in.name(), s.Name, s.Labels, want)
			return
		}
		known := false
		for _, k := range m.series[n] {
			known = known || k == key
		}
		if !known {
			w.Violate(m.prop, "series", "%s publishes an unknown counter %s", in.name(), s.Raw)
			return
		}
		m.sample(st, key, s)
	}
}

// sample checks one value.
func (m *statModel) sample(st *statInst, key string, s *Sample) {
	w, in := m.w, st.in
	// rounds
	// where a part of a round was lost, the stamp tells the rounds apart
	part := m.lossy && len(st.rounds) > 0 && s.Milli != st.rounds[len(st.rounds)-1].ms
	if st.round == nil || st.round[key] || part {
		m.complete(st)
		st.round = map[string]bool{}
		r := statRound{w.Now(), w.Lag(), s.Milli}
		every := m.every[in.spec.idx]
		if k := len(st.rounds); k > 0 && !m.lossy {
			l := st.rounds[k-1]
			// the last round may have been held up on its way to the bus
			late := l.lag - in.lag0
			if k > 3 {
				late = l.lag - st.rounds[k-4].lag
			}
			if gap := r.t - l.t; gap > every+w.slack()+(r.lag-l.lag) || gap < every-w.slack()-(r.lag-l.lag)-late {
				w.Violate(m.prop, "interval", "%s published its counters %d ms after the last time instead of %d", in.name(), gap/ms, every/ms)
			}
		} else if k == 0 && !m.lossy && in.ready != 0 && r.t-in.ready > sec+w.slack()+(r.lag-in.lag0) {
			w.Violate(m.prop, "start", "%s published its counters only %d ms after it was started", in.name(), (r.t-in.ready)/ms)
		}
		st.rounds = append(st.rounds, r)
	}
	st.round[key] = true
	r := &st.rounds[len(st.rounds)-1]
	if s.Milli != r.ms {
		w.Violate(m.prop, "timestamp", "%s stamps %s with %d and others of the round with %d", in.name(), key, s.Milli, r.ms)
	}
	// the timestamp
	t0 := w.Now() - 2*w.slack() - w.Lag() + in.lag0
	if t0 < in.T0 {
		t0 = in.T0
	}
	if k := len(st.rounds); k > 1 {
		if x := w.Now() - 2*w.slack() - (w.Lag() - st.rounds[k-2].lag); x > t0 {
			t0 = x
		}
	}
	ok := m.lossy
	for _, p := range m.clocks.Walls(in, t0, w.Now()) {
		ok = ok || s.Milli >= p[0]/ms-1 && s.Milli <= p[1]/ms+1
	}
	if !s.HasTs || !ok {
		w.Violate(m.prop, "timestamp", "%s published %s at %d", in.name(), s.Raw, w.epochNow()/ms)
	}
	// the value
	c := m.counter(in, key)
	w.checks++
	if c.seen && s.Value < c.last {
		w.Violate(m.prop, "decrease", "%s of %s fell from %d to %d", key, in.name(), c.last, s.Value)
	}
	c.seen, c.last = true, s.Value
	extra := w.slack()
	if m.lossy {
		extra += 1 << 61
	}
	if lo := c.lo.before(w, extra); s.Value < lo {
		w.Violate(m.prop, "low", "%s of %s is %d, but there were at least %d by then", key, in.name(), s.Value, lo)
	}
	// what happened before it may only become known later
	t := w.Now()
	if (key == "write_requests" || key == "failed_writes") && (w.plan.P["drop"] == 1 || w.Lag()-in.lag0+w.slack() > w.plan.P["timeout"]/2) {
		// attempts may end before they reach the database, and share
		// connection attempts
		return
	}
	w.Settle(func() {
		if w.plan.P["outage"] == 1 {
			return // some events are only known from what is published
		}
		if in.dead && in.T1-t < 500*ms+w.slack()+(w.Lag()-in.lag0) {
			return // messages it had counted may have died with it
		}
		if hi := c.hi.at(t); s.Value > hi {
			w.Violate(m.prop, "high", "%s of %s was %d at %d ms, but there were at most %d by then", key, in.name(), s.Value, t/ms, hi)
		}
	})
}

func (m *statModel) complete(st *statInst) {
	if st.round == nil || m.w.plan.P["outage"] == 1 {
		return
	}
	for _, k := range m.series[st.in.spec.idx] {
		if !st.round[k] {
			m.w.Violate(m.prop, "series", "%s did not publish %s", st.in.name(), k)
			return
		}
	}
}

func (m *statModel) end() {
	w := m.w
	for _, s := range w.specs {
		for _, in := range s.insts {
			if m.kind[s.idx] == "" || in.dead {
				continue
			}
			st := m.inst(in)
			every := m.every[s.idx]
			var last statRound
			if len(st.rounds) > 0 {
				last = st.rounds[len(st.rounds)-1]
			} else {
				last = statRound{t: in.T0 + sec, lag: in.lag0}
			}
			if w.Now()-last.t > every+w.slack()+(w.Lag()-last.lag) {
				w.Violate(m.prop, "interval", "%s has not published its counters for %d ms", in.name(), (w.Now()-last.t)/ms)
			}
		}
	}
}

// at is the count at some time.
func (c *cum) at(t int64) int64 {
	i := sort.Search(len(c.t), func(i int) bool { return c.t[i] > t })
	if i == 0 {
		return 0
	}
	return c.n[i-1]
}

// addAt inserts events that happened earlier.
func (c *cum) addAt(t, n int64) {
	i := sort.Search(len(c.t), func(i int) bool { return c.t[i] > t })
	var b int64
	if i > 0 {
		b = c.n[i-1]
	}
	c.t = append(c.t, 0)
	c.n = append(c.n, 0)
	c.lag = append(c.lag, 0)
	copy(c.t[i+1:], c.t[i:])
	copy(c.n[i+1:], c.n[i:])
	copy(c.lag[i+1:], c.lag[i:])
	c.t[i], c.n[i] = t, b
	for ; i < len(c.n); i++ {
		c.n[i] += n
	}
}

func genC17(r *Rng, tier string) *Plan {
	if r.P(1, 40) {
		return genOverload(r)
	}
	fam := r.Pick("udp", "http", "filter", "filter", "ds", "writer", "writer", "all")
	p := &Plan{Family: "stats-" + fam, Sched: genSched(r, schedOpt{maxPause: 30 * ms}), Net: genNet(r), S: map[string]string{}, P: map[string]int64{}}
	p.Epoch = 1600000000*sec + r.D(0, 100000000*sec)
	rules := genRules(r, r.N(6))
	if len(rules) > 1 && r.P(1, 3) {
		// rules may share a subject
		rules[r.N(len(rules))].Subject = rules[r.N(len(rules))].Subject
	}
	p.S["rules"] = rulesJSON(rules)
	maxDelta := r.PickD(60*sec, 600*sec)
	p.P["max"] = maxDelta
	every := r.PickD(500*ms, sec, 3*sec, 3*sec, 10*sec)
	if fam == "all" && every < sec {
		every = 3 * sec
	}
	if fam != "all" && fam != "writer" && r.P(1, 5) {
		// the bus accepts no more than this, so publishing may fail
		p.P["maxpay"] = 4000
	}
	batch := func() batchCfg {
		b := genBatchCfg(r)
		if p.P["maxpay"] != 0 {
			b.count, b.size = 1, mega
		}
		return b
	}
	add := func(k, mode string, f func(c *conf)) {
		name := r.Pick("", k+"-1", "node "+k, `we"ird\`+k, "é,x="+k)
		c := newConf(mode, name)
		if name == "" {
			name = k // the name of its file
		}
		p.S["name:"+k] = name
		if every != 3*sec {
			c.d("stats_interval", every)
		}
		f(c)
		p.Nodes = append(p.Nodes, NodeCfg{Name: k, Conf: c.String()})
	}
	p.P["every"] = every
	for _, k := range []string{"udp", "http", "filter", "ds", "writer"} {
		if k != fam && fam != "all" {
			continue
		}
		switch k {
		case "udp":
			add(k, "listener", func(c *conf) { c.subjects("u").i("port", 7000); batch().put(c) })
		case "http":
			add(k, "listener_http", func(c *conf) { c.subjects("h").i("port", httpPort); batch().put(c) })
		case "filter":
			add(k, "filter", func(c *conf) {
				c.subjects("in").i("workers", int64(r.R(1, 6))).d("max_time_delta", maxDelta)
				if r.P(1, 4) {
					c.raw("debug = true\n")
				}
				for _, ru := range rules {
					c.rule(ru)
				}
			})
		case "ds":
			add(k, "downsampler", func(c *conf) {
				c.subjects("ds", "ds2").d("downsample_period", r.PickD(10*sec, 20*sec, 60*sec))
			})
		case "writer":
			to := r.PickD(100*ms, 400*ms, 2*sec)
			p.P["timeout"] = to
			add(k, "writer", func(c *conf) {
				c.subjects("w", "w2").s("influxdb_address", "influx1").s("influxdb_dbname", r.Pick("db0", "db0", `d"b`)).i("workers", int64(r.R(1, 3)))
				c.i("batch_max_count", int64(r.PickI(1, 1, 3, 20))).d("batch_max_age", r.PickD(50*ms, 300*ms, sec)).s("batch_max_size", r.Pick("200B", "1KB", "1MB"))
				c.d("write_timeout", to).i("writer_retry_batches", int64(r.PickI(0, 1, 3, 10))).d("writer_retry_interval", r.PickD(20*ms, 100*ms, sec)).d("writer_retry_timeout", r.PickD(200*ms, 2*sec, 10*sec))
			})
			p.DBs = 1
		}
	}
	ev := func(e *Ev) { p.Events = append(p.Events, e) }
	node := map[string]int{}
	for i, n := range p.Nodes {
		node[n.Name] = i
	}
	t := 2 * sec
	id, nbig := 0, 0
	mode := "ok"
	alwaysDown := ""
	if fam == "writer" && r.P(1, 5) {
		alwaysDown = r.Pick("refuse", "drop")
		p.P["down"] = 1
		if alwaysDown == "drop" {
			p.P["drop"] = 1
		}
		ev(&Ev{T: ms, K: "db", S: "influx1", S2: alwaysDown, Fixed: true})
	}
	n := r.R(3, 60)
	gap := r.PickD(ms, 20*ms, 300*ms)
	for i := 0; i < n && t < 60*sec; i++ {
		t += r.LogD(us, gap)
		k := p.Nodes[r.N(len(p.Nodes))].Name
		e := &Ev{T: t, K: "stat", N: node[k], S: k}
		for j, c := 0, r.R(1, 5); j < c; j++ {
			id++
			l := genLine(r, id, "")
			switch k {
			case "filter":
				switch r.N(8) {
				case 0:
					l = &Line{Raw: []byte(fmt.Sprintf(r.Pick("bad%d,host x=1i", "bad%d,host= ,x", "bad%d,b=1,a", "bad%d,=v x=1i"), id))}
				case 1:
					l.Ts = fmt.Sprint(p.Epoch + t + r.PickD(-1, 1)*(2*maxDelta+r.D(120*sec, 1000*sec)))
				case 2:
					l.Ts = fmt.Sprint(p.Epoch + t)
				}
			case "ds":
				l = &Line{Meas: fmt.Sprintf("m%d", id%5), Tags: []KV{{"k", fmt.Sprint(id % 3)}}, Fields: fmt.Sprintf("v=%di", id)}
				switch r.N(6) {
				case 0:
					l.Ts = fmt.Sprint(p.Epoch + t + r.PickD(-1, 1)*r.D(1000*sec, 10000*sec))
				case 1:
					l.Fields = r.Pick("v=", "v=,", `v="abc`, "novalue")
				}
			}
			e.L = append(e.L, l)
		}
		switch {
		case k == "ds" && r.P(1, 2):
			e.S2 = "ds2"
		case k == "writer" && r.P(1, 2):
			e.S2 = "w2"
		case k == "http" && r.P(1, 8):
			e.S2 = r.Pick("abort", "half")
		case k == "http" && r.P(1, 8):
			e.S2 = r.Pick("chunked", "empty", "precision")
		}
		if p.P["maxpay"] != 0 && (k != "ds" && r.P(1, 4) || k == "ds" && nbig == 0 && r.P(1, 4)) {
			nbig++
			e.A = 1
			l := e.L[0]
			switch k {
			case "filter":
				id++
				l = genLine(r, id, "")
			case "ds":
				l = &Line{Meas: "big", Fields: "v=1i"}
			}
			l.Fields += fmt.Sprintf(",big=\"%s\"", strings.Repeat("b", int(r.LogD(4200, 12000))))
			e.L = []*Line{l}
		}
		ev(e)
		if r.P(1, 15) {
			switch k {
			case "udp":
				ev(&Ev{T: t + r.LogD(us, sec), K: "udperr", N: node[k]})
			case "writer":
				if alwaysDown == "" {
					if mode == "ok" || r.P(1, 2) {
						mode = r.Pick("503", "400", "mix:ok,503", "mix:ok,400,503", "slow:20", "slow503:30", "part503", "silent", "silent-after", "reset-before", "reset-after", "close", "refuse", "drop", "mix:ok,silent,reset-before")
						if mode == "refuse" || mode == "drop" {
							p.P["sometimes"] = 1
						}
						if mode == "drop" {
							p.P["drop"] = 1
						}
					} else {
						mode = "ok"
					}
					ev(&Ev{T: t + r.LogD(us, sec), K: "db", S: "influx1", S2: mode})
					p.P["bad"] = 1
				}
			}
			if r.P(1, 3) {
				ev(&Ev{T: t + r.LogD(us, sec), K: "stall", N: node[k], A: r.LogD(ms, 8*sec)})
			}
			if r.P(1, 4) && k != "filter" && k != "ds" {
				ev(&Ev{T: t + r.LogD(us, sec), K: "clock", N: node[k], A: r.D(-500*sec, 500*sec)})
			}
			if r.P(1, 4) {
				t += 2 * sec
				ev(&Ev{T: t, K: "kill", N: node[k]})
				ev(&Ev{T: t + 50*ms, K: "start", N: node[k]})
				t += 3 * sec
			}
		}
		if r.P(1, 20) {
			t += r.LogD(ms, 3*every)
		}
	}
	if mode == "ok" && p.P["bad"] == 0 && alwaysDown == "" {
		p.P["fine"] = 1
	}
	p.P["calm"] = t + 18*sec
	if p.P["bad"] == 1 {
		ev(&Ev{T: t + 1500*ms, K: "db", S: "influx1", S2: "ok", Fixed: true})
	}
	p.End = t + 25*sec + 2*every
	if nbig > 0 && fam == "ds" {
		p.End += 122 * sec
	}
	kills := false
	for _, e := range p.Events {
		kills = kills || e.K == "kill"
	}
	if !kills && p.P["maxpay"] == 0 && r.P(1, 8) {
		// whatever happens to the bus, the counters are published again
		// afterwards
		p.P["outage"] = 1
		at, d := r.D(2*sec, t), r.LogD(100*ms, 60*sec)
		ev(&Ev{T: at, K: "busdown", A: d})
		if e := at + d + recovery + 35*sec + 2*every; e > p.End {
			p.End = e
		}
	}
	return p
}

func setupC17(w *World) {
	if strings.HasPrefix(w.plan.Family, "overload-") {
		setupOverload(w, "C17")
		return
	}
	m := w.statModel("C17")
	p := w.plan
	if n := p.P["maxpay"]; n != 0 {
		w.broker.msgMax = int(n)
	}
	toobig := func(in *Inst, keys ...string) {
		w.Fault("publish_too_big")
		for _, k := range keys {
			m.count(in, k, 1)
		}
	}
	m.lossy = p.P["outage"] == 1
	rules := rulesFrom(p.S["rules"])
	node := map[string]int{}
	for i, n := range p.Nodes {
		node[n.Name] = i
		m.label[i] = map[string]string{"name": p.S["name:"+n.Name]}
		m.every[i] = p.P["every"]
		m.sub[i] = map[string]string{}
		switch n.Name {
		case "udp", "http":
			m.kind[i] = "listener"
			m.series[i] = []string{"received", "sent", "read_errors", "failed_nats_publish"}
		case "filter":
			m.kind[i] = "filter"
			m.series[i] = []string{"passed", "processed", "rejected", "invalid_time", "failed_nats_publish", "nats_dropped"}
			m.sub[i]["triggered"] = "rule"
			done := map[string]bool{}
			for _, ru := range rules {
				if !done[ru.Subject] {
					m.series[i] = append(m.series[i], "triggered|"+ru.Subject)
				}
				done[ru.Subject] = true
			}
		case "ds":
			m.kind[i] = "downsampler"
			m.series[i] = []string{"received", "sent", "invalid_lines", "invalid_timestamps", "failed_nats_publish", "nats_dropped|ds", "nats_dropped|ds2"}
			m.sub[i]["nats_dropped"] = "subject"
		case "writer":
			m.kind[i] = "writer"
			m.series[i] = []string{"received", "write_requests", "failed_writes", "nats_dropped|w", "nats_dropped|w2"}
			m.sub[i]["nats_dropped"] = "subject"
			db := "db0"
			if strings.Contains(n.Conf, `d\"b`) {
				db = `d"b`
			}
			m.label[i]["influxdb_address"], m.label[i]["influxdb_port"], m.label[i]["influxdb_dbname"] = "influx1", "8086", db
		}
	}
	if i, ok := node["udp"]; ok {
		s := w.specs[i]
		s.onUDP = func(u *udpSock) {
			in := s.inst
			u.onRead = func(full []byte, n int) {
				if n > 0 {
					m.count(in, "received", 1)
				}
				if p.P["maxpay"] != 0 && n > 4000 {
					toobig(in, "sent", "failed_nats_publish")
				}
			}
			u.onErr = func() { m.count(in, "read_errors", 1) }
		}
	}
	w.broker.onPub = append(w.broker.onPub, func(p *Pub) {
		in := p.Inst
		if in == nil || p.Subject == monSubject {
			return
		}
		switch w.plan.Nodes[in.spec.idx].Name {
		case "udp", "http", "ds":
			// counted before it is published
			c := m.counter(in, "sent")
			c.lo.add(w, 1)
			c.hi.addAt(w.Now()-w.slack()-(w.Lag()-in.lag0), 1)
		case "filter":
			n := int64(strings.Count(string(p.Data), "\n"))
			add := func(k string) {
				c := m.counter(in, k)
				c.lo.add(w, n)
				c.hi.addAt(w.Now()-w.slack()-(w.Lag()-in.lag0), n)
			}
			if p.Subject == junkSubject {
				add("rejected")
			} else {
				add("passed")
				add("triggered|" + p.Subject)
			}
		}
	})
	w.on["stat"] = func(e *Ev) {
		in := w.specs[e.N].inst
		if !w.broker.up && e.S != "udp" && e.S != "http" {
			return
		}
		var data []byte
		for _, l := range e.L {
			data = append(data, l.Bytes()...)
		}
		switch e.S {
		case "udp":
			w.net.Deliver(in, 7000, data)
		case "http":
			h := &Ev{K: "http", N: e.N, A: httpPort, S: "POST /write", Parts: [][]byte{data}, S2: e.S2}
			if e.S2 == "empty" {
				h.Parts = nil
			}
			if e.S2 == "precision" {
				h.S += "?precision=s"
			}
			if e.S2 == "abort" || e.S2 == "half" {
				h.Parts, h.B = [][]byte{data[:len(data)/2]}, int64(len(data)-len(data)/2)
				h.Gaps = []int64{0, 0, 200 * ms}
				m.counter(in, "read_errors").hi.add(w, 1)
			} else if e.S2 != "empty" {
				m.counter(in, "received").hi.add(w, 1)
				if e.A != 0 {
					w.Fault("publish_too_big")
					m.counter(in, "sent").hi.add(w, 1)
					m.counter(in, "failed_nats_publish").hi.add(w, 1)
				}
			}
			w.httpDo(h, func(r *Req) {
				switch {
				case r.In != in || in.dead:
				case r.Status == 204 && e.S2 != "empty":
					m.counter(in, "received").lo.add(w, 1)
					if e.A != 0 {
						m.counter(in, "sent").lo.add(w, 1)
						m.counter(in, "failed_nats_publish").lo.add(w, 1)
					}
				case e.S2 == "half" && r.TConn != 0 && w.Now()-r.TConn >= 200*ms:
					w.Settle(func() { m.counter(in, "read_errors").lo.add(w, 1) })
				}
			})
		case "filter":
			for _, i := range w.broker.Publish("in", data).To {
				m.count(i, "processed", len(e.L))
				if e.A != 0 {
					if k := Route(rules, e.L[0]); k < 0 {
						toobig(i, "rejected", "failed_nats_publish")
					} else {
						toobig(i, "passed", "triggered|"+rules[k].Subject, "failed_nats_publish")
					}
				}
				k := 0
				for _, l := range e.L {
					if ts, err := strconv.ParseInt(l.Ts, 10, 64); err == nil && absDiffMore(ts, w.epochNow(), w.plan.P["max"]) {
						k++
					}
				}
				m.count(i, "invalid_time", k)
			}
		case "ds":
			subj := "ds"
			if e.S2 != "" {
				subj = e.S2
			}
			for _, i := range w.broker.Publish(subj, data).To {
				m.count(i, "received", 1)
				if e.A != 0 {
					w.Fault("publish_too_big")
					i := i
					for _, k := range []string{"sent", "failed_nats_publish"} {
						c := m.counter(i, k)
						c.hi.add(w, 1)
						w.SettleAfter(122*sec, func() { c.lo.add(w, 1) })
					}
				}
				for _, l := range e.L {
					if l.Ts != "" {
						m.count(i, "invalid_timestamps", 1)
					} else if !strings.HasSuffix(l.Fields, "i") && e.A == 0 {
						m.count(i, "invalid_lines", 1)
					}
				}
			}
		case "writer":
			subj := "w"
			if e.S2 != "" {
				subj = e.S2
			}
			for _, i := range w.broker.Publish(subj, data).To {
				i := i
				m.counter(i, "received").hi.add(w, 1)
				// workers are busy while they write
				switch {
				case p.P["fine"] == 1:
					m.counter(i, "received").lo.add(w, 1)
				case p.P["down"] == 0:
					w.At(p.P["calm"], func() { m.counter(i, "received").lo.add(w, 1) })
				}
			}
		}
	}
	if len(w.dbs) > 0 {
		m.writes(w.dbs[0], p.P["timeout"])
	}
}

// writes counts a writer's attempts.
func (m *statModel) writes(db *DB, timeout int64) {
	w := m.w
	wm := &writerModel{w: w}
	db.onReq = append(db.onReq, func(a *Attempt) {
		in := a.Inst
		req, fail := m.counter(in, "write_requests"), m.counter(in, "failed_writes")
		req.hi.addAt(a.S0-w.slack()/2, 1)
		req.lo.add(w, 1)
		// it has failed, unless the response says otherwise
		fail.hi.addAt(a.S0-w.slack()/2, 1)
		if a.Conn != 0 && w.plan.P["sometimes"] == 1 && a.S0 < a.S1 {
			// it was counted when the connection was made
			req.hi.addAt(a.S0-w.slack()/2, -1)
			fail.hi.addAt(a.S0-w.slack()/2, -1)
		}
		w.After(0, func() {
			mode := strings.SplitN(a.Outcome, ":", 2)[0]
			switch mode {
			case "silent", "silent-after", "part503":
				w.After(timeout, func() { fail.lo.add(w, 1) })
			case "reset-before", "reset-after", "close":
				w.After(5*ms, func() { fail.lo.add(w, 1) })
			}
		})
	})
	db.onDone = append(db.onDone, func(a *Attempt) {
		fail := m.counter(a.Inst, "failed_writes")
		switch {
		case a.Code >= 300:
			fail.lo.add(w, 1)
		case a.Code >= 200:
			w.Settle(func() {
				if wm.acked(a) {
					fail.hi.addAt(a.S0-w.slack()/2, -1)
				}
			})
		}
	})
	old := w.on["db"]
	w.on["db"] = func(e *Ev) {
		old(e)
		for in := range m.insts {
			if e.S2 == "refuse" && w.plan.Nodes[in.spec.idx].Name == "writer" {
				// requests on their way are lost with the connections
				m.counter(in, "write_requests").hi.add(w, 6)
				m.counter(in, "failed_writes").hi.add(w, 6)
			}
		}
	}
	w.net.onDial = func(in *Inst, address string) {
		if !strings.HasSuffix(address, ":8086") {
			return
		}
		if w.plan.P["down"] == 1 {
			// counted before the connection is made
			then := w.Now() - w.slack() - (w.Lag() - in.lag0)
			req, f := m.counter(in, "write_requests"), m.counter(in, "failed_writes")
			req.lo.add(w, 1)
			req.hi.addAt(then, 1)
			f.hi.addAt(then, 1)
			w.After(timeout, func() { f.lo.add(w, 1) })
		} else if w.plan.P["sometimes"] == 1 {
			m.counter(in, "write_requests").hi.add(w, 1)
			m.counter(in, "failed_writes").hi.add(w, 1)
		}
	}
}
