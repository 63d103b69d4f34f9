package main

import (
	"bytes"
	"fmt"
	"strings"
)

// C15: no input can stop a component.

func init() {
	register(&Prop{ID: "C15", Gen: genC15, Setup: setupC15})
}

const probePort = 9700

// genHostile is a message that a component cannot make sense of, or should
// not rely on.
func genHostile(r *Rng) []byte {
	var b []byte
	switch r.N(10) {
	case 0:
		n := int(r.LogD(1, 3000))
		b = make([]byte, n)
		for i := range b {
			b[i] = byte(r.U64())
		}
	case 1: // separators only
		n := int(r.LogD(1, 500))
		set := r.Pick(",= \\\"\n", "\\", "\n", " ", ",", "=", "\"", ",=", "\\\n", "\x00", "i", "\r\n", `a,\`, "9", "-", "\xff", "1 ")
		for i := 0; i < n; i++ {
			b = append(b, set[r.N(len(set))])
		}
	case 2: // one very long line
		b = bytes.Repeat([]byte(r.Pick("x", "a,b=", "\\", "t=1,", "\"", "9", "a=1,b=", "é", " ")), int(r.LogD(100, 8000)))
	case 3:
		return nil
	case 4: // metrics
		for i, n := 0, r.R(1, 4); i < n; i++ {
			b = append(append(b, genBadSample(r, i)...), '\n')
		}
	case 5: // field nonsense, for the downsampler
		for i, n := 0, r.R(1, 5); i < n; i++ {
			b = append(b, fmt.Sprintf("%s %s%s\n", r.Pick("m", "m,a=b", "", ","), r.Pick("", "v", "v=", "=1", "v=1i2", "v=i", "v=99999999999999999999i", "v=-9223372036854775809i", "v=1e999", "v=NaN", "v=Inf", `v="`, `v="\`, `v="\"`, `v="a"b`, "v=1,", "v=1,,w=2", "v==1", "v=t1", "v=TRUEFALSE", "v=1 2 3", "v=+", "v=-", "v=--1", "v=.", "v=e", "v=1e", "v=0x1", `v="x",v=1`, "v=1,v=true", "v=\x00"), r.Pick("", " 1", " -1", " x", " 9223372036854775807", " 9223372036854775808", " -9223372036854775808", " 0", "  ", " 1 1"))...)
		}
	default:
		for i, n := 0, r.R(1, 6); i < n; i++ {
			l := genBad(r, r.N(10000))
			if r.P(1, 4) {
				l = genLine(r, badBase+r.N(10000), "")
			}
			b = append(b, l.Bytes()...)
		}
		if r.P(1, 4) {
			b = b[:len(b)-1]
		}
	}
	return b
}

// genHostileHTTP is what a port scanner or a broken client may send.
func genHostileHTTP(r *Rng, path string) []byte {
	body := genHostile(r)
	switch r.N(12) {
	case 0:
		return body
	case 1:
		return []byte(r.Pick("GET", "GET \r\n\r\n", "GET / HTTP/9.9\r\n\r\n", "\r\n\r\n\r\n\r\n", "GET / HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\nHost: a\r\nHost: b\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "CONNECT x:1 HTTP/1.1\r\nHost: x\r\n\r\n", "OPTIONS * HTTP/1.1\r\nHost: x\r\n\r\n", "GET // HTTP/1.1\r\nHost: x\r\n\r\n", "GET /%zz HTTP/1.1\r\nHost: x\r\n\r\n", "GET /../../etc/passwd HTTP/1.1\r\nHost: x\r\n\r\n", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03"))
	case 2:
		return append([]byte("POST "+path+" HTTP/1.1\r\nHost: x\r\nContent-Length: "+r.Pick("-1", "abc", "99999999999999999999", "1\r\nContent-Length: 2", "+5", "0x5", "")+"\r\n\r\n"), body...)
	case 3:
		return append([]byte("POST "+path+" HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n"+r.Pick("zz\r\n", "ffffffffffffffffff\r\n", "-5\r\n", "5\r\nab", "1;ext=\x00\r\nx\r\n", "5\r\nabcdefgh\r\n0\r\n\r\n")), body...)
	case 4:
		return append([]byte("POST "+path+" HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: "+r.Pick("gzip", "chunked, chunked", "identity", "x")+"\r\nContent-Length: 3\r\n\r\n"), body...)
	case 5:
		return append([]byte("GET "+path+" HTTP/1.1\r\nHost: x\r\nX: "), bytes.Repeat([]byte{'h'}, int(r.LogD(10, 5000)))...)
	case 6:
		n := r.R(1, 20) // pipelined
		one := []byte(r.Pick("GET ", "POST ", "HEAD ", "PUT ") + path + " HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n\r\n")
		return bytes.Repeat(one, n)
	case 7:
		return []byte("POST " + path + " HTTP/1.1\r\nHost: x\r\nExpect: 100-continue\r\nContent-Length: 10\r\n\r\n")
	default:
		q := r.Pick("", "?precision=s", "?precision=ms", "?precision=", "?precision=h", "?precision=xx", "?precision=%zz", "?precision=u&precision=n", "?"+strings.Repeat("a=b&", 200), "?db=a;b")
		return append([]byte(fmt.Sprintf("%s %s%s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n", r.Pick("POST", "POST", "POST", "PUT", "DELETE", "GET"), path, q, len(body))), body...)
	}
}

// rawEvents sends hostile bytes to a port.
func rawEvent(r *Rng, t int64, node, port int, path string) *Ev {
	b := genHostileHTTP(r, path)
	if r.P(1, 4) {
		b = b[:r.N(len(b)+1)]
	}
	return &Ev{T: t, K: "raw", N: node, A: int64(port), Data: b, B: int64(r.N(1 << 30)), S: r.Pick("close", "reset", "stall", "half")}
}

func (w *World) rawHandler() {
	w.on["raw"] = func(e *Ev) {
		in := w.specs[e.N].inst
		if in == nil || in.dead {
			return
		}
		w.Fault("hostile_request")
		w.net.Connect(in, int(e.A), "client", func(h *HEnd) {
			h.onData = func([]byte) {}
			h.onClose = func(error) {}
			r := newRng(uint64(e.B), "raw")
			t := w.Now()
			b := e.Data
			for len(b) > 0 {
				n := len(b)
				if r.P(1, 2) {
					n = 1 + r.N(len(b))
				}
				p := b[:n]
				b = b[n:]
				w.At(t, func() { h.Send(p) })
				t += r.LogD(us, 300*ms)
			}
			w.At(t, func() {
				switch e.S {
				case "close":
					h.Close()
				case "reset":
					h.Reset()
				case "half":
					h.CloseWrite()
				}
			})
		}, func(error) {})
	}
}

func genC15(r *Rng, tier string) *Plan {
	fam := r.Pick("udp", "http", "filter", "filter", "downsampler", "downsampler", "writer", "writer", "monitor", "all")
	p := &Plan{Family: "robust-" + fam, Sched: genSched(r, schedOpt{maxPause: 10 * ms}), Net: genNet(r), S: map[string]string{}, P: map[string]int64{}}
	p.Epoch = 1600000000*sec + r.D(0, 100000000*sec)
	p.DBs = 1
	rules := genRules(r, r.N(6))
	p.S["rules"] = rulesJSON(rules)
	add := func(name string, c *conf) int {
		i := len(p.Nodes)
		c.i("probe_port", int64(probePort+i)).d("stats_interval", r.PickD(sec, 3*sec, 3*sec))
		if r.P(1, 10) {
			c.raw("debug = true\n")
		}
		if strings.HasPrefix(name, "filter") {
			for _, ru := range rules {
				c.rule(ru)
			}
		}
		p.Nodes = append(p.Nodes, NodeCfg{Name: name, Conf: c.String()})
		return i
	}
	all := fam == "all"
	has := func(f string) bool { return all || fam == f }
	node := map[string]int{}
	batch := func(c *conf) {
		c.d("batch_max_age", r.PickD(10*ms, 200*ms, sec)).i("batch_max_count", int64(r.PickI(1, 5, 100)))
		if r.P(1, 3) {
			c.raw(fmt.Sprintf("batch_max_size = \"%dB\"\n", r.PickI(1000, 65536, 70000, 200000)))
		}
	}
	if has("udp") {
		c := newConf("listener", "udp").subjects("in").i("port", 7000)
		batch(c)
		node["udp"] = add("udp", c)
	}
	if has("http") {
		c := newConf("listener_http", "http").subjects("in").i("port", 8000)
		batch(c)
		node["http"] = add("http", c)
	}
	if has("filter") {
		node["filter"] = add("filter", newConf("filter", "filter").subjects("in").i("workers", int64(r.R(1, 4))))
	}
	if has("downsampler") {
		node["downsampler"] = add("downsampler", newConf("downsampler", "ds").subjects("ds").d("downsample_period", r.PickD(sec, 2*sec)).s("downsample_suffix", "-archive"))
	}
	if has("writer") {
		c := newConf("writer", "writer").subjects("w").s("influxdb_address", "influx1").s("influxdb_dbname", "db0").i("workers", int64(r.R(1, 3))).d("write_timeout", r.PickD(sec, 3*sec))
		batch(c)
		if r.P(1, 2) {
			// all that a writer's rules may do is to drop other lines
			c.raw("\n").s("influxdb_protocol", "http")
			p.S["wrules"] = "1"
		}
		node["writer"] = add("writer", c)
		if p.S["wrules"] != "" {
			n := &p.Nodes[node["writer"]]
			k := &conf{}
			k.raw(n.Conf)
			k.rule(Rule{Type: "basic", Match: "canary"})
			for _, ru := range genRules(r, r.N(3)) {
				if ru.Type != "tags" {
					ru.Subject = ""
					k.rule(ru)
				}
			}
			n.Conf = k.String()
		}
	}
	if has("monitor") {
		node["monitor"] = add("monitor", newConf("monitor", "mon").i("port", monPort))
	}
	t := 2500 * ms
	ev := func(e *Ev) { p.Events = append(p.Events, e) }
	big := false
	nl := func(b []byte) []byte {
		if len(b) > 0 && b[len(b)-1] != '\n' {
			b = append(b, '\n')
		}
		return b
	}
	hostile := func() {
		n := r.N(len(p.Nodes))
		if !big && r.P(1, 40) {
			// as large as it gets
			big = true
			one := r.Pick("m,a=b v=1i\n", "x\n", "m,a= v=1\n", "m v=1i 1\n", strings.Repeat("y", 5000)+"\n", strings.Repeat("z", 300000)+"\n", "m v=\"\n", "\n")
			k := int(r.LogD(100000, 1<<20-1000))/len(one) + 1
			if k > 15000 {
				k = 15000
			}
			p.Sched.MaxPicks *= 8
			b := bytes.Repeat([]byte(one), k)
			if len(b) > 1<<20 {
				b = b[:1<<20]
			}
			switch p.Nodes[n].Name {
			case "http":
				if r.P(1, 2) {
					b = bytes.Repeat(b, r.R(2, 5))
				}
				b = append([]byte(fmt.Sprintf("POST /write%s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n", r.Pick("", "?precision=s"), len(b))), b...)
				e := rawEvent(r, t, n, 8000, "/write")
				e.Data = b
				ev(e)
				return
			case "filter":
				ev(&Ev{T: t, K: "pub", S: "in", Data: b})
				return
			case "downsampler":
				if len(b) > 50000 && len(one) < 100 {
					b = b[:50000] // within a period
				}
				ev(&Ev{T: t, K: "pub", S: "ds", Data: b})
				return
			case "writer":
				ev(&Ev{T: t, K: "pub", S: "w", Data: nl(b)})
				return
			}
		}
		if r.P(1, 6) { // the probes of any of them
			ev(rawEvent(r, t, n, probePort+n, r.Pick("/healthz", "/readyz", "/")))
			return
		}
		switch k := p.Nodes[n].Name; k {
		case "udp":
			b := genHostile(r)
			if len(b) > maxDatagram {
				b = b[:maxDatagram]
			}
			ev(&Ev{T: t, K: "udp", N: n, A: 7000, Data: b})
			if r.P(1, 10) {
				ev(&Ev{T: t, K: "udperr", N: n})
			}
		case "http":
			ev(rawEvent(r, t, n, 8000, "/write"))
		case "filter":
			ev(&Ev{T: t, K: "pub", S: "in", Data: genHostile(r)})
		case "downsampler":
			ev(&Ev{T: t, K: "pub", S: "ds", Data: genHostile(r)})
		case "writer":
			ev(&Ev{T: t, K: "pub", S: "w", Data: nl(genHostile(r))})
		case "monitor":
			if r.P(1, 3) {
				ev(rawEvent(r, t, n, monPort, "/metrics"))
			} else {
				ev(&Ev{T: t, K: "metrics", Data: genHostile(r)})
			}
		}
	}
	canary := 0
	tests := func() {
		for i, n := range p.Nodes {
			if all && r.P(1, 3) {
				continue
			}
			canary++
			l := genLine(r, canary, "")
			l.Tags = append(l.Tags, KV{"zzc", fmt.Sprint(canary)})
			if n.Name == "writer" {
				l.Meas = "canary"
			}
			if n.Name == "udp" || n.Name == "http" || n.Name == "writer" || n.Name == "filter" {
				ev(&Ev{T: t, K: "canary", N: i, S: n.Name, A: int64(canary), L: []*Line{l}})
			}
			if n.Name == "downsampler" {
				ev(&Ev{T: t, K: "canary", N: i, S: n.Name, A: int64(canary), L: []*Line{{Meas: "canary", Tags: []KV{{"n", fmt.Sprint(canary)}}, Fields: fmt.Sprintf("v=%di", canary)}}})
			}
			if n.Name == "monitor" {
				ev(&Ev{T: t, K: "metrics", Data: []byte(fmt.Sprintf("canary{n=\"%d\"} %d\n", canary%3, canary))})
				ev(&Ev{T: t + sec, K: "scrape", N: i})
			}
		}
	}
	for i, n := 0, r.R(5, 60); i < n; i++ {
		t += r.LogD(us, 300*ms)
		if r.P(1, 6) {
			tests()
		} else {
			hostile()
		}
		if w, ok := node["writer"]; ok && r.P(1, 12) {
			_ = w
			d := r.LogD(10*ms, 5*sec)
			ev(&Ev{T: t, K: "db", S: "influx1", S2: r.Pick("hostile", "hostile", "garbage", "mix:ok,hostile,garbage,400")})
			ev(&Ev{T: t + d, K: "db", S: "influx1", S2: "ok"})
			t += d / 2
		}
	}
	ev(&Ev{T: t + 6*sec, K: "db", S: "influx1", S2: "ok"})
	t += 10 * sec
	tests()
	t += 5 * sec
	ev(&Ev{T: t, K: "probes"})
	p.End = t + 30*sec
	return p
}

// canaryState is a piece of valid input.
type canaryState struct {
	ev   *Ev
	line []byte // as it must come out
	subj string
	seen int
	due  bool // must come out
	T    int64
	lag  int64
	conn int // of what came out
}

func setupC15(w *World) {
	w.rawHandler()
	if len(w.dbs) > 0 {
		w.dbs[0].lenient = true
	}
	m := w.monModel("C15")
	m.lenient = true
	rules := rulesFrom(w.plan.S["rules"])
	udp := map[int]bool{}
	var all []*canaryState
	byLine := map[string]*canaryState{}
	node := func(name string) bool {
		for _, n := range w.plan.Nodes {
			if n.Name == name {
				return true
			}
		}
		return false
	}
	pipeline := node("udp") && node("filter")
	badDB := int64(-1)
	oldDB := w.on["db"]
	w.on["db"] = func(e *Ev) {
		oldDB(e)
		if e.S2 == "ok" {
			if badDB == 1<<62 {
				badDB = w.Now()
			}
		} else {
			badDB = 1 << 62
			for _, c := range all {
				if c.subj == "db" && c.seen == 0 {
					c.due = false
				}
			}
		}
	}
	for i := range w.plan.Nodes {
		i := i
		if w.plan.Nodes[i].Name == "udp" {
			w.watchUDP(w.specs[i])
			udp[i] = true
		}
	}
	w.on["canary"] = func(e *Ev) {
		c := &canaryState{ev: e, T: w.Now(), due: true}
		l := e.L[0]
		b := l.Bytes()
		c.line = b
		switch e.S {
		case "udp":
			c.subj = "in"
			all = append(all, c)
			byLine["in "+string(b)] = c
			w.on["udp"](&Ev{K: "udp", N: e.N, A: 7000, Data: b})
		case "http":
			c.subj = "in"
			all = append(all, c)
			byLine["in "+string(b)] = c
			r := w.httpDo(&Ev{K: "http", N: e.N, A: 8000, S: "POST /write", Parts: [][]byte{b}}, func(r *Req) {
				if r.In.dead {
					return
				}
				w.checks++
				if r.Status != 204 {
					w.Violate("C15", "post", "a valid HTTP write got status %d %s", r.Status, r.Err)
				}
			})
			w.SettleAfter(5*sec, func() {
				if r.TDone == 0 {
					w.Violate("C15", "post", "a valid HTTP write has had no answer for %d ms", (w.Now()-r.T0)/ms)
				}
			})
		case "filter":
			c.subj = junkSubject
			if k := Route(rules, l); k >= 0 {
				c.subj = rules[k].Subject
			}
			c.line = l.Sorted()
			all = append(all, c)
			byLine[c.subj+" "+string(c.line)] = c
			w.broker.Publish("in", b)
		case "downsampler":
			c.subj = "ds-archive"
			c.line = []byte(fmt.Sprintf("canary,n=%d v=%di ", e.A, e.A))
			all = append(all, c)
			byLine[c.subj+" "+string(c.line)] = c
			w.broker.Publish("ds", b)
		case "writer":
			c.subj = "db"
			// what is sent while the database misbehaves may be lost
			c.due = badDB != 1<<62 && (badDB < 0 || w.Now() > badDB+20*sec)
			c.due = c.due || w.Now() > w.eventsEnd()-6*sec
			all = append(all, c)
			byLine["db "+string(b)] = c
			w.broker.Publish("w", b)
		}
		if pipeline && (e.S == "udp" || e.S == "http") {
			// goes on through the filter
			c2 := &canaryState{ev: e, T: w.Now(), due: true, subj: junkSubject, line: l.Sorted()}
			if k := Route(rules, l); k >= 0 {
				c2.subj = rules[k].Subject
			}
			all = append(all, c2)
			byLine[c2.subj+" "+string(c2.line)] = c2
		}
	}
	w.on["probes"] = func(e *Ev) {
		for i, s := range w.specs {
			i, in := i, s.inst
			for _, path := range []string{"/healthz", "/readyz"} {
				path := path
				r := w.httpDo(&Ev{K: "http", N: i, A: int64(probePort + i), S: "GET " + path}, func(r *Req) {
					w.checks++
					if r.Status != 200 && !in.dead {
						w.Violate("C15", "probe", "%s of %s is %d %s", path, in.name(), r.Status, r.Err)
					}
				})
				w.SettleAfter(5*sec, func() {
					if r.TDone == 0 {
						w.Violate("C15", "probe", "%s of %s does not respond", path, in.name())
					}
				})
			}
		}
	}
	w.broker.onPub = append(w.broker.onPub, func(p *Pub) {
		if p.Inst == nil || p.Subject == monSubject {
			return
		}
		for _, l := range splitLines(p.Data) {
			k := string(l)
			if p.Subject == "ds-archive" {
				if i := strings.LastIndexByte(k, ' '); i > 0 {
					k = k[:i+1]
				}
			}
			if c := byLine[p.Subject+" "+k]; c != nil {
				w.checks++
				c.seen++
				if c.seen > 1 {
					w.Violate("C15", "twice", "valid input came out twice: %s", short(l))
				}
			}
		}
	})
	if len(w.dbs) > 0 {
		w.dbs[0].onReq = append(w.dbs[0].onReq, func(a *Attempt) {
			for _, l := range splitLines(a.Body) {
				if c := byLine["db "+string(l)]; c != nil {
					w.checks++
					c.seen++
				}
			}
		})
	}
	w.onEnd = append(w.onEnd, func() {
		for _, c := range all {
			if c.seen == 0 && c.due && !w.specs[c.ev.N].inst.dead {
				w.Violate("C15", "lost", "valid input to the %s (after invalid input) never came out: %s", c.ev.S, short(c.line))
			}
		}
	})
}

// eventsEnd is when the last event of the plan happens.
func (w *World) eventsEnd() (t int64) {
	for _, e := range w.plan.Events {
		if e.T > t {
			t = e.T
		}
	}
	return
}
