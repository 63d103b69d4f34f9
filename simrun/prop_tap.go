package main

import (
	"bytes"
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"strings"
	"time"
)

// C24: the tap prints exactly what passes on the bus.

func init() { register(&Prop{ID: "C24", Gen: genC24, Setup: setupC24}) }

var tapExprs = []string{"^cpu", "cpu", "id=7", "[0-9]+i$", "[0-9]$", "%", "%d", "100%$", "^$", "x*", "^[^,]*$", "host=h[12],", "(?i)CPU",
	"^(cpu|mem|disk),", "[[:^ascii:]]", `\\`, `"`, "^.$", "é", "a{3,}", `\d{3}`, "value=", "nothing-like-this", `\x00`, "\r$", `^\S+ \S+ \d+$`}

func genTapLine(r *Rng, id int) []byte {
	if r.P(1, 2) {
		return trimNL(genLine(r, id, "").Bytes())
	}
	switch r.N(10) {
	case 0:
		return []byte{}
	case 1:
		return []byte(fmt.Sprintf("disk,mount=/ used=%d%%,free=\"%s\"", id, r.Pick("%d", "%s %v", "%!", "100%", "%%", "%n%n%n", "%[1]d", "%")))
	case 2:
		return []byte(fmt.Sprintf("cpu,id=%d load=100%%", id))
	case 3:
		return []byte(fmt.Sprintf("é%d,host=h1 übung=\"日本\"", id))
	case 4:
		return append([]byte(fmt.Sprintf("cr,id=%d v=1i", id)), '\r')
	case 5:
		return []byte(fmt.Sprintf("long,id=%d v=\"%s\"", id, strings.Repeat(r.Pick("a", "%s", "é", "xyz "), int(r.LogD(1, 20000)))))
	case 6:
		n := r.R(1, 40)
		b := []byte(fmt.Sprintf("%d:", id))
		for i := 0; i < n; i++ {
			c := byte(r.U64())
			if c == '\n' {
				c = 0
			}
			b = append(b, c)
		}
		return b
	case 7:
		return []byte(r.Pick(`\`, `\n`, `\\n`, "\x00", "\x1b[2J", " ", "%", "x", "\xff\xfe", "\r", "\t"))
	case 8:
		return []byte(fmt.Sprintf("mem,host=h%d value=%d", id%4, id))
	default:
		return []byte(fmt.Sprintf("%d", id))
	}
}

func genC24(r *Rng, tier string) *Plan {
	fam := r.Pick("plain", "plain", "slow", "outage", "outage", "listener", "start")
	p := &Plan{Family: "tap-" + fam, Sched: genSched(r, schedOpt{maxPause: 10 * ms}), Net: genNet(r), S: map[string]string{}, P: map[string]int64{}}
	var args []string
	switch r.N(3) {
	case 0:
	case 1:
		args = append(args, "-h", "nats://nats:4222")
	default:
		args = append(args, "-h=nats:4222")
	}
	subj := "influx-spout"
	if r.P(3, 4) {
		subj = r.Pick("in", "in.*", "in.>", ">", "*", "in.a", "influx-spout-archive")
		if r.P(1, 2) {
			args = append(args, "-s", subj)
		} else {
			args = append(args, "-s="+subj)
		}
	}
	expr := ""
	if r.P(1, 2) {
		expr = r.Pick(tapExprs...)
		if r.P(1, 2) {
			args = append(args, "-e", expr)
		} else {
			args = append(args, "--e="+expr)
		}
	}
	p.S["subject"], p.S["expr"] = subj, expr
	ev := func(e *Ev) { p.Events = append(p.Events, e) }
	t := 500 * ms
	if fam == "start" {
		switch r.N(7) {
		case 0:
			ev(&Ev{T: 0, K: "busmode", S: "refuse", Fixed: true})
		case 1:
			ev(&Ev{T: 0, K: "busmode", S: "drop", Fixed: true})
		case 2:
			ev(&Ev{T: 0, K: "busmode", S: "mute", Fixed: true})
		case 3:
			args = append(args, "-e", r.Pick("(", "[a", "*a", `\`, "a**", "(?z)", "a{2,1}"))
		case 4:
			args = append(args, "-s", r.Pick("a b", "", "a..b", ".a", "a.", "\t"))
		case 5:
			args = append(args, "-h", r.Pick("nats://nowhere:4222", "nats:99", "nats://10.9.9.9:4222", "nats://nats:x", "nats:4222,nowhere"))
			if args[len(args)-1] == "nats:4222,nowhere" {
				// one of the servers can be had
				args[len(args)-1] = "nats://nowhere:4222"
			}
		case 6:
			args = append(args, r.Pick("-x", "-e", "-s"))
		}
		p.Nodes = append(p.Nodes, NodeCfg{Name: "tap", Kind: "tap", Args: args, NoStart: true})
		ev(&Ev{T: 100 * ms, K: "start", N: 0, Fixed: true})
		for i, n := 0, r.N(4); i < n; i++ {
			ev(&Ev{T: 100*ms + r.LogD(us, 5*sec), K: "pub", S: subj, Data: []byte("x,a=1 b=2i 1\n")})
		}
		p.P["fails"] = 1
		p.End = 40 * sec
		return p
	}
	p.Nodes = append(p.Nodes, NodeCfg{Name: "tap", Kind: "tap", Args: args})
	if fam == "listener" {
		ls := subj
		if strings.ContainsAny(ls, "*>") {
			ls = map[string]string{"in.*": "in.x", "in.>": "in.x.y", "*": "in", ">": "in.q"}[ls]
		}
		c := newConf("listener", "udp").subjects(ls).i("port", 7000).d("batch_max_age", r.PickD(10*ms, 300*ms)).i("batch_max_count", int64(r.PickI(1, 3, 50)))
		p.Nodes = append(p.Nodes, NodeCfg{Name: "udp", Conf: c.String(), Supervise: true})
	}
	if fam == "slow" && r.P(1, 6) {
		// for a while nothing is taken at all
		p.P["block"], p.P["blockfor"] = int64(r.R(0, 20000)), r.D(5*sec, 60*sec)
	}
	if fam == "slow" {
		p.P["slowp"] = int64(r.R(1, 60))
		p.P["slowmax"] = r.LogD(ms, 200*ms)
	}
	id := 0
	n := r.R(3, 60)
	next := t + 2*sec
	if r.P(1, 4) {
		next = 0 // while it starts
	}
	for i := 0; i < n; i++ {
		switch r.N(4) {
		case 0:
			next += r.LogD(us, 2*sec)
		case 1:
			next += r.LogD(us, ms)
		}
		var b []byte
		for j, k := 0, r.PickI(1, 1, 2, 3, 10, 40); j < k; j++ {
			id++
			b = append(append(b, genTapLine(r, id)...), '\n')
		}
		if fam == "plain" && r.P(1, 150) {
			// very many short ones
			b = nil
			for k := r.LogD(1000, 60000); k > 0 && len(b) < 1000000; k-- {
				id++
				b = append(append(b, fmt.Sprintf("%s%d", r.Pick("m", "cpu", "", "disk,mem "), id)...), '\n')
			}
		}
		if r.P(1, 6) {
			b = trimNL(b)
		}
		if r.P(1, 40) {
			b = nil
		}
		if fam == "listener" && r.P(2, 3) {
			if len(b) > 60000 {
				b = b[:60000]
			}
			ev(&Ev{T: next, K: "dgram", N: 1, Data: b})
		} else {
			s := r.Pick("in", "in.a", "in.a.b", "influx-spout", "influx-spout-archive", "other", "in")
			if r.P(1, 2) {
				s = map[string]string{"in.*": "in.a", "in.>": "in.a.b", "*": "in", ">": "in.q"}[subj]
				if s == "" {
					s = subj
				}
			}
			ev(&Ev{T: next, K: "pub", S: s, Data: b})
		}
		if p.P["blockfor"] > 0 && r.P(1, 8) {
			size := r.PickD(0, 0, 2000, 30000, 200000)
			k := int64(r.R(10, 4000))
			if size*k > 4<<20 {
				k = 4 << 20 / size
			}
			s := map[string]string{"in.*": "in.a", "in.>": "in.a.b", "*": "in", ">": "in.q"}[subj]
			if s == "" {
				s = subj
			}
			ev(&Ev{T: next, K: "flood", S: s, A: k, B: size})
		}
		if r.P(1, 25) {
			ev(&Ev{T: next + r.LogD(us, 100*ms), K: "stall", A: r.LogD(ms, 30*sec)})
		}
		if r.P(1, 30) {
			ev(&Ev{T: next, K: "netslow", A: int64(r.R(0, 80)), B: r.LogD(ms, 300*ms)})
		}
		if fam == "outage" && r.P(1, 12) {
			at := next + r.LogD(us, 100*ms)
			d := r.LogD(ms, 10*sec)
			switch r.N(4) {
			case 0:
				d = r.PickD(d, r.LogD(sec, 10*min))
				ev(&Ev{T: at, K: "busdown", A: d})
			case 1:
				ev(&Ev{T: at, K: "busreset", N: r.PickI(0, -1)})
				d = 0
			default:
				ev(&Ev{T: at, K: "cut", S: "nats", A: d})
			}
			if r.P(2, 3) {
				next += d + recovery + r.LogD(sec, 6*sec)
			}
		}
		if r.P(1, 60) {
			ev(&Ev{T: next + r.LogD(us, 10*ms), K: "kill"})
			next += r.LogD(us, sec)
			ev(&Ev{T: next, K: "start"})
		}
	}
	p.End = next + 20*sec + recovery
	for _, e := range p.Events {
		if e.K == "cut" || e.K == "busdown" {
			if x := e.T + e.A + recovery + 5*sec; x > p.End {
				p.End = x
			}
		}
	}
	if fam == "slow" {
		p.End += int64(id+n)*p.P["slowmax"] + p.P["blockfor"]
		for _, e := range p.Events {
			if e.K == "flood" {
				p.End += e.A * p.P["slowp"] * p.P["slowmax"] / 50
			}
		}
	}
	return p
}

// tapMsg is one message handed to the tap.
type tapMsg struct {
	T    int64
	want []byte
	opt  bool
	done bool
	subj string
}

type tapRun struct {
	in   *Inst
	out  []byte
	msgs []*tapMsg
	n    int   // messages looked at
	at   []int // where the output may have got to
	bad  bool
}

func setupC24(w *World) {
	flag.CommandLine = flag.NewFlagSet("influx-spout-tap", flag.ExitOnError)
	flag.CommandLine.SetOutput(w.logbuf)
	w.net.servers["127.0.0.1:4222"] = w.broker.server()
	o := w.watchOutages()
	p := w.plan
	s := w.specs[0]
	var re *regexp.Regexp
	if p.S["expr"] != "" {
		re = regexp.MustCompile(p.S["expr"])
	}
	runs := map[*Inst]*tapRun{}
	var order []*tapRun
	rng := newRng(p.Seed, "stdout")
	fails := p.P["fails"] == 1
	blocked := false
	os.SimWrite = func(b []byte) (int, error) {
		in := w.byID[runtime.SimNode()]
		if r := runs[in]; r != nil {
			if p.P["slowp"] > 0 && rng.P(int(p.P["slowp"]), 100) {
				w.Fault("slow_stdout")
				time.Sleep(time.Duration(rng.LogD(us, p.P["slowmax"])))
			}
			if f := p.P["blockfor"]; f > 0 && int64(len(r.out)) >= p.P["block"] && !blocked {
				blocked = true
				w.Fault("blocked_stdout")
				time.Sleep(time.Duration(f))
			}
			r.out = append(r.out, b...)
			w.hash = w.hash*1099511628211 ^ fnv(b)
			w.Count("stdout_bytes", len(b))
		}
		return len(b), nil
	}
	s.onStart = func(in *Inst) {
		if len(s.insts) > 1 {
			flag.CommandLine = flag.NewFlagSet("influx-spout-tap", flag.ExitOnError)
			flag.CommandLine.SetOutput(w.logbuf)
		}
		r := &tapRun{in: in, at: []int{0}}
		runs[in] = r
		order = append(order, r)
		in.expect = true // judged at the end
	}
	w.on["busmode"] = func(e *Ev) {
		switch e.S {
		case "mute":
			w.broker.mute = true
		default:
			w.broker.server().mode = e.S
		}
		w.Fault("bus_" + e.S)
	}
	w.on["pub"] = func(e *Ev) {
		if w.broker.up {
			w.broker.Publish(e.S, e.Data)
		}
	}
	w.on["flood"] = func(e *Ev) {
		for i := int64(0); i < e.A && w.broker.up; i++ {
			b := []byte(fmt.Sprintf("flood,n=%d.%d", e.T, i))
			if e.B > 0 {
				b = append(append(b, ",pad="...), bytes.Repeat([]byte{'p'}, int(e.B))...)
			}
			w.broker.Publish(e.S, append(b, " v=1i 1\n"...))
		}
	}
	w.on["dgram"] = func(e *Ev) {
		if in := w.specs[e.N].inst; in != nil {
			w.net.Deliver(in, 7000, e.Data)
		}
	}
	look := func(r *tapRun, upto int) {
		for r.n < upto && !r.bad {
			m := r.msgs[r.n]
			r.n++
			var next []int
			for _, a := range r.at {
				if bytes.HasPrefix(r.out[a:], m.want) {
					next = append(next, a+len(m.want))
				}
			}
			if m.opt && len(m.want) > 0 {
				for _, a := range r.at {
					dup := false
					for _, x := range next {
						dup = dup || x == a
					}
					if !dup {
						next = append(next, a)
					}
				}
			}
			w.checks++
			if len(next) == 0 {
				r.bad = true
				a := r.at[len(r.at)-1]
				w.Violate("C24", "output", "message %d on %s, handed to the tap %d ms into the run, must give %s, what came out there is %s", r.n, m.subj, m.T/ms, short(m.want), short(r.out[a:min2(len(r.out), a+len(m.want)+40)]))
				return
			}
			r.at = next
		}
	}
	w.broker.onPub = append(w.broker.onPub, func(pb *Pub) {
		in := s.inst
		if in == nil || in.dead {
			return
		}
		r := runs[in]
		got := 0
		for _, x := range pb.To {
			if x == in {
				got++
			}
		}
		match := subjMatch(p.S["subject"], pb.Subject)
		if got == 0 {
			if match && in.T0+5*sec+w.Lag()-in.lag0 < w.Now() && !o.hit(0, pb.T, pb.T) && !fails {
				w.Violate("C24", "deaf", "the tap is not subscribed to %s %d ms into the run", pb.Subject, pb.T/ms)
			}
			return
		}
		if !match {
			w.Violate("C24", "alien-subject", "the tap takes messages of %s", pb.Subject)
		}
		m := &tapMsg{T: pb.T, subj: pb.Subject}
		rest := pb.Data
		for len(rest) > 0 {
			l := rest
			if i := bytes.IndexByte(rest, '\n'); i >= 0 {
				l = rest[:i+1]
			}
			rest = rest[len(l):]
			if re == nil || re.Match(trimNL(l)) {
				m.want = append(m.want, l...)
			}
		}
		r.msgs = append(r.msgs, m)
		k := len(r.msgs)
		if p.P["slowp"] == 0 {
			var settled func()
			settled = func() {
				if in.dead {
					return
				}
				if o.hit(0, w.Now(), w.Now()) {
					// it may be under way until the link is back
					w.SettleAfter(500*ms, settled)
					return
				}
				m.opt = o.hit(0, m.T, w.Now())
				m.done = true
				for _, x := range r.msgs[:k] {
					if !x.done {
						return
					}
				}
				look(r, k)
			}
			w.SettleAfter(500*ms, settled)
		}
	})
	w.onEnd = append(w.onEnd, func() {
		for _, r := range order {
			in := r.in
			if fails {
				w.checks++
				switch {
				case !in.dead:
					w.Violate("C24", "start", "the tap cannot have started but is still there")
				case in.death == "exit" && in.code == 0:
					w.Violate("C24", "start", "the tap could not start but reports success")
				}
				if len(r.out) > 0 {
					w.Violate("C24", "start", "the tap could not start but printed %s", short(r.out))
				}
				continue
			}
			if in.dead && in.death == "exit" && (in.ready != 0 || !o.hit(0, in.T0, in.T1) && in.lag1-in.lag0 < sec) {
				w.Violate("C24", "exit", "the tap exited with code %d", in.code)
			}
			for _, m := range r.msgs[r.n:] {
				if !m.done {
					m.opt = in.dead || w.Now()-m.T < 3*sec || o.hit(0, m.T, w.Now())
				}
			}
			if in.dead {
				// it may have ended within a line
				look(r, r.n)
				a := r.at
				rest := r.out
				ok := false
				for _, x := range a {
					ok = ok || tapPrefix(rest[x:], r.msgs[r.n:])
				}
				w.checks++
				if !ok && !r.bad {
					w.Violate("C24", "output", "what the tap printed before it was killed ends with %s", short(rest[a[0]:]))
				}
				continue
			}
			look(r, len(r.msgs))
			if r.bad {
				continue
			}
			w.checks++
			ok := false
			for _, a := range r.at {
				ok = ok || a == len(r.out)
			}
			if !ok {
				w.Violate("C24", "excess", "beyond what the bus carried the tap printed %s", short(r.out[r.at[0]:]))
			}
			w.Count("tap_messages", len(r.msgs))
		}
		os.SimWrite = nil
	})
}

// tapPrefix reports whether out is the beginning of what some of the
// messages give.
func tapPrefix(out []byte, msgs []*tapMsg) bool {
	at := map[int]bool{0: true}
	for _, m := range msgs {
		for a := range at {
			if bytes.HasPrefix(m.want, out[a:]) {
				return true
			}
		}
		next := map[int]bool{}
		for a := range at {
			if bytes.HasPrefix(out[a:], m.want) {
				next[a+len(m.want)] = true
			}
			if m.opt {
				next[a] = true
			}
		}
		at = next
	}
	return at[len(out)]
}
