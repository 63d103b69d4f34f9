package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
)

func init() {
	register(&Prop{ID: "C01", Gen: genC01, Setup: setupC01})
	register(&Prop{ID: "C03", Gen: genC03, Setup: setupC03})
}

const (
	maxDatagram = 65507
	mega        = 1 << 20
)

var lineText = []string{
	"cpu,host=a value=1i 1600000000000000000", "mem used=3.5", "disk,dev=sda1\\ x free=9i", "m s=\"a b\\\" c\"",
	"#comment", "weird\x00bytes\xff\xfe", "%s%d%n", "  leading", "a", "\\", "no equals sign", "été x=1",
}

// genBlob makes the text of lines, at most max bytes, possibly without a
// final newline, possibly with blank lines.
func genBlob(r *Rng, tag string, max int) []byte {
	var b bytes.Buffer
	n := r.R(1, 6)
	if r.P(1, 12) {
		n = r.R(20, 120)
	}
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "%s.%d,", tag, i)
		b.WriteString(lineText[r.N(len(lineText))])
		switch r.N(30) {
		case 0:
			b.Write(bytes.Repeat([]byte{'x'}, int(r.LogD(10, 30000))))
		case 1:
			b.WriteByte('\n')
		case 2:
			b.WriteByte('\r')
		}
		b.WriteByte('\n')
	}
	if r.P(1, 15) {
		// as large as it gets, or some other large size
		k := max - b.Len()
		switch r.N(4) {
		case 0, 1:
			k -= r.N(2000)
		case 2:
			k = r.N(k + 1)
		}
		if k > 1 {
			b.Write(bytes.Repeat([]byte{'L'}, k-1))
			b.WriteByte('\n')
		}
	}
	out := b.Bytes()
	if len(out) > max {
		out = out[:max]
	}
	if r.P(1, 4) && len(out) > 1 && out[len(out)-1] == '\n' {
		out = out[:len(out)-1]
	}
	return out
}

type batchCfg struct {
	count int64
	size  int64
	age   int64
}

func genBatchCfg(r *Rng) batchCfg {
	return batchCfg{
		count: r.PickD(1, 2, 3, 5, 10, 10, 40, 100000),
		size:  r.PickD(mega, mega, mega, 65536, 66000, 70000, 100000, 200000, 500000, 1000, mega-1, r.LogD(100, 80000), r.D(20000, 140000)),
		age:   r.PickD(10*ms, 200*ms, sec, 3*sec, 10*sec, 300*sec),
	}
}

func (b batchCfg) put(c *conf) {
	c.i("batch_max_count", b.count).raw(fmt.Sprintf("batch_max_size = \"%dB\"\n", b.size)).d("batch_max_age", b.age)
}

// udpEvents makes datagram arrivals, with the network's duplicates and
// reorderings, and returns the time of the last one.
func udpEvents(r *Rng, p *Plan, node, port int, t int64, n int, gapMax int64) int64 {
	for i := 0; i < n; i++ {
		switch r.N(10) {
		case 0, 1, 2: // a burst
			t += r.D(0, 30*us)
		default:
			t += r.LogD(us, gapMax)
		}
		data := genBlob(r, fmt.Sprintf("d%d", i), maxDatagram)
		if r.P(1, 40) {
			data = nil
		}
		if r.P(1, 40) {
			data = make([]byte, r.R(1, 300))
			for j := range data {
				data[j] = byte(r.U64())
			}
		}
		e := &Ev{T: t, K: "udp", N: node, A: int64(port), Data: data}
		p.Events = append(p.Events, e)
		switch r.N(25) {
		case 0:
			p.Events = append(p.Events, &Ev{T: t + r.LogD(us, 10*ms), K: "udp", N: node, A: int64(port), Data: data, S: "udp_duplicate"})
		case 1:
			e.T += r.LogD(ms, gapMax)
			e.S = "udp_reorder"
		case 2:
			e.S = "udp_loss"
		}
	}
	return t
}

// udpModel mirrors what a UDP listener has read.
type udpModel struct {
	lost  int // datagrams the socket had no room for
	reads []udpRead
	all   []byte
}

type udpRead struct {
	t, lag int64
	end    int // offset in all after it
	size   int
}

func (w *World) watchUDP(s *Spec) *udpModel {
	m := &udpModel{}
	w.on["udp"] = func(e *Ev) {
		if e.S != "" {
			w.Fault(e.S)
			if e.S == "udp_loss" {
				return
			}
		}
		w.Count("datagrams", 1)
		if !w.net.Deliver(w.specs[e.N].inst, int(e.A), e.Data) {
			m.lost++
		}
	}
	s.onUDP = func(u *udpSock) {
		u.onRead = func(full []byte, n int) {
			if n < len(full) {
				w.Violate(w.plan.Prop, "datagram-cut", "the listener read only %d of a datagram's %d bytes", n, len(full))
			}
			if n == 0 {
				return
			}
			m.all = append(m.all, full[:n]...)
			if full[n-1] != '\n' {
				m.all = append(m.all, '\n')
			}
			m.reads = append(m.reads, udpRead{w.Now(), w.Lag(), len(m.all), n})
			w.Log("read %d %x", n, fnv(full))
		}
	}
	return m
}

func listenerConf(r *Rng, mode string, b batchCfg, port int) *conf {
	c := newConf(mode, "listener1").subjects("in").i("port", int64(port))
	b.put(c)
	if r.P(1, 3) {
		c.d("stats_interval", r.PickD(100*ms, sec))
	}
	if r.P(1, 8) {
		c.raw("debug = true\n")
	}
	return c
}

func genC01(r *Rng, tier string) *Plan {
	p := &Plan{Family: "listener-udp", Sched: genSched(r, schedOpt{maxPause: 50 * ms}), Net: genNet(r)}
	b := genBatchCfg(r)
	if b.age > 10*sec {
		b.age = 10 * sec
	}
	c := listenerConf(r, "listener", b, 10001)
	rb := r.PickD(4<<20, 4<<20, 1, 100000, 1<<20)
	c.raw(fmt.Sprintf("read_buffer_size = \"%dB\"\n", rb))
	p.Nodes = []NodeCfg{{Name: "listener1", Conf: c.String()}}
	n := r.R(1, 40)
	if r.P(1, 6) {
		n = r.R(60, 200)
	}
	t := udpEvents(r, p, 0, 10001, 300*ms, n, r.PickD(ms, 30*ms, 500*ms))
	for i, k := 0, r.N(3); i < k; i++ {
		at := r.D(300*ms, t)
		switch r.N(4) {
		case 0:
			p.Events = append(p.Events, &Ev{T: at, K: "stall", N: 0, A: r.LogD(ms, 3*sec)})
		case 1:
			p.Events = append(p.Events, &Ev{T: at, K: "udperr", N: 0, A: r.PickD(0, 10*ms, 3*sec), B: r.LogD(ms, 900*ms)})
		case 2:
			p.Events = append(p.Events, &Ev{T: at, K: "busstall", A: r.LogD(ms, 3*sec)})
		case 3:
			p.Events = append(p.Events, &Ev{T: at, K: "netslow", A: 200, B: 50 * ms})
		}
	}
	p.P = map[string]int64{"age": b.age}
	p.End = t + b.age + 15*sec
	return p
}

// setupC01: what is published is exactly what was read, in order, in messages
// that end at line ends.
func setupC01(w *World) {
	m := w.watchUDP(w.specs[0])
	at := 0
	w.broker.onPub = append(w.broker.onPub, func(p *Pub) {
		if p.Inst == nil || p.Subject == "influx-spout-monitor" {
			return
		}
		w.checks++
		if p.Subject != "in" {
			w.Violate("C01", "wrong-subject", "the listener published on %q", p.Subject)
			return
		}
		at = checkStream(w, "C01", m.all, at, p.Data)
	})
	w.onEnd = append(w.onEnd, func() {
		if in := w.specs[0].inst; in.ready == 0 || len(in.udp) == 0 {
			w.Violate("C01", "not-started", "the listener does not listen")
		}
		for _, u := range w.specs[0].inst.udp {
			if len(u.q) > 0 {
				w.Violate("C01", "unread", "%d datagrams were never read", len(u.q))
			}
		}
		if at < len(m.all) {
			w.Violate("C01", "lost", "%d bytes that were received were never published: %s", len(m.all)-at, short(m.all[at:]))
		}
	})
}

// checkStream checks that a message continues the expected stream and
// consists of whole lines.
func checkStream(w *World, prop string, all []byte, at int, data []byte) int {
	if len(data) == 0 {
		w.Violate(prop, "empty", "an empty message was published")
		return at
	}
	if at+len(data) > len(all) || !bytes.Equal(all[at:at+len(data)], data) {
		k := 0
		for k < len(data) && at+k < len(all) && all[at+k] == data[k] {
			k++
		}
		lo := k - 60
		if lo < 0 {
			lo = 0
		}
		exp := all[at+lo:]
		if len(exp) > 200 {
			exp = exp[:200]
		}
		got := data[lo:]
		if len(got) > 200 {
			got = got[:200]
		}
		w.Violate(prop, "corrupted", "byte %d of a published message of %d bytes differs from what was received: ...%q instead of ...%q", k, len(data), got, exp)
		return at + len(data)
	}
	end := at + len(data)
	if data[len(data)-1] != '\n' {
		w.Violate(prop, "cut-line", "a message ends inside a line: %s", short(data))
	}
	return end
}

// C03: limits.

func genC03(r *Rng, tier string) *Plan {
	if r.P(1, 2) {
		return genC03http(r, tier)
	}
	p := &Plan{Family: "listener-udp", Sched: genSched(r, schedOpt{maxPause: 5 * ms}), Net: NetCfg{LatMin: 20 * us, LatMax: 300 * us}}
	b := genBatchCfg(r)
	c := listenerConf(r, "listener", b, 10001)
	p.Nodes = []NodeCfg{{Name: "listener1", Conf: c.String()}}
	p.P = map[string]int64{"age": b.age, "count": b.count, "size": b.size}
	n := r.R(1, 60)
	t := udpEvents(r, p, 0, 10001, 300*ms, n, r.PickD(100*us, 5*ms, 300*ms, 3*sec))
	if exact := b.size - 65536 + r.D(-1, 1); exact > 400 && r.P(1, 4) {
		// the size is just reached, or just not
		for i, e := range p.Events {
			n := r.D(100, min64(exact-100, maxDatagram))
			if n > exact-200 || exact <= maxDatagram && r.P(1, 2) {
				n = min64(exact, maxDatagram)
			}
			l := fmt.Sprintf("d%d.0,", i)
			e.Data = []byte(l + strings.Repeat("t", int(n)-len(l)-6) + " v=1i\n")
			if exact -= n; exact < 400 {
				break
			}
		}
	}
	if r.P(1, 4) {
		p.Events = append(p.Events, &Ev{T: r.D(300*ms, t), K: "stall", N: 0, A: r.LogD(ms, 3*sec)})
	}
	if r.P(1, 3) {
		// the wall clock steps: ages must not follow it
		p.Events = append(p.Events, &Ev{T: r.D(300*ms, t+b.age), K: "clock", N: 0, A: r.D(-400*sec, 400*sec)})
	}
	if r.P(1, 5) {
		// reading fails again and again
		p.Events = append(p.Events, &Ev{T: r.D(300*ms, t+b.age/2), K: "udperr", N: 0, A: r.LogD(100*ms, b.age+6*sec), B: r.LogD(2*ms, 950*ms)})
	}
	p.End = t + b.age + 5*sec
	return p
}

// batchItem is one write the listener holds: it was taken between t0 and t1.
type batchItem struct {
	t0, t1, lag int64
	end         int // offset after it
	size        int
}

// checkBatch checks one batch (the writes from..to of items) published at t.
func checkBatch(w *World, prop string, items []batchItem, t int64, lagNow int64) {
	count, size, age := w.plan.P["count"], w.plan.P["size"], w.plan.P["age"]
	n := int64(len(items))
	total := int64(0)
	for _, it := range items {
		total += int64(it.size)
	}
	lastSz := int64(items[n-1].size)
	first := items[0]
	if n < count && size-total > 65536 && t-first.t0 < age {
		w.Violate(prop, "early", "a batch of %d writes and %d bytes was published %d ms after its first write (limits: %d writes, %d bytes, %d ms)",
			n, total, (t-first.t0)/ms, count, size, age/ms)
	}
	if n > count && n > 1 {
		w.Violate(prop, "count", "a batch of %d writes was published, the limit is %d", n, count)
	}
	// it was full before the last write arrived
	if n > 1 && size-(total-lastSz) <= 65536 {
		w.Violate(prop, "size", "a batch was held although it had %d bytes before its last write (limit %d)", total-lastSz, size)
	}
	late := t - first.t1 - (lagNow - first.lag) - w.slack()
	if late > age+sec {
		w.Violate(prop, "late", "a batch was published %d ms after its first write, the maximum age is %d ms", (t-first.t1)/ms, age/ms)
	}
	last := items[n-1]
	if n >= count || size-total <= 65536 {
		if late := t - last.t1 - (lagNow - last.lag) - w.slack(); late > 100*ms {
			w.Violate(prop, "late-full", "a full batch (%d writes, %d bytes) was held for another %d ms", n, total, (t-last.t1)/ms)
		}
	}
}

func setupC03(w *World) {
	if w.plan.Family == "listener-http" {
		setupC03http(w)
		return
	}
	m := w.watchUDP(w.specs[0])
	at, next := 0, 0
	w.broker.onPub = append(w.broker.onPub, func(p *Pub) {
		if p.Inst == nil || p.Subject != "in" {
			return
		}
		w.checks++
		if len(p.Data) == 0 {
			w.Violate("C03", "empty", "an empty message was published")
			return
		}
		if len(p.Data) > mega {
			w.Violate("C03", "too-big", "a message of %d bytes was published", len(p.Data))
		}
		if p.Data[len(p.Data)-1] != '\n' {
			w.Violate("C03", "cut-line", "a message ends inside a line")
		}
		at += len(p.Data)
		var items []batchItem
		for next < len(m.reads) && m.reads[next].end <= at {
			rd := m.reads[next]
			prev := 0
			if next > 0 {
				prev = m.reads[next-1].end
			}
			items = append(items, batchItem{rd.t, rd.t, rd.lag, rd.end, rd.end - prev})
			next++
		}
		if len(items) == 0 || items[len(items)-1].end != at {
			w.Violate("C03", "boundary", "a message does not end where a datagram ends (%d bytes published so far)", at)
			return
		}
		checkBatch(w, "C03", items, p.T, w.Lag())
	})
	w.onEnd = append(w.onEnd, func() { w.heldTooLong("C03", m.reads, at) })
}

// heldTooLong looks for data that is still held at the end of the run.
func (w *World) heldTooLong(prop string, reads []udpRead, at int) {
	i := sort.Search(len(reads), func(i int) bool { return reads[i].end > at })
	if i < len(reads) {
		rd := reads[i]
		if w.Now()-rd.t-(w.Lag()-rd.lag)-w.slack() > w.plan.P["age"]+sec {
			w.Violate(prop, "held", "a write is still held %d ms after it was received, the maximum age is %d ms", (w.Now()-rd.t)/ms, w.plan.P["age"]/ms)
		}
	}
}
