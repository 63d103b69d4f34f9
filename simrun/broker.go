package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"syscall"
)

// Broker stands in for the NATS server: it speaks the client protocol over
// the simulated network.
type Broker struct {
	w      *World
	up     bool
	mute   bool // accepts connections but says nothing
	stall  bool
	conns  []*bconn
	seq    int
	pubs   []*Pub
	onPub  []func(*Pub)
	rng    *Rng
	outage int
	lag    int64 // extra handling delay per connection attempt (INFO)
	msgMax int
	known  map[*Inst]bool // has been connected
	// connections that were lost soon after a reconnection
	relapsed map[int]bool
}

// Pub is one message published on the bus.
type Pub struct {
	T       int64
	Conn    int
	Inst    *Inst // nil: the harness
	Subject string
	Data    []byte
	To      []*Inst
	Lines   [][]byte
}

type bsub struct {
	c       *bconn
	subject string
	queue   string
	sid     string
	max     int
	n       int
	T       int64
}

type bconn struct {
	b     *Broker
	id    int
	h     *HEnd
	in    *Inst
	buf   []byte
	name  string
	hello bool
	subs  []*bsub
	dead  bool
	t0    int64
	again bool // not the first one of the instance's connections
	pings int
	// a PUB whose payload is awaited
	pubSubj string
	pubLen  int
}

func newBroker(w *World) *Broker {
	b := &Broker{w: w, known: map[*Inst]bool{}, relapsed: map[int]bool{}, up: true, rng: newRng(w.plan.Seed, "broker"), msgMax: 1 << 20}
	w.net.servers["10.0.0.1:4222"] = &Server{name: "nats", accept: b.accept}
	return b
}

func (b *Broker) server() *Server { return b.w.net.servers["10.0.0.1:4222"] }

func (b *Broker) accept(h *HEnd) {
	b.seq++
	c := &bconn{b: b, id: b.seq, h: h, in: h.c.in, t0: b.w.Now(), again: b.known[h.c.in]}
	if c.in != nil {
		b.known[c.in] = true
	}
	b.conns = append(b.conns, c)
	h.onData = c.data
	h.onClose = func(err error) { c.drop() }
	h.tag = c
	b.w.Log("bus: connection %d from %s", c.id, c.in.name())
	if b.stall {
		h.Pause()
	}
	if b.mute {
		return
	}
	b.w.After(b.lag+1, func() {
		if !c.dead {
			h.Send([]byte(fmt.Sprintf(`INFO {"server_id":"SIM","version":"2.1.8","proto":1,"go":"go1.15","host":"10.0.0.1","port":4222,"max_payload":%d,"client_id":%d}`+"\r\n", b.msgMax, c.id)))
		}
	})
	var ping func()
	ping = func() {
		if c.dead {
			return
		}
		if c.pings >= 2 {
			c.h.Send([]byte("-ERR 'Stale Connection'\r\n"))
			c.h.Close()
			c.drop()
			return
		}
		c.pings++
		c.h.Send([]byte("PING\r\n"))
		b.w.After(2*min, ping)
	}
	b.w.After(2*min, ping)
}

func (c *bconn) drop() {
	if c.dead {
		return
	}
	c.dead = true
	b := c.b
	if c.again && b.w.Now()-c.t0 < 5*sec+b.w.slack() {
		// What the bus client was sending after its reconnection it will
		// send again after the next one, even what has arrived.
		b.relapsed[c.id] = true
	}
	for i, x := range b.conns {
		if x == c {
			b.conns = append(b.conns[:i:i], b.conns[i+1:]...)
			break
		}
	}
	b.w.Log("bus: connection %d of %s ends", c.id, c.in.name())
}

func (c *bconn) err(msg string) {
	c.h.Send([]byte("-ERR '" + msg + "'\r\n"))
	c.h.Close()
	c.drop()
	c.b.w.Count("bus_protocol_errors", 1)
	c.b.w.Log("bus: error to %s: %s", c.in.name(), msg)
}

func (c *bconn) data(p []byte) {
	c.buf = append(c.buf, p...)
	for !c.dead {
		if c.pubSubj != "" {
			if len(c.buf) < c.pubLen+2 {
				return
			}
			data := c.buf[:c.pubLen:c.pubLen]
			if c.buf[c.pubLen] != '\r' || c.buf[c.pubLen+1] != '\n' {
				c.err("Parser Error")
				return
			}
			subj := c.pubSubj
			c.buf = append([]byte(nil), c.buf[c.pubLen+2:]...)
			c.pubSubj = ""
			c.b.publish(c, subj, data)
			continue
		}
		i := bytes.Index(c.buf, []byte("\r\n"))
		if i < 0 {
			return
		}
		line := string(c.buf[:i])
		c.buf = c.buf[i+2:]
		f := strings.Fields(line)
		if len(f) == 0 {
			continue
		}
		switch strings.ToUpper(f[0]) {
		case "CONNECT":
			var o struct {
				Name string `json:"name"`
			}
			json.Unmarshal([]byte(line[len("CONNECT"):]), &o)
			c.name = o.Name
			c.hello = true
		case "PING":
			c.h.Send([]byte("PONG\r\n"))
		case "PONG":
			c.pings = 0
		case "SUB":
			s := &bsub{c: c, subject: f[1], T: c.b.w.Now()}
			if len(f) == 4 {
				s.queue, s.sid = f[2], f[3]
			} else {
				s.sid = f[2]
			}
			c.subs = append(c.subs, s)
			if c.in.ready == 0 {
				c.in.ready = s.T
			}
			c.b.w.Log("bus: %s subscribes to %s %s", c.in.name(), s.subject, s.queue)
		case "UNSUB":
			mx := 0
			if len(f) == 3 {
				mx, _ = strconv.Atoi(f[2])
			}
			for i, s := range c.subs {
				if s.sid == f[1] {
					if mx > s.n {
						s.max = mx
					} else {
						c.subs = append(c.subs[:i:i], c.subs[i+1:]...)
					}
					break
				}
			}
			c.b.w.Log("bus: %s unsubscribes %s", c.in.name(), f[1])
		case "PUB":
			n, err := strconv.Atoi(f[len(f)-1])
			if err != nil || len(f) < 3 || n < 0 {
				c.err("Parser Error")
				return
			}
			if n > c.b.msgMax {
				c.err("Maximum Payload Violation")
				return
			}
			c.pubSubj, c.pubLen = f[1], n
		default:
			c.err("Unknown Protocol Operation")
			return
		}
	}
}

func subjMatch(pat, s string) bool {
	if pat == s {
		return true
	}
	p, t := strings.Split(pat, "."), strings.Split(s, ".")
	for i := range p {
		if p[i] == ">" {
			return len(t) > i
		}
		if i >= len(t) || p[i] != "*" && p[i] != t[i] {
			return false
		}
	}
	return len(p) == len(t)
}

func (b *Broker) publish(from *bconn, subject string, data []byte) *Pub {
	p := &Pub{T: b.w.Now(), Subject: subject, Data: append([]byte(nil), data...)}
	if from != nil {
		p.Conn, p.Inst = from.id, from.in
		if from.in.ready == 0 {
			from.in.ready = p.T
		}
		b.w.Log("pub %s %s %x", from.in.name(), subject, fnv(data))
	} else {
		b.w.Log("pub harness %s %x", subject, fnv(data))
	}
	groups := map[string][]*bsub{}
	var order []string
	var to []*bsub
	for _, c := range b.conns {
		for _, s := range c.subs {
			if !subjMatch(s.subject, subject) {
				continue
			}
			if s.queue == "" {
				to = append(to, s)
				continue
			}
			k := s.subject + " " + s.queue
			if groups[k] == nil {
				order = append(order, k)
			}
			groups[k] = append(groups[k], s)
		}
	}
	for _, k := range order {
		to = append(to, groups[k][b.rng.N(len(groups[k]))])
	}
	for _, s := range to {
		s.n++
		p.To = append(p.To, s.c.in)
		m := append([]byte(fmt.Sprintf("MSG %s %s %d\r\n", subject, s.sid, len(data))), data...)
		s.c.h.Send(append(m, '\r', '\n'))
		if s.max > 0 && s.n >= s.max {
			for i, x := range s.c.subs {
				if x == s {
					s.c.subs = append(s.c.subs[:i:i], s.c.subs[i+1:]...)
					break
				}
			}
		}
	}
	b.pubs = append(b.pubs, p)
	for _, f := range b.onPub {
		f(p)
	}
	return p
}

// Publish publishes as a client of the harness.
func (b *Broker) Publish(subject string, data []byte) *Pub { return b.publish(nil, subject, data) }

// Subscribed reports whether an instance has a live subscription.
func (b *Broker) Subscribed(in *Inst, subject string) bool {
	for _, c := range b.conns {
		if c.in != in {
			continue
		}
		for _, s := range c.subs {
			if subjMatch(s.subject, subject) {
				return true
			}
		}
	}
	return false
}

// Connected counts an instance's connections.
func (b *Broker) Connected(in *Inst) int {
	n := 0
	for _, c := range b.conns {
		if c.in == in {
			n++
		}
	}
	return n
}

// Down crashes the broker, Up restarts it without any memory.
func (b *Broker) Down() {
	if !b.up {
		return
	}
	b.up = false
	b.outage++
	b.server().mode = "refuse"
	b.w.Log("bus goes down")
	b.w.Fault("bus_crash")
	for len(b.conns) > 0 {
		c := b.conns[0]
		c.h.Reset()
		c.drop()
	}
}

func (b *Broker) Up() {
	if b.up {
		return
	}
	b.up = true
	b.server().mode = ""
	b.w.Log("bus is back")
}

// ResetConns resets the connections of an instance (nil: all).
func (b *Broker) ResetConns(in *Inst) {
	for _, c := range append([]*bconn(nil), b.conns...) {
		if in == nil || c.in == in {
			b.w.Fault("bus_conn_reset")
			c.h.c.abort(syscall.ECONNRESET)
			c.drop()
		}
	}
}

// Stall stops or resumes reading from the clients.
func (b *Broker) Stall(on bool) {
	b.stall = on
	if on {
		b.w.Fault("bus_stall")
	}
	for _, c := range append([]*bconn(nil), b.conns...) {
		if on {
			c.h.Pause()
		} else {
			c.h.Resume()
		}
	}
}

func fnv(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}
