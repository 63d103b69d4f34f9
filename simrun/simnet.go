package main

import (
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Net is the simulated network between the components (one address space per
// node) and the harness's servers and clients.
type Net struct {
	orphans []*CConn
	sim     *Sim
	servers map[string]*Server // "host:port"
	mute    func(peer string) bool
	node    func(id int32) *Inst
	seq     int
	onBind  func(in *Inst, port int) int64
	// Latency of one segment.
	latMin, latMax int64
	slowP          int // per 1000 segments delayed by up to slowMax
	slowMax        int64
	segMax         int // 0: no segmentation of what the harness sends
	win            int
	onDial         func(in *Inst, address string)
}

// Server is a harness endpoint that components connect to.
type Server struct {
	name   string
	mode   string // "" accept, "refuse", "drop" (SYN lost)
	accept func(h *HEnd)
}

// Link state between an instance and a server (or a client, by name).
func (n *Net) blocked(in *Inst, peer string) bool {
	return in.cut["*"] || in.cut[peer]
}

type addr struct{ network, s string }

func (a addr) Network() string { return a.network }
func (a addr) String() string  { return a.s }

type seg struct {
	data []byte
	fin  bool
	rst  error
}

// dir is one direction of a connection.
type dir struct {
	q     []seg
	last  int64
	armed bool
	stuck int
	bytes int
}

// connWindow is what a connection holds between a writer and a reader.
const connWindow = 256 << 10

// CConn is the component's end of a connection.
type CConn struct {
	forgotten bool // by the bus client
	orphan    bool // closed with something still to be carried
	n         *Net
	in        *Inst
	id        int
	peer      string
	h         *HEnd
	rbuf      []byte
	eof       bool
	rst       error
	closed    bool
	dialT     int64 // when the component started to dial
	firstW    int64 // first write since it was last cleared
	rw, ww    []chan struct{}
	rdl       int64
	wdl       int64
	laddr     net.Addr
	raddr     net.Addr
	out, inn  dir // out: component to harness, inn: harness to component
}

// HEnd is the harness's end of a connection.
type HEnd struct {
	c       *CConn
	onData  func([]byte)
	onClose func(error)
	paused  bool
	pend    [][]byte
	lateFin bool // an end of the stream is noticed when all has been read
	eof     bool
	closed  bool // no more callbacks
	tag     interface{}
}

func (n *Net) latency() int64 {
	d := n.sim.net.D(n.latMin, n.latMax)
	if n.slowP > 0 && n.sim.net.N(1000) < n.slowP {
		d += n.sim.net.LogD(ms, n.slowMax)
		n.sim.Fault("net_delay")
	}
	return d
}

func opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Err: err}
}

func (n *Net) inst() *Inst { return n.node(runtime.SimNode()) }

// Dial implements net.SimNetwork.
func (n *Net) Dial(ctx context.Context, network, address string) (net.Conn, error) {
	if strings.HasPrefix(network, "udp") {
		return nil, opErr("dial", syscall.ENETUNREACH)
	}
	in := n.inst()
	if in == nil {
		return nil, opErr("dial", syscall.ENETUNREACH)
	}
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	if host == "" || host == "localhost" || host == "127.0.0.1" || host == "::1" {
		host = "localhost"
	}
	if ips, err := n.LookupHost(host); err == nil && len(ips) > 0 {
		host = ips[0]
	}
	key := host + ":" + port
	type res struct {
		c   *CConn
		err error
	}
	if !strings.Contains(address, ":8086") && in.failing("connect to "+address) {
		n.sim.Fault("no_descriptors")
		return nil, opErr("dial", os.NewSyscallError("socket", syscall.EMFILE))
	}
	ch := make(chan res, 1)
	start := n.sim.Now()
	d := &dial{t0: start}
	in.dials = append(in.dials, d)
	if n.onDial != nil {
		n.onDial(in, address)
	}
	defer func() { d.t1 = n.sim.Now() }()
	var try func()
	gone := false
	syn := sec
	try = func() {
		if in.dead || gone {
			return
		}
		srv := n.servers[key]
		switch {
		case srv != nil && n.blocked(in, srv.name), srv != nil && srv.mode == "drop":
			// The SYN is lost; the kernel retries for a while.
			if n.sim.Now()-start > 126*sec {
				ch <- res{nil, opErr("dial", os.NewSyscallError("connect", syscall.ETIMEDOUT))}
				return
			}
			n.sim.After(syn, try)
			syn *= 2
		case srv == nil || srv.mode == "refuse":
			ch <- res{nil, opErr("dial", os.NewSyscallError("connect", syscall.ECONNREFUSED))}
		default:
			c := n.newConn(in, srv.name)
			c.dialT = start
			c.raddr = addr{"tcp", key}
			h := &HEnd{c: c}
			c.h = h
			srv.accept(h)
			ch <- res{c, nil}
		}
	}
	n.sim.After(n.latency(), try)
	select {
	case r := <-ch:
		if r.err != nil {
			return nil, r.err
		}
		return r.c, nil
	case <-ctx.Done():
		select {
		case r := <-ch:
			if r.c != nil {
				r.c.Close()
			}
		default:
			gone = true
		}
		err := ctx.Err()
		if err == context.DeadlineExceeded {
			err = os.ErrDeadlineExceeded
		}
		return nil, opErr("dial", err)
	}
}

func (n *Net) newConn(in *Inst, peer string) *CConn {
	n.seq++
	c := &CConn{n: n, in: in, id: n.seq, peer: peer,
		laddr: addr{"tcp", fmt.Sprintf("%s:%d", in.host(), 20000+n.seq)}, raddr: addr{"tcp", peer}}
	in.conns = append(in.conns, c)
	return c
}

// dial is one attempt to connect.
type dial struct{ t0, t1 int64 }

// dialing reports whether an attempt to connect that took longer than d was
// under way between two moments.
func (in *Inst) dialing(t0, t1, d int64) bool {
	for _, x := range in.dials {
		e := x.t1
		if e == 0 {
			e = 1 << 62
		}
		if x.t0 <= t1 && e >= t0 && e-x.t0 > d {
			return true
		}
	}
	return false
}

// filled reports whether between t0 and t1 the instance tried to write to a
// connection that was cut and full.
func (in *Inst) filled(t0, t1 int64) bool {
	for _, x := range in.full {
		if x.t0 <= t1 && (x.t1 == 0 || x.t1 >= t0) {
			return true
		}
	}
	return false
}

// jammed is filled, or the same with a bus that reads nothing.
func (in *Inst) jammed(t0, t1 int64) bool {
	for _, x := range in.stuck {
		if x.t0 <= t1 && (x.t1 == 0 || x.t1 >= t0) {
			return true
		}
	}
	return in.filled(t0, t1)
}

// LookupHost implements net.SimNetwork.
func (n *Net) LookupHost(host string) ([]string, error) {
	if net.ParseIP(host) != nil {
		return []string{host}, nil
	}
	switch host {
	case "nats":
		return []string{"10.0.0.1"}, nil
	case "localhost":
		return []string{"127.0.0.1"}, nil
	}
	if strings.HasPrefix(host, "influx") {
		k, _ := strconv.Atoi(host[len("influx"):])
		return []string{fmt.Sprintf("10.0.1.%d", k)}, nil
	}
	return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
}

type lis struct {
	in     *Inst
	n      *Net
	port   int
	local  bool // not reachable from other machines
	q      []*CConn
	w      []chan struct{}
	closed bool
}

// isLocal tells whether a port bound to an address cannot be reached from
// elsewhere.
func isLocal(host string) bool {
	ip := net.ParseIP(host)
	return host == "localhost" || ip != nil && ip.IsLoopback()
}

// binding is called when a port is about to be bound; the system call may
// take some time.
func (n *Net) binding(in *Inst, port int) {
	if n.onBind == nil || port/100 == probePort/100 {
		return
	}
	if d := n.onBind(in, port); d > 0 {
		n.sim.Fault("slow_bind")
		time.Sleep(time.Duration(d))
	}
}

// Listen implements net.SimNetwork.
func (n *Net) Listen(network, address string) (net.Listener, error) {
	in := n.inst()
	host, p, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	port, err := strconv.Atoi(p)
	if err != nil || port < 0 || port > 65535 {
		return nil, &net.OpError{Op: "listen", Net: network, Err: &net.AddrError{Err: "invalid port", Addr: p}}
	}
	if in == nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: syscall.EADDRNOTAVAIL}
	}
	n.binding(in, port)
	if in.listeners[port] != nil || in.spec.occupied[port] {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	if port/100 != probePort/100 && in.failing("listen "+address) {
		n.sim.Fault("no_descriptors")
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("socket", syscall.EMFILE)}
	}
	l := &lis{in: in, n: n, port: port, local: isLocal(host)}
	in.listeners[port] = l
	in.bound++
	n.sim.Log("node %s listens on %d", in.name(), port)
	return l, nil
}

func (l *lis) Accept() (net.Conn, error) {
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			return c, nil
		}
		ch := make(chan struct{}, 1)
		l.w = append(l.w, ch)
		<-ch
	}
}

func (l *lis) Close() error {
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	l.closed = true
	delete(l.in.listeners, l.port)
	l.n.sim.Log("node %s closes port %d", l.in.name(), l.port)
	for _, c := range l.q {
		c.abort(syscall.ECONNRESET)
	}
	l.q = nil
	wakeAll(&l.w)
	return nil
}

func (l *lis) Addr() net.Addr { return addr{"tcp", fmt.Sprintf("0.0.0.0:%d", l.port)} }

func wakeAll(w *[]chan struct{}) {
	for _, ch := range *w {
		select {
		case ch <- struct{}{}:
		default:
		}
	}
	*w = nil
}

// Connect opens a connection from the harness to a component's port.
// fail is called when nothing listens there.
func (n *Net) Connect(in *Inst, port int, client string, ok func(h *HEnd), fail func(error)) {
	n.sim.After(n.latency(), func() {
		var l *lis
		if in != nil && !in.dead {
			l = in.listeners[port]
		}
		if l == nil || l.local {
			fail(syscall.ECONNREFUSED)
			return
		}
		c := n.newConn(in, client)
		h := &HEnd{c: c}
		c.h = h
		l.q = append(l.q, c)
		wakeAll(&l.w)
		ok(h)
	})
}

func (c *CConn) wait(w *[]chan struct{}) {
	ch := make(chan struct{}, 1)
	*w = append(*w, ch)
	<-ch
}

func (c *CConn) Read(p []byte) (int, error) {
	for {
		switch {
		case c.closed:
			return 0, opErr("read", net.ErrClosed)
		case c.rdl != 0 && c.n.sim.Now() >= c.rdl:
			return 0, opErr("read", os.ErrDeadlineExceeded)
		case len(c.rbuf) > 0:
			if len(p) == 0 {
				return 0, nil
			}
			k := copy(p, c.rbuf)
			c.rbuf = c.rbuf[k:]
			return k, nil
		case c.eof && c.rst == syscall.EPIPE:
			return 0, io.EOF
		case c.rst != nil:
			return 0, opErr("read", os.NewSyscallError("read", c.rst))
		case c.eof:
			return 0, io.EOF
		}
		c.wait(&c.rw)
	}
}

func (c *CConn) Write(p []byte) (int, error) {
	done := 0
	if c.firstW == 0 {
		c.firstW = c.n.sim.Now()
	}
	for {
		switch {
		case c.closed:
			return done, opErr("write", net.ErrClosed)
		case c.rst != nil:
			return done, opErr("write", os.NewSyscallError("write", c.rst))
		case c.wdl != 0 && c.n.sim.Now() >= c.wdl:
			return done, opErr("write", os.ErrDeadlineExceeded)
		case done == len(p):
			return done, nil
		}
		room := c.n.win - c.out.bytes
		if room <= 0 {
			var x *dial
			if c.n.blocked(c.in, c.peer) {
				x = &dial{c.n.sim.Now(), 0}
				c.in.full = append(c.in.full, x)
			}
			if x == nil && c.n.mute != nil && c.n.mute(c.peer) {
				x = &dial{c.n.sim.Now(), 0}
				c.in.stuck = append(c.in.stuck, x)
			}
			c.wait(&c.ww)
			if x != nil {
				x.t1 = c.n.sim.Now()
			}
			continue
		}
		k := len(p) - done
		if k > room {
			k = room
		}
		b := append([]byte(nil), p[done:done+k]...)
		done += k
		c.out.bytes += k
		c.send(&c.out, seg{data: b})
	}
}

func (c *CConn) send(d *dir, s seg) {
	d.q = append(d.q, s)
	now := c.n.sim.Now()
	t := now + c.n.latency()
	if t <= d.last {
		t = d.last + 1
	}
	d.last = t
	c.n.sim.At(t, func() { c.step(d) })
}

// step delivers the oldest segment of one direction.
func (c *CConn) step(d *dir) {
	if len(d.q) == 0 {
		return
	}
	if c.n.blocked(c.in, c.peer) {
		d.stuck++
		if c.closed && !c.orphan {
			c.orphan = true
			c.n.orphans = append(c.n.orphans, c)
		}
		if d.stuck == 1 {
			// retransmission gives up after a quarter of an hour
			first := &d.q[0]
			c.n.sim.After(924*sec, func() {
				if d.stuck > 0 && len(d.q) > 0 && first == &d.q[0] && d == &c.out && !c.in.dead {
					c.abort(syscall.ETIMEDOUT)
				}
			})
		}
		return
	}
	s := d.q[0]
	d.q = d.q[1:]
	if d == &c.out {
		h := c.h
		switch {
		case s.fin || s.rst != nil:
			err := s.rst
			if err == nil {
				err = io.EOF
			}
			if h.lateFin && h.paused && s.fin {
				h.eof = true
				return
			}
			h.fin(err)
		default:
			if h.paused {
				h.pend = append(h.pend, s.data)
				return
			}
			d.bytes -= len(s.data)
			wakeAll(&c.ww)
			if !h.closed && h.onData != nil {
				h.onData(s.data)
			}
		}
		return
	}
	switch {
	case c.closed || c.in.dead:
	case s.rst != nil:
		if c.rst == nil {
			c.rst = s.rst
			if s.rst != syscall.EPIPE {
				c.rbuf = nil
			}
		}
	case s.fin:
		c.eof = true
	default:
		c.rbuf = append(c.rbuf, s.data...)
	}
	wakeAll(&c.rw)
	wakeAll(&c.ww)
}

// heal lets stuck segments flow again.
func (c *CConn) heal() {
	for _, d := range []*dir{&c.out, &c.inn} {
		k := d.stuck
		d.stuck = 0
		for i := 0; i < k; i++ {
			d := d
			t := c.n.sim.Now() + c.n.latency()
			if t <= d.last {
				t = d.last + 1
			}
			d.last = t
			c.n.sim.At(t, func() { c.step(d) })
		}
	}
}

func (c *CConn) Close() error {
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.closed = true
	wakeAll(&c.rw)
	wakeAll(&c.ww)
	c.in.dropConn(c)
	if c.rst != nil {
		c.h.fin(c.rst)
		return nil
	}
	if len(c.rbuf) > 0 {
		c.send(&c.out, seg{rst: syscall.ECONNRESET})
	} else {
		c.send(&c.out, seg{fin: true})
	}
	return nil
}

// abort tears the connection down at once, on both sides.
func (c *CConn) abort(err error) {
	if c.rst == nil {
		c.rst = err
	}
	c.rbuf = nil
	wakeAll(&c.rw)
	wakeAll(&c.ww)
	c.out.q, c.inn.q = nil, nil
	c.in.dropConn(c)
	h := c.h
	c.n.sim.After(1, func() { h.fin(err) })
}

// died is called when the component's process has gone: what it had handed to
// the kernel still arrives, then the connection ends.
func (c *CConn) died() {
	if c.closed {
		return
	}
	c.closed = true
	c.send(&c.out, seg{rst: syscall.ECONNRESET})
}

func (c *CConn) LocalAddr() net.Addr  { return c.laddr }
func (c *CConn) RemoteAddr() net.Addr { return c.raddr }

func dl(n *Net, t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := n.sim.Now() + int64(time.Until(t))
	if d < 1 {
		d = 1
	}
	return d
}

func (c *CConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *CConn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	d := dl(c.n, t)
	c.rdl = d
	if d != 0 {
		c.n.sim.At(d, func() {
			if c.rdl == d {
				wakeAll(&c.rw)
			}
		})
	}
	return nil
}

func (c *CConn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	d := dl(c.n, t)
	c.wdl = d
	if d != 0 {
		c.n.sim.At(d, func() {
			if c.wdl == d {
				wakeAll(&c.ww)
			}
		})
	}
	return nil
}

// Send queues data from the harness to the component.
func (h *HEnd) Send(b []byte) {
	c := h.c
	if h.closed || c.closed {
		return
	}
	b = append([]byte(nil), b...)
	mx := c.n.segMax
	for len(b) > 0 {
		k := len(b)
		if mx > 0 && k > 1 && c.n.sim.net.P(1, 3) {
			m := mx
			if k < m {
				m = k
			}
			k = c.n.sim.net.R(1, m)
			c.n.sim.counts["split_segments"]++
		}
		c.send(&c.inn, seg{data: b[:k]})
		b = b[k:]
	}
}

// Close ends the harness's side in an orderly way.
func (h *HEnd) Close() {
	if h.closed {
		return
	}
	h.closed = true
	h.c.send(&h.c.inn, seg{fin: true})
	// nobody reads any more: what the component still writes meets a reset
	c := h.c
	c.n.sim.After(50*ms, func() {
		if !c.closed && c.rst == nil {
			c.send(&c.inn, seg{rst: syscall.EPIPE})
		}
		c.out.bytes = 0
		wakeAll(&c.ww)
	})
}

// CloseWrite sends a FIN but keeps reading.
func (h *HEnd) CloseWrite() {
	h.c.send(&h.c.inn, seg{fin: true})
}

// Reset tears the connection down abruptly.
func (h *HEnd) Reset() {
	if h.closed {
		return
	}
	h.closed = true
	c := h.c
	c.out.bytes = 0
	c.send(&c.inn, seg{rst: syscall.ECONNRESET})
}

func (h *HEnd) fin(err error) {
	if h.closed {
		return
	}
	h.closed = true
	if h.onClose != nil {
		h.onClose(err)
	}
}

// Pause stops reading; Resume reads what has piled up.
func (h *HEnd) Pause() { h.paused = true }
func (h *HEnd) Resume() {
	if !h.paused {
		return
	}
	h.paused = false
	p := h.pend
	h.pend = nil
	for _, b := range p {
		h.c.out.bytes -= len(b)
		if !h.closed && h.onData != nil {
			h.onData(b)
		}
	}
	wakeAll(&h.c.ww)
	if h.eof && !h.paused {
		h.fin(io.EOF)
	}
}

// Unread is the number of bytes sent by the harness that the component has
// not read yet.
func (h *HEnd) Unread() int {
	n := len(h.c.rbuf)
	for _, s := range h.c.inn.q {
		n += len(s.data)
	}
	return n
}

// UDP.

type udpSock struct {
	n      *Net
	in     *Inst
	port   int
	local  bool
	q      [][]byte
	bytes  int
	cap    int
	w      []chan struct{}
	closed bool
	rdl    int64
	errs   int
	onErr  func()
	onRead func(full []byte, n int)
}

// ListenUDP implements net.SimNetwork.
func (n *Net) ListenUDP(network string, laddr *net.UDPAddr) (net.SimPacketConn, error) {
	in := n.inst()
	if in == nil {
		return nil, syscall.EADDRNOTAVAIL
	}
	n.binding(in, laddr.Port)
	if in.udp[laddr.Port] != nil || in.spec.occupied[laddr.Port] {
		return nil, os.NewSyscallError("bind", syscall.EADDRINUSE)
	}
	if in.failing("UDP socket") {
		n.sim.Fault("no_descriptors")
		return nil, os.NewSyscallError("socket", syscall.EMFILE)
	}
	u := &udpSock{n: n, in: in, port: laddr.Port, local: laddr.IP != nil && laddr.IP.IsLoopback(), cap: 212992}
	in.udp[laddr.Port] = u
	in.bound++
	n.sim.Log("node %s binds udp %d", in.name(), laddr.Port)
	if in.spec.onUDP != nil {
		in.spec.onUDP(u)
	}
	return u, nil
}

// Deliver puts a datagram into a socket's receive buffer.
func (n *Net) Deliver(in *Inst, port int, b []byte) bool {
	if in == nil || in.dead {
		return false
	}
	u := in.udp[port]
	if u == nil || u.local {
		return false
	}
	if u.bytes+len(b)+512 > u.cap {
		n.sim.Fault("udp_rcvbuf_overflow")
		return false
	}
	u.q = append(u.q, append([]byte(nil), b...))
	u.bytes += len(b) + 512
	wakeAll(&u.w)
	return true
}

func (u *udpSock) ReadFrom(p []byte) (int, *net.UDPAddr, error) {
	from := &net.UDPAddr{IP: net.IPv4(10, 0, 2, 1), Port: 5000}
	for {
		switch {
		case u.closed:
			return 0, nil, &net.OpError{Op: "read", Net: "udp", Err: net.ErrClosed}
		case u.errs > 0:
			u.errs--
			if u.onErr != nil {
				u.onErr()
			}
			u.n.sim.Fault("udp_read_error")
			return 0, nil, &net.OpError{Op: "read", Net: "udp", Err: os.NewSyscallError("read", syscall.ENOBUFS)}
		case u.rdl != 0 && u.n.sim.Now() >= u.rdl:
			return 0, nil, &net.OpError{Op: "read", Net: "udp", Err: os.ErrDeadlineExceeded}
		case len(u.q) > 0:
			d := u.q[0]
			u.q = u.q[1:]
			u.bytes -= len(d) + 512
			k := copy(p, d)
			if u.onRead != nil {
				u.onRead(d, k)
			}
			return k, from, nil
		}
		ch := make(chan struct{}, 1)
		u.w = append(u.w, ch)
		<-ch
	}
}

func (u *udpSock) Close() error {
	if u.closed {
		return net.ErrClosed
	}
	u.closed = true
	if u.in.udp[u.port] == u {
		delete(u.in.udp, u.port)
	}
	u.n.sim.Log("node %s closes udp %d", u.in.name(), u.port)
	wakeAll(&u.w)
	return nil
}

func (u *udpSock) LocalAddr() *net.UDPAddr { return &net.UDPAddr{IP: net.IPv4zero, Port: u.port} }

func (u *udpSock) SetReadDeadline(t time.Time) error {
	d := dl(u.n, t)
	u.rdl = d
	if d != 0 {
		u.n.sim.At(d, func() {
			if u.rdl == d {
				wakeAll(&u.w)
			}
		})
	}
	return nil
}

func (u *udpSock) SetReadBuffer(bytes int) error {
	if u.in.failing("SetReadBuffer") {
		u.n.sim.Fault("setsockopt_error")
		return os.NewSyscallError("setsockopt", syscall.ENOBUFS)
	}
	u.cap = 2 * bytes
	return nil
}
