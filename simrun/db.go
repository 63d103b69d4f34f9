package main

import (
	"bytes"
	"fmt"
	"net/url"
	"strconv"
	"strings"
	"syscall"
)

// DB stands in for an InfluxDB server.
type DB struct {
	w        *World
	name     string
	host     string
	port     int
	mode     string // see behave
	rng      *Rng
	attempts []*Attempt
	conns    []*dbConn
	stalled  bool
	lenient  bool    // does not report malformed requests
	resets   []int64 // when all connections were reset
	onDone   []func(*Attempt)
	onReq    []func(*Attempt)
	gone     []func(*Attempt) // the client gave up
}

// Attempt is one request received by a DB.
type Attempt struct {
	T0      int64 // first byte
	S0, S1  int64 // the client started between these
	Lag     int64
	T       int64 // last byte; 0 if it never came
	TEnd    int64 // when the outcome was decided (response sent, reset...)
	TClient int64 // when the client closed the connection without a response
	Inst    *Inst
	DB      *DB
	Conn    int
	Method  string
	Path    string
	Query   url.Values
	RawURL  string
	Auth    string
	CT      string
	Body    []byte
	Outcome string
	Code    int // 0: no response
	Applied bool
	Lines   [][]byte
}

type dbConn struct {
	db   *DB
	h    *HEnd
	in   *Inst
	id   int
	buf  []byte
	t0   int64
	busy *Attempt
	n    int
	dead bool
}

func (w *World) addDB(k int) *DB {
	db := &DB{w: w, name: fmt.Sprintf("influx%d", k), host: fmt.Sprintf("10.0.1.%d", k), port: 8086,
		mode: "ok", rng: newRng(w.plan.Seed, fmt.Sprint("db", k))}
	w.net.servers[fmt.Sprintf("%s:%d", db.host, db.port)] = &Server{name: db.name, accept: db.accept}
	w.dbs = append(w.dbs, db)
	return db
}

// reset reports whether connections were reset between t0 and t1.
func (db *DB) resetIn(t0, t1 int64) bool {
	for _, t := range db.resets {
		if t >= t0 && t <= t1 {
			return true
		}
	}
	return false
}

func (db *DB) server() *Server { return db.w.net.servers[fmt.Sprintf("%s:%d", db.host, db.port)] }

func (db *DB) accept(h *HEnd) {
	c := &dbConn{db: db, h: h, in: h.c.in, id: h.c.id}
	db.conns = append(db.conns, c)
	if db.stalled {
		h.Pause()
	}
	h.onData = c.data
	h.onClose = func(err error) {
		c.dead = true
		if c.busy != nil && c.busy.TEnd == 0 {
			c.busy.TClient = db.w.Now()
			for _, f := range db.gone {
				f(c.busy)
			}
		}
		for i, x := range db.conns {
			if x == c {
				db.conns = append(db.conns[:i:i], db.conns[i+1:]...)
				break
			}
		}
	}
}

// SetMode changes the server's behaviour. Modes: ok, a status code,
// reset-before, reset-after, close, silent, silent-after, slow:<ms>,
// drip:<ms>, garbage, refuse, drop, stall, mix:<mode>,<mode>...
func (db *DB) SetMode(m string) {
	db.w.Log("%s mode %s", db.name, m)
	db.mode = m
	s := db.server()
	s.mode = ""
	stall := false
	switch m {
	case "refuse":
		s.mode = "refuse"
		db.w.Fault("db_refuse")
		db.resets = append(db.resets, db.w.Now())
		for len(db.conns) > 0 {
			c := db.conns[0]
			c.h.c.abort(syscall.ECONNRESET)
			c.dead = true
			if c.busy != nil && c.busy.TEnd == 0 {
				c.busy.TEnd = db.w.Now()
				c.busy.Outcome += "+crash"
			}
			db.conns = db.conns[1:]
		}
	case "drop":
		s.mode = "drop"
		db.w.Fault("db_unreachable")
	case "stall":
		stall = true
		db.w.Fault("db_stall")
	}
	if stall != db.stalled {
		db.stalled = stall
		for _, c := range append([]*dbConn(nil), db.conns...) {
			if stall {
				c.h.Pause()
			} else {
				c.h.Resume()
			}
		}
	}
}

func (c *dbConn) data(p []byte) {
	if c.t0 == 0 {
		c.t0 = c.db.w.Now()
	}
	c.buf = append(c.buf, p...)
	for !c.dead && c.busy == nil {
		req, rest, bad := parseHTTP(c.buf)
		if bad != "" && c.db.lenient {
			c.h.Reset()
			c.dead = true
			return
		}
		if bad != "" {
			c.db.w.Violate(c.db.w.plan.Prop, "bad-http", "malformed HTTP request from %s: %s: %s", c.in.name(), bad, short(c.buf))
			c.h.Reset()
			c.dead = true
			return
		}
		if req == nil {
			return
		}
		c.buf = rest
		now := c.db.w.Now()
		a := &Attempt{T0: c.t0, T: now, Inst: c.in, DB: c.db, Conn: c.id, Method: req.method, RawURL: req.uri,
			Auth: req.hdr["authorization"], CT: req.hdr["content-type"], Body: req.body}
		c.t0 = 0
		a.S1 = c.h.c.firstW
		a.S0 = a.S1
		if c.n == 0 {
			a.S0 = c.h.c.dialT
		}
		c.n++
		a.Lag = c.db.w.Lag()
		if u, err := url.Parse(req.uri); err == nil {
			a.Path, a.Query = u.Path, u.Query()
		}
		c.db.attempts = append(c.db.attempts, a)
		c.busy = a
		for _, f := range c.db.onReq {
			f(a)
		}
		c.behave(a)
	}
}

func (c *dbConn) behave(a *Attempt) {
	db := c.db
	m := db.mode
	if strings.HasPrefix(m, "mix:") {
		parts := strings.Split(m[4:], ",")
		m = parts[db.rng.N(len(parts))]
	}
	a.Outcome = m
	db.w.Log("%s gets %s %s %x -> %s", db.name, a.Inst.name(), a.RawURL, fnv(a.Body), m)
	arg := int64(0)
	if i := strings.IndexByte(m, ':'); i > 0 {
		k, _ := strconv.Atoi(m[i+1:])
		arg = int64(k) * ms
		m = m[:i]
	}
	respond := func(code int, after int64) {
		db.w.After(after, func() {
			if c.dead || a.TEnd != 0 {
				return
			}
			a.TEnd = db.w.Now()
			a.Code = code
			if code >= 200 && code < 300 {
				a.Applied = true
			}
			text := map[int]string{200: "OK", 202: "Accepted", 204: "No Content"}[code]
			if text == "" {
				text = "Status"
			}
			body := ""
			if code > 204 && code != 304 {
				body = `{"error":"simulated"}` + "\n"
			}
			c.h.Send([]byte(fmt.Sprintf("HTTP/1.1 %d %s\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", code, text, len(body), body)))
			c.finish(a)
		})
	}
	base := db.rng.D(200*us, 2*ms)
	switch m {
	case "ok", "stall", "refuse", "drop":
		a.Outcome = "ok"
		respond(204, base)
	case "slow":
		db.w.Fault("db_slow")
		respond(204, arg)
	case "slow503":
		db.w.Fault("db_slow_error")
		respond(503, arg)
	case "drip":
		db.w.Fault("db_slow")
		msg := []byte("HTTP/1.1 204 No Content\r\nContent-Length: 0\r\n\r\n")
		for i := range msg {
			i := i
			db.w.After(base+arg*int64(i)/int64(len(msg)), func() {
				if c.dead || a.TEnd != 0 {
					return
				}
				c.h.Send(msg[i : i+1])
				if i == len(msg)-1 {
					a.TEnd, a.Code, a.Applied = db.w.Now(), 204, true
					c.finish(a)
				}
			})
		}
	case "reset-before", "reset-after", "close", "close-after", "garbage":
		db.w.Fault("db_" + strings.Replace(m, "-", "_", -1))
		db.w.After(base, func() {
			if c.dead {
				return
			}
			a.TEnd = db.w.Now()
			a.Applied = strings.HasSuffix(m, "-after")
			c.dead = true
			c.busy = nil
			db.remove(c)
			if m == "garbage" {
				c.h.Send([]byte("\x00\x01 not http at all\r\n\r\n"))
			}
			if strings.HasPrefix(m, "reset") {
				c.h.c.abort(syscall.ECONNRESET)
			} else {
				c.h.Close()
			}
			for _, f := range db.onDone {
				f(a)
			}
		})
	case "hostile":
		db.w.Fault("db_hostile")
		msg, keep := hostileResponse(db.rng)
		db.w.After(base, func() {
			if c.dead {
				return
			}
			a.TEnd = db.w.Now()
			c.h.Send(msg)
			if keep {
				c.finish(a)
				return
			}
			c.dead = true
			c.busy = nil
			db.remove(c)
			c.h.Close()
		})
	case "part503":
		// the rest of the response never comes
		db.w.Fault("db_partial_response")
		db.w.After(base, func() {
			if !c.dead {
				c.h.Send([]byte("HTTP/1.1 503 Status\r\nContent-Length: 1000\r\n\r\n{\"error\":"))
			}
		})
	case "silent", "silent-after":
		db.w.Fault("db_silent")
		a.Applied = m == "silent-after"
	default:
		code, err := strconv.Atoi(m)
		if err != nil {
			panic("bad db mode " + m)
		}
		if code >= 300 {
			db.w.Fault(fmt.Sprintf("db_%dxx", code/100))
		}
		respond(code, base)
	}
}

// hostileResponse is something that a confused or malicious database may say.
func hostileResponse(r *Rng) (b []byte, keep bool) {
	keep = r.P(1, 3)
	switch r.N(12) {
	case 0:
		b = make([]byte, r.R(0, 200))
		for i := range b {
			b[i] = byte(r.U64())
		}
	case 1:
		b = []byte(r.Pick("", "\r\n\r\n", "HTTP/1.1", "HTTP/1.1 \r\n\r\n", "HTTP/1.1 99999999999 X\r\n\r\n", "HTTP/1.1 -1 X\r\n\r\n", "HTTP/9.9 204 X\r\n\r\n", "204\r\n\r\n", "HTTP/1.1 000 X\r\n\r\n", "HTTP/1.1 1 X\r\n\r\n"))
	case 2:
		b = []byte("HTTP/1.1 500 X\r\nContent-Length: " + r.Pick("-5", "99999999999999999999", "abc", "1000000", "") + "\r\n\r\nsome text")
	case 3:
		b = []byte("HTTP/1.1 " + r.Pick("204", "400", "503") + " X\r\nTransfer-Encoding: chunked\r\n\r\n" + r.Pick("zz\r\n", "ffffffffffffffff\r\nx", "5\r\nabc", "-1\r\n", "0\r\n\r\n", ""))
	case 4:
		b = []byte("HTTP/1.1 " + r.Pick("301", "302", "307", "308") + " Moved\r\nLocation: " + r.Pick("/write", "/", "http://influx1:8086/write?db=x", "http://nowhere/", ":::", "", "\x00") + "\r\nContent-Length: 0\r\n\r\n")
	case 5:
		for i, n := 0, r.R(1, 50); i < n; i++ {
			b = append(b, "HTTP/1.1 100 Continue\r\n\r\n"...)
		}
	case 6:
		b = append([]byte("HTTP/1.1 400 X\r\nX: "), bytes.Repeat([]byte{'x'}, int(r.LogD(10, 20000)))...)
	case 7:
		body := bytes.Repeat([]byte(r.Pick("%s%d%n", "\x00", "\n", "{", "e")), int(r.LogD(1, 10000)))
		b = append([]byte(fmt.Sprintf("HTTP/1.1 %s X\r\nContent-Length: %d\r\n\r\n", r.Pick("400", "404", "500", "200"), len(body))), body...)
	case 8:
		b = []byte("HTTP/1.1 204 No Content\r\nContent-Length: 0\r\n\r\nHTTP/1.1 204 No Content\r\n\r\nmore")
	case 9:
		b = []byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: x\r\nConnection: upgrade\r\n\r\n")
	case 10:
		b = []byte("HTTP/1.0 200 OK\r\n\r\nuntil the end")
	case 11:
		b = []byte("HTTP/1.1 401 X\r\nWWW-Authenticate: Basic\r\nContent-Encoding: gzip\r\nContent-Length: 3\r\n\r\nabc")
	}
	return
}

func (db *DB) remove(c *dbConn) {
	for i, x := range db.conns {
		if x == c {
			db.conns = append(db.conns[:i:i], db.conns[i+1:]...)
			break
		}
	}
}

func (c *dbConn) finish(a *Attempt) {
	c.busy = nil
	c.h.c.firstW = 0
	for _, f := range c.db.onDone {
		f(a)
	}
	if len(c.buf) > 0 {
		c.data(nil)
	}
}

type httpReq struct {
	method, uri string
	hdr         map[string]string
	body        []byte
}

// parseHTTP parses one request if all of it is there.
func parseHTTP(b []byte) (r *httpReq, rest []byte, bad string) {
	i := bytes.Index(b, []byte("\r\n\r\n"))
	if i < 0 {
		return nil, b, ""
	}
	lines := strings.Split(string(b[:i]), "\r\n")
	f := strings.Split(lines[0], " ")
	if len(f) != 3 {
		return nil, b, "bad request line"
	}
	r = &httpReq{method: f[0], uri: f[1], hdr: map[string]string{}}
	for _, l := range lines[1:] {
		k := strings.IndexByte(l, ':')
		if k <= 0 {
			return nil, b, "bad header"
		}
		r.hdr[strings.ToLower(l[:k])] = strings.TrimSpace(l[k+1:])
	}
	rest = b[i+4:]
	if strings.EqualFold(r.hdr["transfer-encoding"], "chunked") {
		body, rest2, ok, bad := parseChunked(rest)
		if bad != "" {
			return nil, b, bad
		}
		if !ok {
			return nil, b, ""
		}
		r.body = body
		return r, rest2, ""
	}
	n := 0
	if cl := r.hdr["content-length"]; cl != "" {
		var err error
		if n, err = strconv.Atoi(cl); err != nil || n < 0 {
			return nil, b, "bad content length"
		}
	}
	if len(rest) < n {
		return nil, b, ""
	}
	r.body = append([]byte(nil), rest[:n]...)
	return r, rest[n:], ""
}

func parseChunked(b []byte) (body, rest []byte, ok bool, bad string) {
	for {
		i := bytes.Index(b, []byte("\r\n"))
		if i < 0 {
			return nil, nil, false, ""
		}
		n, err := strconv.ParseInt(string(b[:i]), 16, 32)
		if err != nil {
			return nil, nil, false, "bad chunk size"
		}
		b = b[i+2:]
		if int64(len(b)) < n+2 {
			return nil, nil, false, ""
		}
		body = append(body, b[:n]...)
		b = b[n+2:]
		if n == 0 {
			return body, b, true, ""
		}
	}
}
