package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"log"
	"net"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/spf13/afero"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/simcmd/spout"
	"github.com/jumptrading/influx-spout/v2/simcmd/tap"
	"github.com/jumptrading/influx-spout/v2/stats"
)

// Plan is everything that decides a run.
type Plan struct {
	Prop   string            `json:"prop"`
	Seed   uint64            `json:"seed"`
	Family string            `json:"family"`
	Sched  Sched             `json:"sched"`
	Net    NetCfg            `json:"net"`
	Nodes  []NodeCfg         `json:"nodes"`
	DBs    int               `json:"dbs,omitempty"`
	Epoch  int64             `json:"epoch"`
	End    int64             `json:"end"`
	P      map[string]int64  `json:"p,omitempty"`
	S      map[string]string `json:"s,omitempty"`
	Events []*Ev             `json:"events"`
}

// Sched decides the interleavings.
type Sched struct {
	Seed     uint64      `json:"seed"`
	Policy   int         `json:"policy"`
	Cost     int64       `json:"cost"`
	PauseP   uint32      `json:"pause_p"`
	PauseMax int64       `json:"pause_max"`
	SiteDen  int         `json:"site_den"` // one site in SiteDen may be preempted
	SiteP    int         `json:"site_p"`   // with this probability in 256
	Changes  []uint64    `json:"changes,omitempty"`
	Windows  [][2]uint64 `json:"windows"`
	MaxPicks uint64      `json:"max_picks"`
}

type NetCfg struct {
	LatMin  int64 `json:"lat_min"`
	LatMax  int64 `json:"lat_max"`
	SlowP   int   `json:"slow_p"`
	SlowMax int64 `json:"slow_max"`
	SegMax  int   `json:"seg_max"`
	Win     int   `json:"win,omitempty"` // bytes a connection buffers
}

// NodeCfg describes one process.
type NodeCfg struct {
	Name    string   `json:"name"`
	Kind    string   `json:"kind"` // main, api, tap
	Conf    string   `json:"conf"`
	Common  string   `json:"common,omitempty"`
	Port    int      `json:"port,omitempty"`
	Probe   int      `json:"probe,omitempty"`
	Args    []string `json:"args,omitempty"`
	NoStart bool     `json:"no_start,omitempty"`
	// Supervised processes are restarted when they exit because the bus was
	// unreachable at start-up.
	Supervise bool `json:"supervise,omitempty"`
}

// Ev is one scheduled event.
type Ev struct {
	T     int64    `json:"t"`
	K     string   `json:"k"`
	N     int      `json:"n,omitempty"`
	A     int64    `json:"a,omitempty"`
	B     int64    `json:"b,omitempty"`
	S     string   `json:"s,omitempty"`
	S2    string   `json:"s2,omitempty"`
	Data  []byte   `json:"data,omitempty"`
	Parts [][]byte `json:"parts,omitempty"`
	L     []*Line  `json:"l,omitempty"`
	Gaps  []int64  `json:"gaps,omitempty"`
	// Fixed events are not removed by the minimiser.
	Fixed bool `json:"fixed,omitempty"`

	filled []byte
}

// Spec is a node of the plan; Inst is one incarnation of it.
type Spec struct {
	idx      int
	cfg      NodeCfg
	files    map[string]*simFile
	occupied map[int]bool
	inst     *Inst
	insts    []*Inst
	onUDP    func(*udpSock)
	onStart  func(*Inst)
	onDeath  func(*Inst)
	stop     func() // api nodes
	// api nodes: Stop is called so long after Start returned (-1: on request)
	stopAfter int64
	onAPI     func(in *Inst, what string)
	onConf    func(in *Inst, c *config.Config, err error)
	undo      func()
	// the how-manieth socket operation from now fails
	failOp   int
	failHit  bool
	failWhat string
}

// Inst is one run of a process.
type Inst struct {
	spec      *Spec
	id        int32
	n         int
	dead      bool
	death     string // "", "killed", "panic", "exit"
	deathMsg  string
	frames    string
	code      int
	T0, T1    int64 // birth and death
	lag0      int64
	lag1      int64
	conns     []*CConn
	dials     []*dial
	full      []*dial
	stuck     []*dial
	bound     int // ports opened so far
	listeners map[int]*lis
	udp       map[int]*udpSock
	cut       map[string]bool
	stalled   bool
	expect    bool // its exit is expected
	ret       chan struct{}
	apiErr    error
	apiStart  int64 // when Start returned
	apiStop0  int64 // when it was asked to stop
	apiCall   int64 // when Stop was called
	apiStop   int64 // when Stop returned
	stopper   interface{ Stop() }
	stopReq   chan struct{}
	ready     int64
}

func (in *Inst) name() string {
	if in == nil {
		return "harness"
	}
	return fmt.Sprintf("%s#%d", in.spec.cfg.Name, in.n)
}
func (in *Inst) host() string { return fmt.Sprintf("10.0.3.%d", in.spec.idx+1) }

func (in *Inst) dropConn(c *CConn) {
	for i, x := range in.conns {
		if x == c {
			in.conns = append(in.conns[:i:i], in.conns[i+1:]...)
			return
		}
	}
}

// World is one simulated deployment.
type World struct {
	*Sim
	plan      *Plan
	net       *Net
	broker    *Broker
	dbs       []*DB
	specs     []*Spec
	byID      map[int32]*Inst
	nextID    int32
	on        map[string]func(*Ev)
	logbuf    *logSink
	checks    int // oracle comparisons made
	reqs      []*Req
	idleConns map[httpIdle][]*HEnd
	onEnd     []func()
	stdout    *os.File
	fsOpens   int
	stallNs   int64 // total time processes have been stalled
	most      int
	peak      int64 // slowPeak, plus 1
	stalls    int   // processes stalled now
	stallT    int64
}

type logSink struct {
	w     *World
	lines int
}

func (l *logSink) Write(p []byte) (int, error) {
	l.lines++
	if l.w != nil && l.w.trace {
		in := l.w.byID[runtime.SimNode()]
		l.w.lines = append(l.w.lines, fmt.Sprintf("%12.6f   log %s: %s", float64(l.w.Now())/1e9, in.name(), strings.TrimSpace(string(p))))
	}
	return len(p), nil
}

func newWorld(p *Plan, trace bool) *World {
	w := &World{Sim: newSim(p.Seed), plan: p, byID: map[int32]*Inst{}, nextID: 1, on: map[string]func(*Ev){}}
	w.trace = trace
	w.net = &Net{sim: w.Sim, servers: map[string]*Server{}, latMin: p.Net.LatMin, latMax: p.Net.LatMax,
		slowP: p.Net.SlowP, slowMax: p.Net.SlowMax, segMax: p.Net.SegMax, win: connWindow}
	if p.Net.Win > 0 {
		w.net.win = p.Net.Win
	}
	w.net.node = func(id int32) *Inst { return w.byID[id] }
	net.SimNet = w.net
	w.broker = newBroker(w)
	w.net.mute = func(peer string) bool { return peer == "nats" && w.broker.stall }
	for i := 1; i <= p.DBs; i++ {
		w.addDB(i)
	}
	w.logbuf = &logSink{w: w}
	log.SetOutput(w.logbuf)
	stats.SetHostname("simhost")
	config.Fs = &simFs{Fs: afero.NewMemMapFs(), w: w}
	for i, n := range p.Nodes {
		s := &Spec{idx: i, cfg: n, files: map[string]*simFile{}, occupied: map[int]bool{}, stopAfter: -1}
		s.files[s.confPath()] = &simFile{data: []byte(n.Conf)}
		if n.Common != "" {
			s.files["/etc/influx-spout.toml"] = &simFile{data: []byte(n.Common)}
		}
		w.specs = append(w.specs, s)
	}
	w.poll = w.reap
	w.baseHandlers()
	return w
}

func (s *Spec) confPath() string { return "/cfg/" + s.cfg.Name + ".toml" }

// Start starts a node (a new incarnation).
func (w *World) Start(s *Spec) *Inst {
	if old := s.inst; old != nil && !old.dead {
		if old.apiStop == 0 && old.apiErr == nil {
			return old
		}
		// a stopped component: its process makes way
		runtime.SimSetState(old.id, 2)
		w.bury(old, "stopped", "", "")
	}
	if w.nextID >= 60 {
		return nil
	}
	in := &Inst{spec: s, id: w.nextID, n: len(s.insts), T0: w.Now(), listeners: map[int]*lis{}, udp: map[int]*udpSock{}, cut: map[string]bool{}}
	w.nextID++
	if s.inst != nil {
		runtime.SimSetOffset(in.id, runtime.SimOffset(s.inst.id))
		for k, v := range s.inst.cut {
			in.cut[k] = v
		}
	}
	in.lag0 = w.Lag()
	s.inst = in
	s.insts = append(s.insts, in)
	w.byID[in.id] = in
	w.Log("start %s", in.name())
	if s.onStart != nil {
		s.onStart(in)
	}
	switch s.cfg.Kind {
	case "", "main":
		spout.SimArgs[in.id] = []string{"influx-spout", s.confPath()}
		go func() {
			runtime.SimSetNode(in.id)
			spout.Main()
		}()
	case "tap":
		os.Args = append([]string{"influx-spout-tap"}, s.cfg.Args...)
		go func() {
			runtime.SimSetNode(in.id)
			tap.Main()
		}()
	case "api":
		in.stopReq = make(chan struct{}, 1)
		go func() {
			runtime.SimSetNode(in.id)
			w.apiMain(in)
		}()
	}
	return in
}

// Again starts a component again in the process it has been stopped in.
func (w *World) Again(s *Spec) {
	in := s.inst
	in.apiErr, in.apiStart, in.apiStop0, in.apiCall, in.apiStop, in.stopper = nil, 0, 0, 0, 0, nil
	in.stopReq = make(chan struct{}, 1)
	w.Log("start %s again", in.name())
	go func() {
		runtime.SimSetNode(in.id)
		w.apiMain(in)
	}()
}

// failing reports whether a socket operation has to fail.
func (in *Inst) failing(what string) bool {
	s := in.spec
	if s.failOp == 0 {
		return false
	}
	s.failOp--
	if s.failOp == 0 {
		s.failHit, s.failWhat = true, what
		return true
	}
	return false
}

// Kill ends a process at once.
func (w *World) Kill(s *Spec) {
	if s.inst == nil || s.inst.dead {
		return
	}
	runtime.SimSetState(s.inst.id, 2)
	w.bury(s.inst, "killed", "", "")
}

func (w *World) bury(in *Inst, kind, msg, frames string) {
	if in.dead {
		return
	}
	in.dead = true
	in.death, in.deathMsg, in.frames = kind, msg, frames
	in.T1, in.lag1 = w.Now(), w.Lag()
	w.Log("%s %s %s", in.name(), kind, msg)
	for _, c := range append([]*CConn(nil), in.conns...) {
		c.died()
	}
	in.conns = nil
	for _, l := range in.listeners {
		l.closed = true
		for _, c := range l.q {
			c.died()
		}
	}
	in.listeners = map[int]*lis{}
	in.udp = map[int]*udpSock{}
}

// reap notices processes that have ended by themselves.
func (w *World) reap() {
	for _, s := range w.specs {
		in := s.inst
		if in == nil || in.dead || runtime.SimState(in.id) != 2 {
			continue
		}
		kind, val, code, pcs := runtime.SimDeath(in.id)
		fr := frames(pcs)
		in.code = code
		switch kind {
		case 2:
			msg := panicText(val)
			w.bury(in, "panic", msg, fr)
			if !in.expect {
				w.Violate(w.plan.Prop, "panic", "%s panicked: %s [%s]", in.name(), msg, fr)
			}
		case 3:
			w.bury(in, "exit", fmt.Sprint("code ", code), fr)
			if s.onDeath != nil {
				s.onDeath(in)
			}
			switch {
			case in.expect:
			case s.cfg.Supervise && in.T1-in.T0 < 70*sec && (!w.everReady(in) || strings.HasPrefix(fr, "spout.")):
				// could not start: its supervisor tries again
				w.Count("supervised_restarts", 1)
				w.After(2*sec, func() { w.Start(s) })
			default:
				w.Violate(w.plan.Prop, "exit", "%s exited with code %d [%s]", in.name(), code, fr)
			}
		default:
			w.bury(in, "killed", "", "")
		}
	}
	_, _, _, _, _, _, _, over, node := runtime.SimStats()
	if over != 0 && w.counts["overrun"] == 0 {
		w.Count("overrun", 1)
		what := "takes more scheduling steps than any useful work explains"
		if over == 2 {
			what = "spins without blocking"
		}
		w.Violate(w.plan.Prop, "livelock", "%s %s", w.byID[node].name(), what)
		w.finish()
	}
}

func (w *World) everReady(in *Inst) bool { return in.ready != 0 }

func panicText(v interface{}) string {
	switch x := v.(type) {
	case error:
		return x.Error()
	case string:
		return x
	}
	return fmt.Sprintf("%v", v)
}

func frames(pcs []uintptr) string {
	fs := runtime.CallersFrames(pcs)
	var out []string
	for {
		f, more := fs.Next()
		if strings.Contains(f.Function, "jumptrading/influx-spout") {
			fn := f.Function[strings.LastIndexByte(f.Function, '/')+1:]
			out = append(out, fn)
			if len(out) >= 4 {
				break
			}
		}
		if !more {
			break
		}
	}
	return strings.Join(out, " < ")
}

// Stall freezes a process for a while.
func (w *World) Stall(s *Spec, d int64) {
	in := s.inst
	if in == nil || in.dead || in.stalled {
		return
	}
	in.stalled = true
	w.stallMark(1)
	w.Fault("process_stall")
	w.Log("stall %s for %d", in.name(), d)
	runtime.SimSetState(in.id, 1)
	w.After(d, func() {
		in.stalled = false
		w.stallMark(-1)
		if !in.dead && runtime.SimState(in.id) == 1 {
			w.Log("resume %s", in.name())
			runtime.SimSetState(in.id, 0)
		}
	})
}

func (w *World) stallMark(n int) {
	if w.stalls > 0 {
		w.stallNs += w.Now() - w.stallT
	}
	w.stallT = w.Now()
	w.stalls += n
}

// Lag bounds the delay that scheduling and stalls (of any process) have
// caused so far.  Between two moments the components cannot have fallen
// behind by more than the difference plus w.slack().
func (w *World) Lag() int64 {
	w.stallMark(0)
	return runtime.SimLag() + w.stallNs
}

// netLag is the part of it that matters to what is not preempted: the clients
// of the bus and of HTTP up to where they call the components.
func (w *World) netLag() int64 {
	w.stallMark(0)
	return runtime.SimCPULag() + w.stallNs
}

// slack allows for preemptions under way at the start of an interval and for
// the network.
func (w *World) slack() int64 {
	return 20*ms + 6*w.plan.Sched.PauseMax + 4*(w.net.latMax+w.slowPeak())
}

func (w *World) slowPeak() int64 {
	if w.peak > 0 {
		return w.peak - 1
	}
	m := w.plan.Net.SlowMax
	for _, e := range w.plan.Events {
		if e.K == "netslow" && e.B > m {
			m = e.B
		}
	}
	w.peak = m + 1
	return m
}

// Cut partitions a node from a peer ("nats", "influx1", "*") and heals it.
func (w *World) Cut(s *Spec, peer string, d int64) {
	in := s.inst
	if in == nil || in.dead {
		return
	}
	w.Fault("partition")
	w.Log("partition %s from %s for %d", in.name(), peer, d)
	in.cut[peer] = true
	w.After(d, func() {
		in := s.inst
		for _, x := range s.insts {
			delete(x.cut, peer)
		}
		w.Log("heal %s to %s", in.name(), peer)
		for _, c := range append([]*CConn(nil), in.conns...) {
			c.heal()
		}
		// what was closed meanwhile
		old := w.net.orphans
		w.net.orphans = nil
		for _, c := range old {
			if w.net.blocked(c.in, c.peer) {
				w.net.orphans = append(w.net.orphans, c)
				continue
			}
			c.orphan = false
			c.heal()
		}
	})
}

func (w *World) spec(i int) *Spec {
	if i < 0 || i >= len(w.specs) {
		return nil
	}
	return w.specs[i]
}

func (w *World) db(name string) *DB {
	for _, d := range w.dbs {
		if d.name == name {
			return d
		}
	}
	return nil
}

func (w *World) baseHandlers() {
	w.on["start"] = func(e *Ev) { w.startEvent(e, 100) }
	w.on["stop"] = func(e *Ev) { w.StopNode(w.specs[e.N]) }
	w.on["kill"] = func(e *Ev) {
		if s := w.specs[e.N]; s.inst != nil && !s.inst.dead {
			w.Fault("process_crash")
			w.Kill(s)
		}
	}
	w.on["stall"] = func(e *Ev) { w.Stall(w.specs[e.N], e.A) }
	w.on["clock"] = func(e *Ev) {
		in := w.specs[e.N].inst
		if in != nil {
			w.Fault("clock_jump")
			w.Log("clock of %s now off by %d", in.name(), e.A)
			runtime.SimSetOffset(in.id, e.A)
		}
	}
	w.on["cut"] = func(e *Ev) { w.Cut(w.specs[e.N], e.S, e.A) }
	w.on["busdown"] = func(e *Ev) {
		w.broker.Down()
		w.After(e.A, w.broker.Up)
	}
	w.on["busreset"] = func(e *Ev) {
		if e.N < 0 {
			w.broker.ResetConns(nil)
		} else if in := w.specs[e.N].inst; in != nil {
			w.broker.ResetConns(in)
		}
	}
	w.on["busstall"] = func(e *Ev) {
		w.broker.Stall(true)
		w.After(e.A, func() { w.broker.Stall(false) })
	}
	w.on["db"] = func(e *Ev) { w.db(e.S).SetMode(e.S2) }
	w.on["pub"] = func(e *Ev) { w.broker.Publish(e.S, e.Data) }
	w.on["udperr"] = func(e *Ev) {
		if in := w.specs[e.N].inst; in != nil {
			for _, u := range in.udp {
				u.errs++
				wakeAll(&u.w)
			}
		}
		if e.A > 0 {
			// one after the other for a while
			w.After(e.B, func() { w.on["udperr"](&Ev{N: e.N, A: e.A - e.B, B: e.B}) })
		}
	}
	w.on["hold"] = func(e *Ev) {
		if in := w.specs[e.N].inst; in != nil && !in.dead {
			n := runtime.SimHeld()
			runtime.SimHold(in.id, e.A)
			w.After(sec, func() {
				if runtime.SimHeld() != n {
					w.Fault("hold")
				}
			})
		}
	}
	w.on["netslow"] = func(e *Ev) {
		w.net.slowP, w.net.slowMax = int(e.A), e.B
	}
	w.on["http"] = func(e *Ev) { w.httpEvent(e) }
}

// startEvent starts a node; one that is being stopped is given time.
func (w *World) startEvent(e *Ev, tries int) {
	if in := w.specs[e.N].inst; in != nil && !in.dead && in.apiStop0 != 0 && in.apiStop == 0 && tries > 0 {
		w.After(200*ms, func() { w.startEvent(e, tries-1) })
		return
	}
	w.Start(w.specs[e.N])
}

// StopNode asks a component to stop.
func (w *World) StopNode(s *Spec) {
	in := s.inst
	if in == nil || in.dead || in.stopReq == nil || in.apiStop0 != 0 {
		return
	}
	w.Fault("component_stop")
	in.apiStop0 = w.Now()
	select {
	case in.stopReq <- struct{}{}:
	default:
	}
}

func (w *World) finish() {
	if !w.stop {
		w.stop = true
	}
}

// Run executes the plan.
func (w *World) Run() {
	p := w.plan
	runtime.SimSetEpoch(p.Epoch)
	sort.SliceStable(p.Events, func(i, j int) bool { return p.Events[i].T < p.Events[j].T })
	base := w.Now()
	for _, s := range w.specs {
		s := s
		if !s.cfg.NoStart {
			w.At(base, func() { w.Start(s) })
		}
	}
	for _, e := range p.Events {
		e := e
		h := w.on[e.K]
		if h == nil {
			panic("no handler for event " + e.K)
		}
		w.At(base+e.T, func() { h(e) })
	}
	var tick func()
	tick = func() { w.After(sec, tick) }
	tick()
	// The run is as much longer as scheduling and stalls have held it up.
	var ends func()
	given := int64(0)
	ends = func() {
		more := w.Lag() - given
		if more < ms || given > 1800*sec {
			w.finish()
			return
		}
		if given += more; given > 120*sec {
			// No more of it: they have to be able to catch up.
			sc := &p.Sched
			runtime.SimSetPolicy(sc.Policy, sc.Cost, 0, 0, sc.MaxPicks)
		}
		w.After(more, ends)
	}
	w.At(base+p.End, ends)
	w.loop()
	for _, f := range w.onEnd {
		f()
	}
}

// applySched sets the scheduler up from the plan.
func applySched(p *Plan) {
	s := &p.Sched
	runtime.SimSeed(s.Seed|1, p.Seed^0xabcdef)
	runtime.SimSetPolicy(s.Policy, s.Cost, s.PauseP, s.PauseMax, s.MaxPicks)
	if s.SiteDen > 0 {
		r := newRng(s.Seed, "sites")
		for i := 0; i < 8192; i++ {
			if r.N(s.SiteDen) == 0 {
				runtime.SimSetSite(i, uint8(s.SiteP))
			}
		}
	}
	for _, c := range s.Changes {
		runtime.SimAddChange(c)
	}
	for _, x := range s.Windows {
		runtime.SimAddWindow(x[0], x[1])
	}
}

// HTTP client.

// Req is one HTTP request made by the harness.
type Req struct {
	ID      int
	Ev      *Ev
	In      *Inst
	T0      int64 // connection opened
	TConn   int64
	TSent   int64 // last body byte handed to the network, 0 if never
	TDone   int64 // response received
	Status  int
	Body    []byte
	Hdr     map[string]string
	Err     string
	Aborted bool
	done    func(*Req)
}

// httpEvent: N node, A port, S "METHOD uri", Parts body parts, Gaps delays
// before each part (the first: before the headers), B flags, S2 options.
// Options: chunked, abort (reset after the parts), stall (never finish),
// half (close after the parts), nolen.
func (w *World) httpEvent(e *Ev) *Req { return w.httpDo(e, nil) }

func (w *World) httpDo(e *Ev, done func(*Req)) *Req {
	r := &Req{ID: len(w.reqs), Ev: e, T0: w.Now(), done: done}
	w.reqs = append(w.reqs, r)
	var in *Inst
	if s := w.spec(e.N); s != nil {
		in = s.inst
	}
	r.In = in
	opt := func(o string) bool { return strings.Contains(" "+e.S2+" ", " "+o+" ") }
	finished := false
	end := func(msg string) {
		if finished {
			return
		}
		finished = true
		r.Err = msg
		if r.TDone == 0 {
			r.TDone = w.Now()
		}
		w.Log("http %d %s: status %d %s %x", r.ID, e.S, r.Status, msg, fnv(r.Body))
		if r.done != nil {
			r.done(r)
		}
	}
	keep := opt("keep") && optDur(e.S2, "read=") == 0
	idle := httpIdle{in, e.A}
	start := func(h *HEnd) {
		r.TConn = w.Now()
		if d := optDur(e.S2, "read="); d != 0 {
			// a client that does not read, for a while or for ever (-1)
			w.Fault("client_slow_reader")
			h.lateFin = true
			h.Pause()
			if d > 0 {
				w.After(d, h.Resume)
			}
		}
		var buf []byte
		h.onData = func(b []byte) {
			buf = append(buf, b...)
			for {
				st, hdr, body, rest, ok, bad := parseResponse(buf, false)
				if bad != "" {
					end("bad response: " + bad)
					h.Reset()
					return
				}
				if !ok {
					return
				}
				if st == 100 {
					buf = rest
					continue
				}
				r.Status, r.Hdr, r.Body = st, hdr, body
				r.TDone = w.Now()
				if keep && r.TSent > 0 && len(rest) == 0 && !strings.EqualFold(hdr["connection"], "close") {
					// the connection is used again
					h.onData = func([]byte) {
						w.dropIdle(idle, h)
						h.Reset()
					}
					h.onClose = func(error) { w.dropIdle(idle, h) }
					if w.idleConns == nil {
						w.idleConns = map[httpIdle][]*HEnd{}
					}
					w.idleConns[idle] = append(w.idleConns[idle], h)
					end("")
					return
				}
				end("")
				h.Close()
				return
			}
		}
		h.onClose = func(err error) {
			if finished {
				return
			}
			if st, hdr, body, _, ok, _ := parseResponse(buf, true); ok {
				r.Status, r.Hdr, r.Body = st, hdr, body
				end("")
				return
			}
			end("connection closed: " + err.Error())
		}
		total := 0
		for _, p := range e.Parts {
			total += len(p)
		}
		var hd bytes.Buffer
		fmt.Fprintf(&hd, "%s HTTP/1.1\r\nHost: spout\r\n", e.S)
		method := e.S[:strings.IndexByte(e.S, ' ')]
		chunked := opt("chunked")
		if method != "GET" {
			if chunked {
				hd.WriteString("Transfer-Encoding: chunked\r\n")
			} else {
				fmt.Fprintf(&hd, "Content-Length: %d\r\n", total+int(e.B))
			}
		}
		// what clients say as well
		for _, x := range newRng(uint64(e.T)^uint64(total)<<20, "headers").PickHeaders(method) {
			hd.WriteString(x + "\r\n")
		}
		hd.WriteString("\r\n")
		gap := func(i int) int64 {
			if i < len(e.Gaps) {
				return e.Gaps[i]
			}
			return 0
		}
		t := w.Now() + gap(0)
		headAt := t
		if opt("part") {
			// a request of which only the beginning ever arrives
			w.Fault("client_stall")
			r.Aborted = true
			w.At(headAt, func() { h.Send(hd.Bytes()[:hd.Len()/2]) })
			return
		}
		w.At(headAt, func() { h.Send(hd.Bytes()) })
		for i, p := range e.Parts {
			p := p
			t += gap(i + 1)
			w.At(t, func() {
				if chunked {
					if len(p) == 0 {
						return
					}
					h.Send(append(append([]byte(fmt.Sprintf("%x\r\n", len(p))), p...), '\r', '\n'))
				} else {
					h.Send(p)
				}
			})
		}
		t += gap(len(e.Parts) + 1)
		w.At(t, func() {
			switch {
			case opt("abort"):
				w.Fault("client_reset")
				r.Aborted = true
				h.Reset()
				end("aborted")
			case opt("half"):
				w.Fault("client_close")
				r.Aborted = true
				h.Close()
				end("aborted")
			case opt("stall"):
				w.Fault("client_stall")
				r.Aborted = true
			default:
				if chunked {
					h.Send([]byte("0\r\n\r\n"))
				}
				r.TSent = w.Now()
			}
		})
	}
	if l := w.idleConns[idle]; keep && len(l) > 0 {
		h := l[len(l)-1]
		w.idleConns[idle] = l[:len(l)-1]
		start(h)
		return r
	}
	w.net.Connect(in, int(e.A), "client", start, func(err error) { end("connect: " + err.Error()) })
	return r
}

// httpIdle is where connections that are kept are connected to.
type httpIdle struct {
	in   *Inst
	port int64
}

func (w *World) dropIdle(k httpIdle, h *HEnd) {
	for i, x := range w.idleConns[k] {
		if x == h {
			w.idleConns[k] = append(append([]*HEnd(nil), w.idleConns[k][:i]...), w.idleConns[k][i+1:]...)
			return
		}
	}
}

// PickHeaders makes up the headers that different clients send.
func (r *Rng) PickHeaders(method string) (out []string) {
	if r.P(1, 2) {
		return nil
	}
	if method == "POST" && r.P(1, 2) {
		out = append(out, "Content-Type: "+r.Pick("application/x-www-form-urlencoded", "application/x-www-form-urlencoded", "text/plain; charset=utf-8", "application/octet-stream", "application/json", "multipart/form-data; boundary=x"))
	}
	if r.P(1, 3) {
		out = append(out, "User-Agent: "+r.Pick("curl/7.58.0", "Telegraf/1.16", "python-requests/2.25"), "Accept: */*")
	}
	if r.P(1, 4) {
		out = append(out, "Accept-Encoding: "+r.Pick("gzip, deflate", "identity"))
	}
	if r.P(1, 6) {
		out = append(out, "Authorization: Basic dXNlcjpwYXNz")
	}
	if method == "POST" && r.P(1, 8) {
		out = append(out, "Expect: 100-continue")
	}
	if r.P(1, 6) {
		out = append(out, "Connection: "+r.Pick("close", "keep-alive"))
	}
	return out
}

// optDur is the duration in an option of an event.
func optDur(opts, key string) int64 {
	for _, o := range strings.Fields(opts) {
		if strings.HasPrefix(o, key) {
			n, _ := strconv.ParseInt(o[len(key):], 10, 64)
			return n
		}
	}
	return 0
}

// parseResponse parses an HTTP response.
func parseResponse(b []byte, eof bool) (status int, hdr map[string]string, body, rest []byte, ok bool, bad string) {
	i := bytes.Index(b, []byte("\r\n\r\n"))
	if i < 0 {
		return
	}
	lines := strings.Split(string(b[:i]), "\r\n")
	f := strings.SplitN(lines[0], " ", 3)
	if len(f) < 2 || !strings.HasPrefix(f[0], "HTTP/1.") {
		bad = "status line " + lines[0]
		return
	}
	status, _ = strconv.Atoi(f[1])
	hdr = map[string]string{}
	for _, l := range lines[1:] {
		if k := strings.IndexByte(l, ':'); k > 0 {
			hdr[strings.ToLower(l[:k])] = strings.TrimSpace(l[k+1:])
		}
	}
	rest = b[i+4:]
	if status == 204 || status == 304 || status == 100 {
		ok = true
		return
	}
	if strings.EqualFold(hdr["transfer-encoding"], "chunked") {
		body, rest, ok, bad = parseChunked(rest)
		return
	}
	if cl, has := hdr["content-length"]; has {
		n, _ := strconv.Atoi(cl)
		if len(rest) < n {
			return
		}
		return status, hdr, append([]byte(nil), rest[:n]...), rest[n:], true, ""
	}
	if eof {
		return status, hdr, rest, nil, true, ""
	}
	return
}

// Files.

type simFile struct {
	data    []byte
	openErr error
	readErr error
	errAt   int // read error after this many bytes
	short   int // most bytes one read returns, 0: any
	missing bool
}

type simFs struct {
	afero.Fs
	w *World
}

func (f *simFs) Open(name string) (afero.File, error) {
	in := f.w.byID[runtime.SimNode()]
	f.w.fsOpens++
	if in == nil {
		return nil, &os.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	sf := in.spec.files[name]
	if sf == nil || sf.missing {
		return nil, &os.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	if sf.openErr != nil {
		f.w.Fault("fs_open_error")
		return nil, &os.PathError{Op: "open", Path: name, Err: sf.openErr}
	}
	mem := afero.NewMemMapFs()
	afero.WriteFile(mem, "/f", sf.data, 0o644)
	inner, err := mem.Open("/f")
	if err != nil {
		return nil, err
	}
	return &simFileH{File: inner, sf: sf, w: f.w, path: name}, nil
}

type simFileH struct {
	afero.File
	sf   *simFile
	w    *World
	path string
	at   int
}

func (h *simFileH) Read(p []byte) (int, error) {
	if h.sf.readErr != nil && h.at >= h.sf.errAt {
		h.w.Fault("fs_read_error")
		return 0, &os.PathError{Op: "read", Path: h.path, Err: h.sf.readErr}
	}
	if h.sf.short > 0 && len(p) > h.sf.short {
		p = p[:h.sf.short]
		h.w.Fault("fs_short_read")
	}
	if h.sf.readErr != nil && h.at+len(p) > h.sf.errAt {
		p = p[:h.sf.errAt-h.at]
	}
	n, err := h.File.Read(p)
	h.at += n
	return n, err
}

func toJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}
