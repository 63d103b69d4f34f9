package main

// Patches to the Go standard library.  Nothing below touches GOROOT: patched
// copies are written to the work directory and handed to the compiler with
// `go build -overlay`.

import (
	"embed"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

//go:embed assets/*
var assets embed.FS

type edit struct{ old, new string }

type filePatch struct {
	file  string // relative to GOROOT/src
	edits []edit
}

var stdPatches = []filePatch{
	{"runtime/runtime2.go", []edit{
		{"\tvalgrindStackID uintptr\n}", "\tvalgrindStackID uintptr\n\n\tsimNode int32\n\tsimSeq  uint32\n\tsimPrio uint64\n}"},
	}},
	{"runtime/proc.go", []edit{
		{"const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
		{"\tif pp.runSafePointFn != 0 {\n\t\trunSafePointFn()\n\t}\n\n\t// now and pollUntil are saved",
			"\tif pp.runSafePointFn != 0 {\n\t\trunSafePointFn()\n\t}\n\n\tif simgp := simFind(pp); simgp != nil {\n\t\treturn simgp, false, false\n\t}\n\n\t// now and pollUntil are saved"},
		{"func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n\tif simAlways {\n\t\tsimEnqueue(gp)\n\t\treturn\n\t}\n"},
		{"func globrunqput(gp *g) {\n", "func globrunqput(gp *g) {\n\tif simAlways {\n\t\tsimEnqueue(gp)\n\t\treturn\n\t}\n"},
		{"func globrunqputhead(gp *g) {\n", "func globrunqputhead(gp *g) {\n\tif simAlways {\n\t\tsimEnqueue(gp)\n\t\treturn\n\t}\n"},
		{"func globrunqputbatch(batch *gQueue) {\n", "func globrunqputbatch(batch *gQueue) {\n\tif simAlways {\n\t\tfor !batch.empty() {\n\t\t\tsimEnqueue(batch.pop())\n\t\t}\n\t\treturn\n\t}\n"},
		{"func runqputbatch(pp *p, q *gQueue) {\n", "func runqputbatch(pp *p, q *gQueue) {\n\tif simAlways {\n\t\tfor !q.empty() {\n\t\t\tsimEnqueue(q.pop())\n\t\t}\n\t\treturn\n\t}\n"},
		{"\tnewg.startpc = fn.fn\n", "\tnewg.startpc = fn.fn\n\tsimInitG(newg, callergp)\n"},
	}},
	{"runtime/time.go", []edit{
		{"\trand    uint32 // randomizes order of timers at same instant; only set when isFake\n",
			"\trand    uint32 // randomizes order of timers at same instant; only set when isFake\n\tsimNode int32\n"},
		{"\twake := false\n\tpending := t.when > 0\n\tt.when = when\n",
			"\tif simgp := getg(); simgp != simgp.m.g0 {\n\t\tt.simNode = simgp.simNode\n\t}\n\tif t.rand == 0 {\n\t\tsimTSeq++\n\t\tt.rand = simTSeq\n\t}\n\twake := false\n\tpending := t.when > 0\n\tt.when = when\n"},
		{"\tf := t.f\n\targ := t.arg\n\tseq := t.seq\n\tvar next int64\n",
			"\tf := t.f\n\targ := t.arg\n\tseq := t.seq\n\tsimtn := t.simNode\n\tvar next int64\n"},
		{"\tf(arg, seq, delay)\n\n\tif t.isChan {", "\tsimTimerNode = simtn\n\tf(arg, seq, delay)\n\tsimTimerNode = 0\n\n\tif t.isChan {"},
	}},
	{"runtime/panic.go", []edit{
		{"\tpreprintpanics(&p)\n\n\tfatalpanic(&p)   // should not return", "\tsimNodePanic(&p)\n\tpreprintpanics(&p)\n\n\tfatalpanic(&p)   // should not return"},
	}},
	{"runtime/rand.go", []edit{
		{"func rand() uint64 {\n", "func rand() uint64 {\n\tif simAlways {\n\t\treturn simRand64()\n\t}\n"},
		{"func cheaprand() uint32 {\n", "func cheaprand() uint32 {\n\tif simAlways {\n\t\treturn uint32(simRand64() >> 32)\n\t}\n"},
		{"func cheaprandu64() uint64 {\n", "func cheaprandu64() uint64 {\n\tif simAlways {\n\t\treturn simRand64()\n\t}\n"},
		{"\tseed := &globalRand.seed\n", "\tif simAlways {\n\t\tfor i := range startupRand {\n\t\t\tstartupRand[i] = byte(i + 1)\n\t\t}\n\t\tif len(startupRand) < 16 {\n\t\t\tstartupRand = simStartup[:]\n\t\t}\n\t}\n\tseed := &globalRand.seed\n"},
		{"func bootstrapRandReseed() {\n", "func bootstrapRandReseed() {\n\tif simAlways {\n\t\treturn\n\t}\n"},
	}},
	{"crypto/internal/sysrand/rand.go", []edit{
		{"func Read(b []byte) {\n", "func Read(b []byte) {\n\tif len(b) >= 0 {\n\t\truntime.SimRandBytes(b)\n\t\treturn\n\t}\n"},
		{"import (\n\t\"os\"\n", "import (\n\t\"os\"\n\t\"runtime\"\n"},
	}},
	{"os/proc.go", []edit{
		{"func Exit(code int) {\n", "func Exit(code int) {\n\truntime.SimExit(code)\n"},
	}},
	{"os/file.go", []edit{
		{"func (f *File) Write(b []byte) (n int, err error) {\n", "// SimWrite, if set, takes what is written to standard output.\nvar SimWrite func(b []byte) (int, error)\n\nfunc (f *File) Write(b []byte) (n int, err error) {\n\tif SimWrite != nil && f != nil && f.pfd.Sysfd == 1 {\n\t\treturn SimWrite(b)\n\t}\n"},
	}},
	{"os/sys.go", []edit{
		{"\treturn hostname()\n", "\treturn \"simhost\", nil\n"},
	}},
	{"net/fd_posix.go", []edit{
		{"type netFD struct {\n", "type netFD struct {\n\tsim SimPacketConn\n"},
		{"func (fd *netFD) Close() error {\n", "func (fd *netFD) Close() error {\n\tif fd.sim != nil {\n\t\treturn fd.sim.Close()\n\t}\n"},
		{"func (fd *netFD) Read(p []byte) (n int, err error) {\n", "func (fd *netFD) Read(p []byte) (n int, err error) {\n\tif fd.sim != nil {\n\t\tn, _, err = fd.sim.ReadFrom(p)\n\t\treturn n, err\n\t}\n"},
		{"func (fd *netFD) SetDeadline(t time.Time) error {\n", "func (fd *netFD) SetDeadline(t time.Time) error {\n\tif fd.sim != nil {\n\t\treturn fd.sim.SetReadDeadline(t)\n\t}\n"},
		{"func (fd *netFD) SetReadDeadline(t time.Time) error {\n", "func (fd *netFD) SetReadDeadline(t time.Time) error {\n\tif fd.sim != nil {\n\t\treturn fd.sim.SetReadDeadline(t)\n\t}\n"},
		{"func (fd *netFD) SetWriteDeadline(t time.Time) error {\n", "func (fd *netFD) SetWriteDeadline(t time.Time) error {\n\tif fd.sim != nil {\n\t\treturn nil\n\t}\n"},
	}},
	{"net/sockopt_posix.go", []edit{
		{"func setReadBuffer(fd *netFD, bytes int) error {\n", "func setReadBuffer(fd *netFD, bytes int) error {\n\tif fd.sim != nil {\n\t\treturn fd.sim.SetReadBuffer(bytes)\n\t}\n"},
		{"func setWriteBuffer(fd *netFD, bytes int) error {\n", "func setWriteBuffer(fd *netFD, bytes int) error {\n\tif fd.sim != nil {\n\t\treturn nil\n\t}\n"},
	}},
	{"net/udpsock_posix.go", []edit{
		{"func (c *UDPConn) readFrom(b []byte, addr *UDPAddr) (int, *UDPAddr, error) {\n", "func (c *UDPConn) readFrom(b []byte, addr *UDPAddr) (int, *UDPAddr, error) {\n\tif c.fd.sim != nil {\n\t\treturn c.fd.sim.ReadFrom(b)\n\t}\n"},
		{"func (c *UDPConn) readFromAddrPort(b []byte) (n int, addr netip.AddrPort, err error) {\n", "func (c *UDPConn) readFromAddrPort(b []byte) (n int, addr netip.AddrPort, err error) {\n\tif c.fd.sim != nil {\n\t\tn, ua, err := c.fd.sim.ReadFrom(b)\n\t\tif ua != nil {\n\t\t\taddr = ua.AddrPort()\n\t\t}\n\t\treturn n, addr, err\n\t}\n"},
		{"func (c *UDPConn) readMsg(b, oob []byte) (n, oobn, flags int, addr netip.AddrPort, err error) {\n", "func (c *UDPConn) readMsg(b, oob []byte) (n, oobn, flags int, addr netip.AddrPort, err error) {\n\tif c.fd.sim != nil {\n\t\tn, addr, err = c.readFromAddrPort(b)\n\t\treturn\n\t}\n"},
	}},
	{"net/udpsock.go", []edit{
		{"func ListenUDP(network string, laddr *UDPAddr) (*UDPConn, error) {\n", "func ListenUDP(network string, laddr *UDPAddr) (*UDPConn, error) {\n\tif SimNet != nil {\n\t\treturn simListenUDP(network, laddr)\n\t}\n"},
	}},
	{"net/dial.go", []edit{
		{"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n", "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n\tif SimNet != nil {\n\t\tctx, cancel := d.dialCtx(ctx)\n\t\tdefer cancel()\n\t\treturn SimNet.Dial(ctx, network, address)\n\t}\n"},
		{"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n\tif SimNet != nil {\n\t\treturn SimNet.Listen(network, address)\n\t}\n"},
		{"func (lc *ListenConfig) ListenPacket(ctx context.Context, network, address string) (PacketConn, error) {\n", "func (lc *ListenConfig) ListenPacket(ctx context.Context, network, address string) (PacketConn, error) {\n\tif SimNet != nil {\n\t\tla, err := ResolveUDPAddr(network, address)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn simListenUDP(network, la)\n\t}\n"},
	}},
	{"net/lookup.go", []edit{
		{"func (r *Resolver) LookupHost(ctx context.Context, host string) (addrs []string, err error) {\n", "func (r *Resolver) LookupHost(ctx context.Context, host string) (addrs []string, err error) {\n\tif SimNet != nil {\n\t\treturn SimNet.LookupHost(host)\n\t}\n"},
	}},
}

// stdNew maps new or wholly replaced standard library files to assets.
var stdNew = map[string]string{
	"runtime/zz_sim.go":    "assets/runtime_sim.go",
	"runtime/time_fake.go": "assets/runtime_time_fake.go",
	"syscall/time_fake.go": "assets/syscall_time_fake.go",
	"net/zz_sim.go":        "assets/net_sim.go",
}

func patchStd(goroot, work string, replace map[string]string) error {
	out := filepath.Join(work, "std")
	for _, fp := range stdPatches {
		src := filepath.Join(goroot, "src", fp.file)
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		s := string(b)
		for _, e := range fp.edits {
			if n := strings.Count(s, e.old); n != 1 {
				return fmt.Errorf("%s: expected one match, found %d: %q", fp.file, n, e.old)
			}
			s = strings.Replace(s, e.old, e.new, 1)
		}
		dst := filepath.Join(out, fp.file)
		if err := writeFile(dst, []byte(s)); err != nil {
			return err
		}
		replace[src] = dst
	}
	for rel, asset := range stdNew {
		b, err := assets.ReadFile(asset)
		if err != nil {
			return err
		}
		dst := filepath.Join(out, rel)
		if err := writeFile(dst, b); err != nil {
			return err
		}
		replace[filepath.Join(goroot, "src", rel)] = dst
	}
	return nil
}

func writeFile(path string, b []byte) error {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}
