package main

import (
	"fmt"
	"strings"
)

// schedKind restricts the scheduler of a plan.
type schedOpt struct {
	maxPause int64 // longest single preemption
	calm     bool  // mostly FIFO: for long or timing-bound runs
	maxPicks uint64
}

func genSched(r *Rng, o schedOpt) Sched {
	s := Sched{Seed: r.U64(), Cost: us, MaxPicks: o.maxPicks}
	if s.MaxPicks == 0 {
		s.MaxPicks = 4000000
	}
	switch k := r.N(10); {
	case k < 1:
		s.Policy = 0
	case k < 5:
		s.Policy = 1
	case k < 8:
		s.Policy = 2
		for i, n := 0, r.R(0, 6); i < n; i++ {
			s.Changes = append(s.Changes, uint64(r.LogD(1, 20000)))
		}
	default:
		s.Policy = 3
	}
	switch r.N(6) {
	case 0: // no preemption inside statements sequences
	case 1:
		s.SiteDen, s.SiteP = 1, 8
	case 2:
		s.SiteDen, s.SiteP = 1, 64
	case 3:
		s.SiteDen, s.SiteP = 8, 128
	case 4:
		s.SiteDen, s.SiteP = 20, 255
	case 5:
		s.SiteDen, s.SiteP = 3, 32
	}
	if o.maxPause > 0 && r.P(1, 2) {
		s.PauseP = uint32(r.PickI(200, 2000, 10000))
		s.PauseMax = r.LogD(50*us, o.maxPause)
	}
	if r.P(1, 8) {
		s.Cost = r.PickD(100, 10*us, 50*us)
	}
	s.Windows = [][2]uint64{{0, 1 << 62}}
	if s.Policy == 0 && s.SiteDen == 0 {
		s.Windows = [][2]uint64{}
	}
	return s
}

func genNet(r *Rng) NetCfg {
	n := NetCfg{LatMin: 20 * us, LatMax: 200 * us}
	switch r.N(4) {
	case 0:
		n.LatMax = 2 * ms
	case 1:
		n.SlowP = r.PickI(5, 50)
		n.SlowMax = 30 * ms
	}
	switch r.N(3) {
	case 0:
		n.SegMax = r.PickI(1, 3, 17, 300)
	case 1:
		n.SegMax = 1460
	}
	return n
}

// conf writes a TOML configuration.
type conf struct{ b strings.Builder }

func newConf(mode, name string) *conf {
	c := &conf{}
	c.s("mode", mode)
	if name != "" {
		c.s("name", name)
	}
	c.s("nats_address", "nats://nats:4222")
	return c
}

func tomlStr(v string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range v {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < 0x20 || r == 0x7f:
			fmt.Fprintf(&b, "\\u%04X", r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (c *conf) s(k, v string) *conf { fmt.Fprintf(&c.b, "%s = %s\n", k, tomlStr(v)); return c }
func (c *conf) i(k string, v int64) *conf {
	fmt.Fprintf(&c.b, "%s = %d\n", k, v)
	return c
}
func (c *conf) d(k string, ns int64) *conf {
	return c.s(k, fmt.Sprintf("%dus", ns/us))
}
func (c *conf) subjects(v ...string) *conf {
	var q []string
	for _, s := range v {
		q = append(q, tomlStr(s))
	}
	fmt.Fprintf(&c.b, "nats_subject = [%s]\n", strings.Join(q, ", "))
	return c
}
func (c *conf) raw(s string) *conf { c.b.WriteString(s); return c }
func (c *conf) rule(ru Rule) *conf {
	fmt.Fprintf(&c.b, "\n[[rule]]\ntype = %s\n", tomlStr(ru.Type))
	if ru.Type == "tags" {
		var q []string
		for _, t := range ru.Tags {
			q = append(q, fmt.Sprintf("[%s, %s]", tomlStr(t.K), tomlStr(t.V)))
		}
		fmt.Fprintf(&c.b, "tags = [%s]\n", strings.Join(q, ", "))
	} else {
		fmt.Fprintf(&c.b, "match = %s\n", tomlStr(ru.Match))
	}
	if ru.Subject != "" {
		fmt.Fprintf(&c.b, "subject = %s\n", tomlStr(ru.Subject))
	}
	return c
}
func (c *conf) String() string { return c.b.String() }
