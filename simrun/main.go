//go:debug default=go1.20

// Command simbin runs one simulated deployment of influx-spout.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"runtime"
	"strconv"
)

// Prop is the machinery for one property.
type Prop struct {
	ID string
	// Gen makes a plan from a seed.
	Gen func(r *Rng, tier string) *Plan
	// Setup installs event handlers and oracles.
	Setup func(w *World)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Verdict is the outcome of one run.
type Verdict struct {
	Prop    string         `json:"prop"`
	Seed    uint64         `json:"seed"`
	Viol    []Viol         `json:"viol"`
	Hash    string         `json:"hash"`
	Sched   string         `json:"sched"`
	Picks   uint64         `json:"picks"`
	NonFifo uint64         `json:"nonfifo"`
	Yields  uint64         `json:"yields"`
	Pauses  uint64         `json:"pauses"`
	Decs    uint64         `json:"decisions"`
	SimNs   int64          `json:"sim_ns"`
	Faults  map[string]int `json:"faults"`
	Counts  map[string]int `json:"counts"`
	Checks  int            `json:"checks"`
	Events  int            `json:"events"`
	Family  string         `json:"family"`
	Sites   string         `json:"sites"`
	Plan    *Plan          `json:"plan,omitempty"`
	Trace   []string       `json:"trace,omitempty"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: simbin gen PROP SEED TIER | run PROP SEED TIER | replay FILE")
		os.Exit(2)
	}
	var plan *Plan
	withPlan := false
	trace := os.Getenv("SIM_TRACE") != ""
	switch os.Args[1] {
	case "gen", "run":
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		p := props[os.Args[2]]
		if p == nil {
			fmt.Println("unknown property")
			os.Exit(2)
		}
		plan = makePlan(p, seed, os.Args[4])
		if os.Args[1] == "gen" {
			os.Stdout.Write(toJSON(plan))
			return
		}
	case "replay":
		b, err := ioutil.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		plan = new(Plan)
		if err := json.Unmarshal(b, plan); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	case "list":
		for id := range props {
			fmt.Println(id)
		}
		return
	default:
		os.Exit(2)
	}
	out, run := os.Stdout, os.Args[1] == "run"
	v := execute(plan, trace)
	if len(v.Viol) > 0 && run {
		withPlan = true
	}
	if withPlan {
		v.Plan = plan
	}
	out.Write(append(toJSON(v), '\n'))
	os.Exit(0)
}

func makePlan(p *Prop, seed uint64, tier string) *Plan {
	r := newRng(seed, "plan-"+p.ID)
	plan := p.Gen(r, tier)
	plan.Prop = p.ID
	plan.Seed = seed
	addHolds(r, plan)
	// Every byte may take a few steps.
	size := 0
	for _, e := range plan.Events {
		size += len(e.Data)
		if e.K == "post" {
			size += int(optDur(e.S2, "fill="))
		}
		for _, b := range e.Parts {
			size += len(b)
		}
		for _, l := range e.L {
			size += len(l.Bytes())
		}
	}
	plan.Sched.MaxPicks += uint64(40 * size)
	if plan.Epoch == 0 {
		plan.Epoch = 1600000000*sec + r.D(0, 1000000*sec)
	}
	return plan
}

// addHolds lets a few goroutines be held up for long, each while the others
// of its process go on.
func addHolds(r *Rng, p *Plan) {
	if len(p.Events) < 3 || len(p.Nodes) == 0 || !r.P(1, 8) {
		return
	}
	for _, e := range p.Events {
		if e.K == "hold" {
			return
		}
	}
	end := int64(0)
	for _, e := range p.Events {
		if e.T > end {
			end = e.T
		}
	}
	if end < 1500*ms {
		return
	}
	for k := r.R(1, 4); k > 0; k-- {
		p.Events = append(p.Events, &Ev{T: r.D(max64(end/4, sec), end), K: "hold", N: r.N(len(p.Nodes)), A: r.LogD(10*ms, 3*sec)})
	}
}

func execute(plan *Plan, trace bool) *Verdict {
	applySched(plan)
	w := newWorld(plan, trace)
	props[plan.Prop].Setup(w)
	w.Run()
	w.reap()
	picks, nonFifo, yields, pauses, decs, hash, _, _, _ := runtime.SimStats()
	if w.stdout != nil {
		w.stdout.Close()
	}
	return &Verdict{
		Prop: plan.Prop, Seed: plan.Seed, Viol: w.viol,
		Hash: fmt.Sprintf("%016x", w.hash^hash), Sched: fmt.Sprintf("%016x", hash),
		Picks: picks, NonFifo: nonFifo, Yields: yields, Pauses: pauses, Decs: decs,
		SimNs: w.Now(), Faults: w.faults, Counts: w.counts, Checks: w.checks, Events: len(plan.Events),
		Family: plan.Family, Trace: w.lines, Sites: siteBits(),
	}
}

// siteBits renders the reached preemption points as a hexadecimal bitmap.
func siteBits() string {
	hits := runtime.SimSiteHits()
	last := -1
	for i, h := range hits {
		if h {
			last = i
		}
	}
	const hex = "0123456789abcdef"
	var out []byte
	for i := 0; i <= last; i += 4 {
		v := 0
		for j := 0; j < 4; j++ {
			if i+j < len(hits) && hits[i+j] {
				v |= 1 << uint(j)
			}
		}
		out = append(out, hex[v])
	}
	return string(out)
}
