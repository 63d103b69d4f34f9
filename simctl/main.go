// Command simctl builds the simulation from /repo's working tree and searches
// it for violations of one property.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type viol struct {
	Prop string `json:"prop"`
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
	T    int64  `json:"t"`
}

type verdict struct {
	Prop    string                 `json:"prop"`
	Seed    uint64                 `json:"seed"`
	Viol    []viol                 `json:"viol"`
	Hash    string                 `json:"hash"`
	Sched   string                 `json:"sched"`
	Picks   uint64                 `json:"picks"`
	NonFifo uint64                 `json:"nonfifo"`
	Yields  uint64                 `json:"yields"`
	Pauses  uint64                 `json:"pauses"`
	Decs    uint64                 `json:"decisions"`
	SimNs   int64                  `json:"sim_ns"`
	Faults  map[string]int         `json:"faults"`
	Counts  map[string]int         `json:"counts"`
	Checks  int                    `json:"checks"`
	Events  int                    `json:"events"`
	Family  string                 `json:"family"`
	Sites   string                 `json:"sites"`
	Plan    map[string]interface{} `json:"plan,omitempty"`
	Trace   []string               `json:"trace,omitempty"`
}

type finding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Kind     string `json:"kind"`
	Match    string `json:"match"`
	Replay   string `json:"replay"`
	What     string `json:"what"`
	re       *regexp.Regexp
}

type findingsFile struct {
	Known []*finding `json:"known"`
	Fixed []string   `json:"fixed"`
}

var (
	root = "/verif"
	repo = "/repo"
)

func main() {
	if len(os.Args) < 2 {
		fatal("usage: simctl check PROP | replay FILE | build DIR | try PROP FIRST COUNT")
	}
	if v := os.Getenv("SIM_ROOT"); v != "" {
		root = v
	}
	if v := os.Getenv("SIM_REPO"); v != "" {
		repo = v
	}
	switch os.Args[1] {
	case "build":
		bin, n, l, err := buildSim(repo, filepath.Join(root, "simrun"), os.Args[2])
		if err != nil {
			fatal("%v", err)
		}
		fmt.Println(bin, "sites", n, "instrumentation level", l)
	case "warm":
		work := tempWork()
		_, n, l, err := buildSim(repo, filepath.Join(root, "simrun"), work)
		os.RemoveAll(work)
		if err != nil {
			fatal("%v", err)
		}
		fmt.Println("simulation builds:", n, "preemption points, instrumentation level", l)
	case "check":
		os.Exit(check(os.Args[2]))
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	default:
		fatal("unknown command")
	}
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simctl: "+f+"\n", a...)
	os.Exit(2)
}

func tempWork() string {
	d, err := os.MkdirTemp("", "simwork.")
	if err != nil {
		fatal("%v", err)
	}
	return d
}

type runner struct {
	bin     string
	work    string
	timeout time.Duration
	mu      sync.Mutex
	seq     int
	maxRSS  int64
}

// run executes one simulation process.
func (r *runner) run(args ...string) (*verdict, error) {
	ctx, cancel := context.WithTimeout(context.Background(), r.timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin, args...)
	cmd.Env = []string{"GOGC=off", "GOMAXPROCS=1", "PATH=/nonexistent", "HOME=/nonexistent", "TMPDIR=" + r.work, "TZ=UTC"}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "SIM_TRACE=") || strings.HasPrefix(e, "SIM_ENV_") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Dir = r.work
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	if ctx.Err() != nil {
		return nil, fmt.Errorf("timeout")
	}
	if err != nil {
		tail := errb.String()
		if len(tail) > 3000 {
			tail = tail[:3000]
		}
		return nil, fmt.Errorf("%v: %s", err, tail)
	}
	// what the component printed may precede the verdict
	b := out.Bytes()
	if i := bytes.LastIndex(b, []byte("\n{\"prop\":")); i >= 0 {
		b = b[i+1:]
	}
	v := new(verdict)
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(v); err != nil {
		return nil, fmt.Errorf("bad verdict: %v: %.200s", err, b)
	}
	return v, nil
}

// runSeed runs a seed; a process that dies or hangs counts as a violation.
func (r *runner) runSeed(prop string, seed uint64, tier string) (*verdict, error) {
	v, err := r.run("run", prop, fmt.Sprint(seed), tier)
	if err == nil {
		return v, nil
	}
	return r.crashed(prop, seed, tier, err)
}

func (r *runner) crashed(prop string, seed uint64, tier string, err error) (*verdict, error) {
	// again, to tell a property of the code from one of the machine
	v, err2 := r.run("run", prop, fmt.Sprint(seed), tier)
	if err2 == nil {
		return v, nil
	}
	kind := classify(err2)
	if kind == "" {
		return nil, err2
	}
	plan, gerr := r.genPlan(prop, seed, tier)
	if gerr != nil {
		return nil, gerr
	}
	return &verdict{Prop: prop, Seed: seed, Hash: "none", Viol: []viol{{Prop: prop, Kind: kind, Msg: firstLines(err2.Error(), 12)}}, Plan: plan}, nil
}

func classify(err error) string {
	s := err.Error()
	switch {
	case strings.HasPrefix(s, "timeout"):
		return "hang"
	case strings.Contains(s, "fatal error: ") && strings.Contains(s, "influx-spout"):
		return "fatal"
	}
	return ""
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func (r *runner) genPlan(prop string, seed uint64, tier string) (map[string]interface{}, error) {
	cmd := exec.Command(r.bin, "gen", prop, fmt.Sprint(seed), tier)
	cmd.Env = []string{"GOGC=off", "GOMAXPROCS=1"}
	out, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	return decodePlan(out)
}

func decodePlan(b []byte) (map[string]interface{}, error) {
	var p map[string]interface{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	err := d.Decode(&p)
	return p, err
}

func (r *runner) runPlan(plan map[string]interface{}) (*verdict, error) {
	b, _ := json.Marshal(plan)
	r.mu.Lock()
	r.seq++
	f := filepath.Join(r.work, fmt.Sprintf("plan%d.json", r.seq))
	r.mu.Unlock()
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return nil, err
	}
	defer os.Remove(f)
	v, err := r.run("replay", f)
	if err != nil {
		if k := classify(err); k != "" {
			p, _ := plan["prop"].(string)
			return &verdict{Prop: p, Hash: "none", Viol: []viol{{Prop: p, Kind: k, Msg: firstLines(err.Error(), 12)}}}, nil
		}
		return nil, err
	}
	return v, nil
}

func loadFindings() *findingsFile {
	ff := &findingsFile{}
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return ff
	}
	if err := json.Unmarshal(b, ff); err != nil {
		fatal("known_findings.json: %v", err)
	}
	for _, f := range ff.Known {
		f.re = regexp.MustCompile(f.Match)
	}
	return ff
}

func (ff *findingsFile) match(prop string, v viol) *finding {
	for _, f := range ff.Known {
		if f.Property == prop && (f.Kind == "" || f.Kind == v.Kind) && f.re.MatchString(v.Msg) {
			return f
		}
	}
	return nil
}

// fresh returns the violations no finding explains.
func (ff *findingsFile) fresh(prop string, vs []viol) (out []viol) {
	for _, v := range vs {
		if ff.match(prop, v) == nil {
			out = append(out, v)
		}
	}
	return
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func check(prop string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := envInt("VERIF_SEED", 1)
	runs, wall := 12000, 35*time.Second
	if tier == "thorough" {
		runs, wall = 1000000, 12*time.Minute
	}
	runs = envInt("SIM_RUNS", runs)
	if s := envInt("SIM_WALL", 0); s > 0 {
		wall = time.Duration(s) * time.Second
	}
	ff := loadFindings()
	work := tempWork()
	defer os.RemoveAll(work)
	bin, sites, level, err := buildSim(repo, filepath.Join(root, "simrun"), work)
	if err != nil {
		fmt.Fprintf(os.Stderr, "simctl: %v\n", err)
		return 2
	}
	buildS := time.Since(start).Seconds()
	r := &runner{bin: bin, work: work, timeout: 90 * time.Second}

	// Findings that are on file: do they still fail?
	for _, f := range ff.Known {
		if f.Property != prop {
			continue
		}
		b, err := os.ReadFile(filepath.Join(root, f.Replay))
		if err != nil {
			fmt.Fprintf(os.Stderr, "simctl: finding %s: %v\n", f.ID, err)
			return 2
		}
		plan, err := replayPlan(b)
		if err != nil {
			fmt.Fprintf(os.Stderr, "simctl: finding %s: %v\n", f.ID, err)
			return 2
		}
		v, err := r.runPlan(plan)
		if err != nil {
			fmt.Fprintf(os.Stderr, "simctl: finding %s: %v\n", f.ID, err)
			return 2
		}
		for _, x := range v.Viol {
			if ff.match(prop, x) == f {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, f.ID, f.What)
				break
			}
		}
	}

	type agg struct {
		runs, nontrivial                    int
		picks, nonfifo, yields, pauses      uint64
		simNs                               int64
		faults, counts, families, knownHits map[string]int
		hashes, scheds                      map[string]bool
		siteHits                            map[int]bool
		checks                              int
	}
	a := agg{faults: map[string]int{}, counts: map[string]int{}, families: map[string]int{}, knownHits: map[string]int{},
		hashes: map[string]bool{}, scheds: map[string]bool{}, siteHits: map[int]bool{}}
	var (
		mu       sync.Mutex
		next     = 0
		bad      []*verdict
		trouble  error
		samples  []interface{}
		first    []*verdict
		searchT0 = time.Now()
		nworkers = envInt("SIM_JOBS", 8)
		wg       sync.WaitGroup
	)
	base := uint64(seed) * 1000003
	for i := 0; i < nworkers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= runs || time.Since(searchT0) > wall || len(bad) > 0 || trouble != nil {
					mu.Unlock()
					return
				}
				s := base + uint64(next)
				next++
				mu.Unlock()
				v, err := r.runSeed(prop, s, tier)
				mu.Lock()
				if err != nil {
					if trouble == nil {
						trouble = fmt.Errorf("seed %d: %v", s, err)
					}
					mu.Unlock()
					return
				}
				a.runs++
				a.picks += v.Picks
				a.nonfifo += v.NonFifo
				a.yields += v.Yields
				a.pauses += v.Pauses
				a.simNs += v.SimNs
				a.checks += v.Checks
				for k, n := range v.Faults {
					a.faults[k] += n
				}
				for k, n := range v.Counts {
					a.counts[k] += n
				}
				a.families[v.Family]++
				a.scheds[v.Sched] = true
				if v.Checks > 0 && !a.hashes[v.Hash] {
					a.hashes[v.Hash] = true
					a.nontrivial++
				}
				for i := 0; i < len(v.Sites); i++ {
					x, _ := strconv.ParseUint(v.Sites[i:i+1], 16, 8)
					for j := 0; j < 4; j++ {
						if x&(1<<uint(j)) != 0 {
							a.siteHits[i*4+j] = true
						}
					}
				}
				if len(samples) < 5 && v.Checks > 0 {
					samples = append(samples, map[string]interface{}{"seed": v.Seed, "family": v.Family, "events": v.Events,
						"scheduling_steps": v.Picks, "preemptions": v.Yields, "simulated_s": float64(v.SimNs) / 1e9,
						"faults": v.Faults, "oracle_checks": v.Checks, "history_hash": v.Hash})
				}
				if len(first) < 6 && len(v.Viol) == 0 {
					first = append(first, v)
				}
				fresh := ff.fresh(prop, v.Viol)
				for _, x := range v.Viol {
					if f := ff.match(prop, x); f != nil {
						a.knownHits[f.ID]++
					}
				}
				if len(fresh) > 0 {
					v.Viol = fresh
					bad = append(bad, v)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searchS := time.Since(searchT0).Seconds()

	same, differ := 0, 0
	for _, v := range first {
		w, err := r.runSeed(prop, v.Seed, tier)
		if err == nil && w.Hash == v.Hash {
			same++
		} else {
			differ++
		}
	}

	status := 0
	nviol := 0
	var vout []interface{}
	if len(bad) > 0 {
		sort.Slice(bad, func(i, j int) bool { return bad[i].Seed < bad[j].Seed })
		for _, v := range bad {
			path, min, ok := r.minimise(prop, v, ff)
			if !ok {
				fmt.Printf("unconfirmed: seed %d %s: %s (did not repeat on replay)\n", v.Seed, v.Viol[0].Kind, v.Viol[0].Msg)
				continue
			}
			nviol++
			fmt.Printf("seed %d: %s: %s\n", v.Seed, min.Viol[0].Kind, min.Viol[0].Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			vout = append(vout, map[string]interface{}{"seed": v.Seed, "kind": min.Viol[0].Kind, "message": min.Viol[0].Msg, "replay": path})
			status = 1
			break
		}
	}
	if trouble != nil && status == 0 {
		fmt.Fprintf(os.Stderr, "simctl: %v\n", trouble)
		status = 2
	}

	info := propInfo[prop]
	cov := map[string]interface{}{
		"evaluations":                  a.runs,
		"distinct_nontrivial":          a.nontrivial,
		"rule":                         "one evaluation is one simulated run generated from one seed (plan: topology, configuration, inputs, faults, schedule); it counts as non-trivial when its oracle compared at least one observation, and as distinct by the hash of its complete observable history and schedule. " + info.rule,
		"samples":                      samples,
		"runs_per_hour":                int(float64(a.runs) / searchS * 3600),
		"seeds_per_hour":               int(float64(a.runs) / searchS * 3600),
		"first_seed":                   base,
		"simulated_hours":              float64(a.simNs) / 3.6e12,
		"scheduling_steps":             a.picks,
		"non_fifo_choices":             a.nonfifo,
		"preemptions_inside_functions": a.yields,
		"long_preemptions":             a.pauses,
		"distinct_interleavings":       len(a.scheds),
		"interleaving_measure":         "hash of the sequence of goroutines picked",
		"faults_injected":              a.faults,
		"event_counts":                 a.counts,
		"scenario_families":            a.families,
		"oracle_comparisons":           a.checks,
		"preemption_points":            sites,
		"preemption_points_reached":    len(a.siteHits),
		"instrumentation_level":        level,
		"determinism_recheck":          map[string]int{"identical": same, "different": differ},
		"known_finding_hits":           a.knownHits,
		"real_components":              info.real,
		"stubs":                        info.stubs,
		"build_s":                      buildS,
		"violation_details":            vout,
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": info.assumptions, "wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintf(os.Stderr, "simctl: %v\n", err)
		return 2
	}
	fmt.Printf("%s: %d runs (%d distinct, %d oracle comparisons) in %.1fs, %.1f simulated hours, %d interleavings, %d/%d preemption points, faults %v, %d violations\n",
		prop, a.runs, a.nontrivial, a.checks, searchS, float64(a.simNs)/3.6e12, len(a.scheds), len(a.siteHits), sites, a.faults, nviol)
	if differ > 0 {
		fmt.Printf("note: %d of %d repeated seeds gave another history\n", differ, same+differ)
	}
	return status
}

type replayDoc struct {
	Property  string                 `json:"property"`
	Violation viol                   `json:"violation"`
	Hash      string                 `json:"hash"`
	Seed      uint64                 `json:"seed"`
	Note      string                 `json:"note"`
	Plan      map[string]interface{} `json:"plan"`
}

func replayPlan(b []byte) (map[string]interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var doc replayDoc
	if err := d.Decode(&doc); err != nil {
		return nil, err
	}
	return doc.Plan, nil
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var doc replayDoc
	if err := d.Decode(&doc); err != nil {
		fatal("%v", err)
	}
	work := tempWork()
	defer os.RemoveAll(work)
	bin, _, _, err := buildSim(repo, filepath.Join(root, "simrun"), work)
	if err != nil {
		fatal("%v", err)
	}
	r := &runner{bin: bin, work: work, timeout: 90 * time.Second}
	v, err := r.runPlan(doc.Plan)
	if err != nil {
		fatal("%v", err)
	}
	for _, l := range v.Trace {
		fmt.Println(l)
	}
	for _, x := range v.Viol {
		fmt.Printf("%s at %.6fs: %s\n", x.Kind, float64(x.T)/1e9, x.Msg)
	}
	fmt.Printf("history hash %s, recorded %s\n", v.Hash, doc.Hash)
	if len(v.Viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", doc.Property, path)
		return 1
	}
	return 0
}
