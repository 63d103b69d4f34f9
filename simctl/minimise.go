package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"
)

// minimise shrinks a failing plan (events, then the parts of the schedule
// that are random) as long as the same kind of violation remains, confirms it
// in fresh processes and writes the replay file.
func (r *runner) minimise(prop string, v *verdict, ff *findingsFile) (string, *verdict, bool) {
	kind := v.Viol[0].Kind
	plan := v.Plan
	deadline := time.Now().Add(60 * time.Second)
	best := v
	fails := func(p map[string]interface{}) *verdict {
		w, err := r.runPlan(p)
		if err != nil {
			return nil
		}
		w.Viol = ff.fresh(prop, w.Viol)
		for i, x := range w.Viol {
			if x.Kind == kind {
				w.Viol[0], w.Viol[i] = w.Viol[i], w.Viol[0]
				return w
			}
		}
		return nil
	}
	w0 := fails(plan)
	if w0 == nil || w0.Hash != v.Hash {
		if w0 == nil {
			return "", nil, false
		}
	}
	best = w0
	accept := func(p map[string]interface{}) bool {
		if time.Now().After(deadline) {
			return false
		}
		if w := fails(p); w != nil {
			plan, best = p, w
			return true
		}
		return false
	}
	// try several candidates at once
	acceptAny := func(cs []map[string]interface{}) int {
		if time.Now().After(deadline) {
			return -1
		}
		res := make([]*verdict, len(cs))
		var wg sync.WaitGroup
		for i := range cs {
			wg.Add(1)
			go func(i int) { defer wg.Done(); res[i] = fails(cs[i]) }(i)
		}
		wg.Wait()
		for i, w := range res {
			if w != nil {
				plan, best = cs[i], w
				return i
			}
		}
		return -1
	}
	clone := func() map[string]interface{} {
		b, _ := json.Marshal(plan)
		p, _ := decodePlan(b)
		return p
	}
	sched := func(p map[string]interface{}) map[string]interface{} {
		return p["sched"].(map[string]interface{})
	}

	// events
	shrinkEvents := func() {
		events := func() []interface{} { e, _ := plan["events"].([]interface{}); return e }
		for size := (len(events()) + 1) / 2; size >= 1; {
			progress := false
			for at := 0; at < len(events()); {
				var cs []map[string]interface{}
				var starts []int
				for k := 0; k < 8 && at < len(events()); k++ {
					all := events()
					hi := at + size
					if hi > len(all) {
						hi = len(all)
					}
					var keep []interface{}
					removed := 0
					for i, e := range all {
						if i >= at && i < hi {
							if f, _ := e.(map[string]interface{})["fixed"].(bool); !f {
								removed++
								continue
							}
						}
						keep = append(keep, e)
					}
					if removed > 0 {
						p := clone()
						if keep == nil {
							keep = []interface{}{}
						}
						p["events"] = keep
						cs = append(cs, p)
						starts = append(starts, at)
					}
					at = hi
				}
				if len(cs) == 0 {
					continue
				}
				if i := acceptAny(cs); i >= 0 {
					at = starts[i]
					progress = true
				}
				if time.Now().After(deadline) {
					return
				}
			}
			if size == 1 && !progress {
				break
			}
			if size > 1 {
				size = (size + 1) / 2
			} else if !progress {
				break
			}
		}
	}
	shrinkEvents()
	// what is inside the events
	shrinkInside := func(key string) {
		n := 0
		if e, ok := plan["events"].([]interface{}); ok {
			n = len(e)
		}
		for i := 0; i < n && i < 40; i++ {
			arr := func(p map[string]interface{}) []interface{} {
				a, _ := p["events"].([]interface{})[i].(map[string]interface{})[key].([]interface{})
				return a
			}
			for size := (len(arr(plan)) + 1) / 2; size >= 1 && len(arr(plan)) > 1; {
				progress := false
				for at := 0; at < len(arr(plan)) && len(arr(plan)) > 1; {
					hi := at + size
					if l := len(arr(plan)); hi > l {
						hi = l
					}
					if hi-at == len(arr(plan)) {
						break
					}
					p := clone()
					a := arr(p)
					p["events"].([]interface{})[i].(map[string]interface{})[key] = append(append([]interface{}{}, a[:at]...), a[hi:]...)
					if accept(p) {
						progress = true
					} else {
						at = hi
					}
					if time.Now().After(deadline) {
						return
					}
				}
				if size == 1 {
					break
				}
				_ = progress
				size = (size + 1) / 2
			}
		}
	}
	shrinkInside("l")
	shrinkInside("parts")
	// an orderly schedule?
	p := clone()
	sched(p)["windows"] = []interface{}{}
	if !accept(p) {
		p = clone()
		sched(p)["site_den"] = 0
		accept(p)
		p = clone()
		sched(p)["pause_p"] = 0
		accept(p)
		// narrow the ranges of random decisions
		windows := [][2]uint64{{0, best.Decs + 1}}
		set := func(ws [][2]uint64) map[string]interface{} {
			q := clone()
			sched(q)["windows"] = ws
			return q
		}
		if accept(set(windows)) {
			for n := 2; n <= 64 && time.Now().Before(deadline); {
				total := uint64(0)
				for _, x := range windows {
					total += x[1] - x[0]
				}
				if total <= 1 {
					break
				}
				step := total/uint64(n) + 1
				var cs []map[string]interface{}
				var cw [][][2]uint64
				for off := uint64(0); off < total; off += step {
					ws := cut(windows, off, off+step)
					if len(ws) == 0 || len(ws) > 60 {
						continue
					}
					cs = append(cs, set(ws))
					cw = append(cw, ws)
					if len(cs) == 32 {
						break
					}
				}
				if len(cs) == 0 {
					break
				}
				i := acceptAny(cs)
				if i >= 0 {
					windows = cw[i]
					if n > 2 {
						n--
					}
				} else {
					if step == 1 {
						break
					}
					n *= 2
				}
			}
		}
	}
	p = clone()
	if nc, ok := p["net"].(map[string]interface{}); ok {
		nc["slow_p"], nc["seg_max"] = 0, 0
		accept(p)
	}
	shrinkEvents()

	// confirm
	w1, w2 := fails(plan), fails(plan)
	if w1 == nil || w2 == nil || w1.Hash != w2.Hash {
		// fall back to the original
		b, _ := json.Marshal(v.Plan)
		plan, _ = decodePlan(b)
		w1, w2 = fails(plan), fails(plan)
		if w1 == nil || w2 == nil || w1.Hash != w2.Hash {
			return "", nil, false
		}
	}
	doc := replayDoc{Property: prop, Violation: w1.Viol[0], Hash: w1.Hash, Seed: v.Seed, Plan: plan,
		Note: "replay with: /verif/replay FILE (SIM_TRACE=1 prints the trace)"}
	b, _ := json.MarshalIndent(doc, "", " ")
	dir := filepath.Join(root, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, v.Seed))
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		return "", nil, false
	}
	return path, w1, true
}

// cut removes [lo, hi), counted in the concatenation of ws.
func cut(ws [][2]uint64, lo, hi uint64) [][2]uint64 {
	var out [][2]uint64
	at := uint64(0)
	for _, x := range ws {
		n := x[1] - x[0]
		a, b := at, at+n
		at = b
		if b <= lo || a >= hi {
			out = append(out, x)
			continue
		}
		if a < lo {
			out = append(out, [2]uint64{x[0], x[0] + (lo - a)})
		}
		if b > hi {
			out = append(out, [2]uint64{x[0] + (hi - a), x[1]})
		}
	}
	return out
}
