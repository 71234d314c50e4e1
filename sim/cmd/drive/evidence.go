package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verifsim/sim"
)

type agg struct {
	runs    int
	race    int
	shapes  map[uint64]bool
	states  map[uint64]bool
	stats   map[string]int64
	faults  map[string]int64
	steps   int64
	ticks   int64
	pre     int64
	samples []interface{}
}

func newAgg() *agg {
	return &agg{shapes: map[uint64]bool{}, states: map[uint64]bool{}, stats: map[string]int64{}, faults: map[string]int64{}}
}

func (a *agg) add(o outcome) {
	if o.race {
		a.race++
	} else {
		a.runs++
	}
	a.shapes[o.res.Shape] = true
	for _, s := range o.res.States {
		a.states[s] = true
	}
	for k, v := range o.res.Stats {
		if strings.HasPrefix(k, "max: ") {
			if v > a.stats[k] {
				a.stats[k] = v
			}
			continue
		}
		a.stats[k] += v
	}
	for k, v := range o.res.Faults {
		a.faults[k] += v
	}
	a.steps += o.res.Steps
	a.ticks += o.res.Ticks
	if len(o.res.Trace) > 0 && len(a.samples) < 3 {
		t := o.res.Trace
		if len(t) > 25 {
			t = append(append([]string{}, t[:25]...), fmt.Sprintf("... %d further events", len(t)-25))
		}
		for i, l := range t {
			if len(l) > 220 {
				t[i] = l[:220] + "..."
			}
		}
		a.samples = append(a.samples, map[string]interface{}{"run": o.i, "seed": o.seed, "events": t, "preemptions": count(o.res.Plans)})
	}
}

func count(p [][]sim.Switch) int {
	n := 0
	for _, x := range p {
		n += len(x)
	}
	return n
}

func (a *agg) write(prop, tier string, seed uint64, p plan, wall float64, viol, det int) {
	cov := map[string]interface{}{
		"evaluations":                 a.runs + a.race,
		"distinct_nontrivial":         len(a.shapes),
		"rule":                        p.Rule,
		"samples":                     a.samples,
		"simulated_runs":              a.runs,
		"runs_under_race_detector":    a.race,
		"runs_per_hour":               int(float64(a.runs+a.race) / wall * 3600),
		"seeds_per_hour":              int(float64(a.runs) / wall * 3600),
		"library_statements_executed": a.steps,
		"simulated_ticks":             a.ticks,
		"faults_injected":             a.faults,
		"counters":                    a.stats,
		"distinct_states":             len(a.states),
		"determinism_repeated_runs":   det,
		"components_real":             p.Real,
		"components_stubbed":          p.Stub,
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": p.Assume, "wall_s": wall, "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		die(2, "%v", err)
	}
}

type knownList []struct{ class, match, text string }

// loadKnown reads the committed known findings of a property.
func loadKnown(prop string) knownList {
	var out knownList
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		var k struct{ class, match, text string }
		for _, f := range strings.SplitN(l, " :: ", 2) {
			if strings.HasPrefix(f, "finding:") {
				for _, w := range strings.Fields(f) {
					if strings.HasPrefix(w, "class=") {
						k.class = w[6:]
					}
					if strings.HasPrefix(w, "match=") {
						k.match = w[6:]
					}
				}
			} else {
				k.text = f
			}
		}
		out = append(out, k)
	}
	return out
}

func (l knownList) match(v *sim.Violation) string {
	for _, k := range l {
		if k.class == v.Class && (k.match == "" || strings.Contains(v.Detail, k.match)) {
			return k.text
		}
	}
	return ""
}
