package engine

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"
)

// Finish sorts the failures and writes the evidence file
func (r *Runner) Finish(hung bool) {
	r.knownHit = map[string]*Failure{}
	var keys []string
	for k := range r.failures {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := r.failures[keys[i]], r.failures[keys[j]]
		if len(a.Choices) != len(b.Choices) {
			return len(a.Choices) < len(b.Choices)
		}
		return keys[i] < keys[j]
	})
	for _, k := range keys {
		f := r.failures[k]
		if _, ok := r.known[f.Sig]; ok {
			r.knownHit[f.Sig] = f
			continue
		}
		r.viol = append(r.viol, f)
	}
	cov := map[string]interface{}{}
	var states, outcomes int64
	exhaustive := r.capped == 0 && !hung
	for _, rep := range r.reports {
		states += rep["states"].(int64)
		outcomes += rep["distinct_outcomes"].(int64)
	}
	samples := r.samples
	if len(samples) > 16 {
		samples = samples[:16]
	}
	if samples == nil {
		samples = []interface{}{}
	}
	switch r.Prop.Level {
	case "fault_enumeration", "exploration":
		cov["evaluations"] = r.execs
		cov["distinct_nontrivial"] = states
		cov["rule"] = r.Prop.Rule
	default:
		cov["states"] = states
		cov["transitions"] = r.steps
		cov["traces_validated_against_impl"] = r.execs
	}
	cov["samples"] = samples
	cov["exhaustive"] = exhaustive
	cov["harnesses"] = r.reports
	cov["choice_points"] = r.points
	cov["how"] = "every execution drives the code built from /repo's working tree and the reference model in lockstep; states are distinct canonical (model) states or inputs, transitions are compared steps"
	ev := map[string]interface{}{
		"property": r.Prop.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Prop.Level,
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(), "violations": len(r.viol),
		"assumptions": append([]string{}, r.Prop.Assume...),
	}
	os.MkdirAll(filepath.Join(r.Dir, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(r.Dir, "evidence", r.Prop.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// Report prints the verdict and returns the exit code
func (r *Runner) Report() int {
	var ks []string
	for s := range r.known {
		ks = append(ks, s)
	}
	sort.Strings(ks)
	for _, s := range ks {
		if _, ok := r.knownHit[s]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s :: %s\n", r.Prop.ID, s, r.known[s])
		} else {
			fmt.Printf("note: known finding %q of %s did not show in this run\n", s, r.Prop.ID)
		}
	}
	fmt.Printf("%s: executions=%d steps=%d exhaustive=%v wall=%.1fs\n", r.Prop.ID, r.execs, r.steps, r.capped == 0, time.Since(r.start).Seconds())
	if len(r.viol) == 0 {
		return 0
	}
	dir := filepath.Join(r.Dir, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	for i, f := range r.viol {
		if i >= 10 {
			fmt.Printf("... and %d more\n", len(r.viol)-i)
			break
		}
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.Prop.ID, i))
		b, _ := json.MarshalIndent(f, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop.ID, path)
		fmt.Printf("  [%s] %s: %s\n", f.Harness, f.Sig, f.Msg)
	}
	return 1
}
