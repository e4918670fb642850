package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// harnessResult is what the input-search program reports.
type harnessResult struct {
	Evaluations int              `json:"evaluations"`
	Distinct    int              `json:"distinct_nontrivial"`
	Rule        string           `json:"rule"`
	Samples     []string         `json:"samples"`
	Failures    []harnessFailure `json:"failures"`
	Notes       []string         `json:"notes"`
	err         string
	wall        float64
}

type harnessFailure struct {
	Key    string `json:"key"`
	What   string `json:"what"`
	Input  string `json:"input"`
	Detail string `json:"detail"`
}

func runHarness(verif, repo, prop, tier string, seed int64, secs int) *harnessResult {
	r := &harnessResult{}
	t0 := time.Now()
	defer func() { r.wall = time.Since(t0).Seconds() }()
	dir := filepath.Join(verif, "harness")
	if _, err := os.Stat(dir); err != nil {
		r.err = "no harness"
		return r
	}
	tmp, err := os.MkdirTemp("", "gocvh")
	if err != nil {
		r.err = err.Error()
		return r
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{}
	filepath.Walk(dir, func(f string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(f, ".go") {
			rel, _ := filepath.Rel(dir, f)
			rep[filepath.Join(repo, "zzverif", rel)] = f
		}
		return nil
	})
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	os.WriteFile(filepath.Join(tmp, "overlay.json"), ov, 0o644)
	bin := filepath.Join(tmp, "harness")
	cmd := exec.Command("go", "build", "-overlay", filepath.Join(tmp, "overlay.json"), "-o", bin, "./zzverif")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")
	if out, err := cmd.CombinedOutput(); err != nil {
		r.err = "building the input search failed: " + firstLines(string(out), 20)
		return r
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+60)*time.Second)
	defer cancel()
	run := exec.CommandContext(ctx, bin, "-prop", prop, "-seed", fmt.Sprint(seed), "-secs", fmt.Sprint(secs), "-tier", tier, "-repo", repo)
	run.Env = append(os.Environ(), "GOTRACEBACK=single")
	run.Dir = tmp
	var ob, eb bytes.Buffer
	run.Stdout, run.Stderr = &ob, &eb
	err = run.Run()
	if jerr := json.Unmarshal(ob.Bytes(), r); jerr != nil {
		r.err = fmt.Sprintf("input search gave no result: %v %s", err, firstLines(eb.String(), 30))
		if ctx.Err() == nil && (strings.Contains(eb.String(), "panic:") || strings.Contains(eb.String(), "fatal error:")) {
			r.Failures = append(r.Failures, harnessFailure{Key: "crash", What: "the real code crashed the input search", Input: "see detail", Detail: firstLines(eb.String(), 40)})
		}
	}
	return r
}

var harnessSecs = map[string]int{}

func runCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "", "")
	noharness := fs.Bool("noharness", false, "")
	hsecs := fs.Int("hsecs", 0, "")
	fs.Parse(args)
	t0 := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	p, err := load(*repo, map[string]bool{"match": true, "licensecheck": true, "old": true})
	if err != nil {
		fmt.Println("ERROR: cannot load the source:", err)
		return 2
	}
	s, err := loadSpecs(filepath.Join(*verif, "contracts"))
	if err != nil {
		fmt.Println("ERROR: contracts:", err)
		return 2
	}
	// start the input search beside the proofs
	secs := 18
	if v, ok := harnessSecs[*prop]; ok {
		secs = v
	}
	if *tier == "thorough" {
		secs = 240
	}
	if *hsecs > 0 {
		secs = *hsecs
	}
	hch := make(chan *harnessResult, 1)
	if *noharness {
		hch <- &harnessResult{err: "disabled"}
	} else {
		go func() { hch <- runHarness(*verif, *repo, *prop, *tier, seed, secs) }()
	}
	eff := newEffects(p, s)
	var units []*unit
	for _, k := range sortedKeys(s.funcs) {
		if c := s.funcs[k]; c.Kind == "func" && contains(c.Props, *prop) {
			units = append(units, &unit{key: k, con: c})
		}
	}
	if *prop == "C06" {
		// what a scan writes is the concern of every function it may call
		for _, k := range sortedKeys(s.funcs) {
			if c := s.funcs[k]; c.Kind == "func" && !contains(c.Props, *prop) && !strings.HasPrefix(k, "old.") && p.allFuncsCached()[k] != nil {
				units = append(units, &unit{key: k, con: c, only: "frame"})
			}
		}
	}
	// lemmas these functions use, transitively, and lemmas stating the property
	need := map[string]bool{}
	var addLem func(n string)
	addLem = func(n string) {
		if need[n] {
			return
		}
		need[n] = true
		if l := s.lemma(n); l != nil {
			for _, m := range l.Uses {
				addLem(m)
			}
		}
	}
	for _, u := range units {
		if u.only != "" {
			continue
		}
		for _, n := range u.con.Uses {
			addLem(n)
		}
	}
	for _, a := range s.axioms {
		if a.Kind == "lemma" && contains(a.Props, *prop) {
			addLem(a.Name)
		}
	}
	for _, a := range s.axioms {
		if a.Kind == "lemma" && need[a.Name] {
			units = append(units, &unit{key: "lemma." + a.Name, lem: a})
		}
	}
	var all []*Obl
	for _, u := range units {
		u.generate(p, s, eff, nil)
		for _, o := range u.ctx.obls {
			if u.only != "" && o.Kind != u.only && o.Kind != "unsupported" {
				continue
			}
			if len(o.Props) > 0 && !contains(o.Props, *prop) && o.Kind == "ensures" {
				continue
			}
			all = append(all, o)
		}
	}
	genS := time.Since(t0).Seconds()
	ts := time.Now()
	scale := 1.0
	if *tier == "thorough" {
		scale = 3
	}
	solveDeadline = ts.Add(600 * time.Second)
	if *tier == "thorough" {
		solveDeadline = ts.Add(3 * time.Hour)
	}
	solveAll(all, 7, scale, "")
	solveWall := time.Since(ts).Seconds()
	h := <-hch

	known := loadKnown(filepath.Join(*verif, "known-findings.txt"), *prop)
	var failed, weak []*Obl
	bySolver := map[string]int{}
	solverTime := 0.0
	discharged := 0
	kinds := map[string]int{}
	retCover := map[string][2]int{}
	var slow []string
	for _, o := range all {
		solverTime += o.Time
		kinds[o.Kind]++
		if o.Time > 10 {
			slow = append(slow, fmt.Sprintf("%s %.1fs", o.Name, o.Time))
		}
		if o.Kind == "cover" && !strings.Contains(o.Name, "cover:requires") {
			c := retCover[o.Func]
			c[0]++
			if o.Status == "proved" {
				c[1]++
			}
			retCover[o.Func] = c
			if o.Status != "proved" {
				weak = append(weak, o)
				continue
			}
		}
		if o.Status == "proved" {
			discharged++
			bySolver[o.Solver]++
			continue
		}
		failed = append(failed, o)
	}
	// unreachable program points are only a warning unless nothing in the function is reachable
	for _, o := range weak {
		if c := retCover[o.Func]; c[1] == 0 {
			failed = append(failed, o)
		}
	}
	replay := filepath.Join(*verif, "evidence", *prop+".replay.txt")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	os.Remove(replay)

	var newFail []harnessFailure
	for _, f := range h.Failures {
		if k, ok := known[f.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
			continue
		}
		newFail = append(newFail, f)
	}
	var newObl []*Obl
	for _, o := range failed {
		if k, ok := known["obligation:"+o.Name]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
			continue
		}
		newObl = append(newObl, o)
	}

	trusted := map[string]bool{}
	for _, u := range units {
		for k := range u.ctx.trusted {
			trusted[k] = true
		}
	}
	for _, m := range modelAssumptions {
		trusted[m] = true
	}
	var funcs, lems, frames []string
	inl := map[string]bool{}
	callees := map[string]bool{}
	for _, u := range units {
		if u.lem != nil {
			lems = append(lems, u.lem.Name)
		} else if u.only != "" {
			frames = append(frames, u.key)
		} else {
			funcs = append(funcs, u.key)
		}
		for k := range u.ctx.inlined {
			inl[k] = true
		}
		for k := range u.ctx.called {
			if c := s.funcs[k]; c != nil && c.Kind == "func" && !contains(c.Props, *prop) {
				callees[k+" (proved under "+strings.Join(c.Props, ",")+")"] = true
			}
		}
	}
	cov := map[string]interface{}{
		"obligations": len(all) - len(weak), "discharged": discharged,
		"checker_cmd":                         "bin/gocv check -prop " + *prop + " (contracts/*.gcv against " + *repo + "; z3-new, z3, cvc5)",
		"trusted_base":                        sortedKeys(trusted),
		"functions_under_contract":            funcs,
		"functions_inlined_from_source":       sortedKeys(inl),
		"contracts_used_proved_elsewhere":     sortedKeys(callees),
		"lemmas":                              lems,
		"obligations_by_kind":                 kinds,
		"discharged_by_back_end":              bySolver,
		"solver_time_s":                       round(solverTime),
		"solve_wall_s":                        round(solveWall),
		"generation_s":                        round(genS),
		"slow_obligations":                    slow,
		"unreachable_points_not_counted":      len(weak),
		"bounded_search_not_counted_as_proof": map[string]interface{}{"evaluations": h.Evaluations, "distinct_nontrivial": h.Distinct, "rule": h.Rule, "samples": h.Samples, "error": h.err, "wall_s": round(h.wall), "notes": h.Notes},
	}
	if len(frames) > 0 {
		cov["functions_under_contract_frames_only"] = frames
	}
	if len(failed) > 0 {
		var l []string
		for _, o := range failed {
			l = append(l, o.Name)
		}
		sort.Strings(l)
		cov["undischarged"] = l
	}
	viol := 0
	if len(newObl) > 0 || len(newFail) > 0 {
		viol = 1
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n\n", *prop)
		for i, f := range newFail {
			if i >= 5 {
				break
			}
			fmt.Fprintf(&b, "FAILING INPUT: %s\n  key: %s\n  input: %s\n  %s\n\n", f.What, f.Key, f.Input, strings.ReplaceAll(f.Detail, "\n", "\n  "))
		}
		for _, o := range newObl {
			fmt.Fprintf(&b, "FAILED OBLIGATION: %s\n  at: %s\n  states: %s\n  status: %s\n  verifier output:\n    %s\n\n", o.Name, o.Pos, o.Src, o.Status, strings.ReplaceAll(o.Out, "\n", "\n    "))
		}
		if h.err != "" {
			fmt.Fprintf(&b, "input search: %s\n", h.err)
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		for i, o := range newObl {
			if i >= 20 {
				break
			}
			fmt.Printf("failed obligation %s at %s: %s (%s)\n", o.Name, o.Pos, o.Src, o.Status)
		}
		for i, f := range newFail {
			if i < 5 {
				fmt.Printf("failing input: %s: %.300s\n", f.What, f.Input)
			}
		}
		suffix := ""
		if len(newFail) == 0 {
			suffix = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", *prop, replay, suffix)
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": sortedKeys(trusted), "wall_s": round(time.Since(t0).Seconds()), "violations": viol,
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	fmt.Printf("%s: %d obligations in %d functions and %d lemmas, %d discharged; %d inputs searched; %.1fs\n", *prop, len(all)-len(weak), len(funcs), len(lems), discharged, h.Evaluations, time.Since(t0).Seconds())
	if h.err != "" && h.err != "disabled" {
		fmt.Println("note: input search:", h.err)
	}
	if len(units) == 0 {
		fmt.Println("ERROR: no contracts for this property")
		return 2
	}
	return viol
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

// loadKnown reads "known: property=ID key=KEY what" lines.
func loadKnown(file, prop string) map[string]string {
	m := map[string]string{}
	data, _ := os.ReadFile(file)
	for _, l := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) == 3 && f[0] == "property="+prop && strings.HasPrefix(f[1], "key=") {
			m[strings.TrimPrefix(f[1], "key=")] = f[2]
		}
	}
	return m
}

var modelAssumptions = []string{
	"model: int and int64 arithmetic is mathematical (no overflow); int32, rune, byte and uint16 arithmetic is checked or wrapped exactly; uint and uint64 are 64-bit vectors",
	"model: float64 arithmetic is exact real arithmetic",
	"model: memory is sequential; other goroutines do not write what a function under contract reads",
	"model: allocation always succeeds and stacks are unbounded",
	"trusted: the SSA construction of golang.org/x/tools/go/ssa and go/types, this verifier (gocv), and the SMT solvers",
}
