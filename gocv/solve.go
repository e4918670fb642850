package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const preludeBase = `(declare-sort Str 0)
(declare-datatypes ((Slice 0)) (((mkslice (sref Int) (soff Int) (slcn Int) (scap Int)))))
(declare-datatypes ((Mp 2)) ((par (K V) ((mkmp (mpdom (Array K Bool)) (mpval (Array K V)))))))
(declare-datatypes ((Sq 1)) ((par (T) ((mkseq (qarr (Array Int T)) (qoff Int) (qlen Int))))))
(declare-fun rtype (Int) Int)
(declare-fun slen (Str) Int)
(declare-const str!empty Str)
(declare-fun sat (Str Int) Int)
(declare-fun ssub (Str Int Int) Str)
(declare-fun scat (Str Str) Str)
(declare-fun bstr ((Array Int Int) Int Int) Str)
(declare-fun b8 (Int) Int)
(declare-fun bytestr (Int) Str)
(declare-fun runestr (Int) Str)
(declare-fun relit (Int) Str)
(declare-fun replit (Int Int) Str)
(declare-fun repn (Int) Int)
(declare-fun ival (Int) Int)
(declare-fun bval (Int) (_ BitVec 64))
(declare-fun sless (Str Str) Bool)
(declare-fun streq (Str Str) Bool)
(declare-fun sdiff (Str Str) Int)
(declare-fun decr (Str Int) Int)
(declare-fun decw (Str Int) Int)
(declare-fun offp (Int Int) Int)
(declare-fun bitand (Int Int) Int)
(declare-fun bitor (Int Int) Int)
(declare-fun bitxor (Int Int) Int)
(declare-fun bitshl (Int Int) Int)
(declare-fun bitshr (Int Int) Int)
(declare-fun bitclr (Int Int) Int)
(define-fun tdiv ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))
(define-fun trem ((a Int) (b Int)) Int (ite (>= a 0) (mod a b) (- (mod (- a) b))))
`

// prelude axioms, included when any of the keys occurs in the query.
var preludeAxioms = []struct {
	keys []string
	text string
}{
	{[]string{"slen"}, `(assert (forall ((s Str)) (! (and (>= (slen s) 0) (=> (= (slen s) 0) (= s str!empty))) :pattern ((slen s)))))
(assert (= (slen str!empty) 0))`},
	{[]string{"scat"}, `(assert (forall ((a Str)) (! (and (= (scat a str!empty) a)) :pattern ((scat a str!empty)))))
(assert (forall ((a Str)) (! (and (= (scat str!empty a) a)) :pattern ((scat str!empty a)))))`},
	{[]string{"sat"}, `(assert (forall ((s Str) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i)))))`},
	{[]string{"ssub"}, `(assert (forall ((s Str) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s))) (= (slen (ssub s a b)) (- b a))) :pattern ((ssub s a b)))))`},
	{[]string{"ssub"}, `(assert (forall ((s Str) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s)) (<= 0 i) (< i (- b a))) (= (sat (ssub s a b) i) (sat s (+ a i)))) :pattern ((sat (ssub s a b) i)))))`},
	{[]string{"ssub"}, `(assert (forall ((s Str) (a Int) (b Int) (k Int)) (! (=> (and (<= 0 a) (<= a k) (< k b) (<= b (slen s))) (= (sat (ssub s a b) (- k a)) (sat s k))) :pattern ((sat s k) (ssub s a b)))))`},
	{[]string{"ssub"}, `(assert (forall ((s Str) (a Int) (b Int) (c Int) (d Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s)) (<= 0 c) (<= c d) (<= d (- b a))) (= (ssub (ssub s a b) c d) (ssub s (+ a c) (+ a d)))) :pattern ((ssub (ssub s a b) c d)))))
(assert (forall ((s Str) (b Int)) (! (=> (= b (slen s)) (= (ssub s 0 b) s)) :pattern ((ssub s 0 b)))))`},
	{[]string{"streq"}, `(assert (forall ((a Str) (b Str)) (! (= (streq a b) (= a b)) :pattern ((streq a b)))))
(assert (forall ((a Str) (b Str)) (! (or (= a b) (not (= (slen a) (slen b))) (and (<= 0 (sdiff a b)) (< (sdiff a b) (slen a)) (not (= (sat a (sdiff a b)) (sat b (sdiff a b)))))) :pattern ((streq a b)))))`},
	{[]string{"scat"}, `(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))`},
	{[]string{"scat"}, `(assert (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= 0 i) (< i (+ (slen a) (slen b)))) (= (sat (scat a b) i) (ite (< i (slen a)) (sat a i) (sat b (- i (slen a)))))) :pattern ((sat (scat a b) i)))))`},
	{[]string{"bstr"}, `(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (slen (bstr a o n)) n)) :pattern ((bstr a o n)))))`},
	{[]string{"bstr"}, `(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (sat (bstr a o n) i) (b8 (|at:Int| a o i)))) :pattern ((sat (bstr a o n) i)))))`},
	{[]string{"bstr"}, `(assert (forall ((v Int)) (! (and (<= 0 (b8 v)) (<= (b8 v) 255) (=> (and (<= 0 v) (<= v 255)) (= (b8 v) v))) :pattern ((b8 v)))))`},
	{[]string{"bstr!offp"}, `(assert (forall ((a (Array Int Int)) (o Int) (d Int) (n Int) (m Int)) (! (=> (and (<= 0 d) (<= 0 n) (<= (+ d n) m)) (= (bstr a (offp o d) n) (ssub (bstr a o m) d (+ d n)))) :pattern ((bstr a (offp o d) n) (bstr a o m)))))`},
	{[]string{"bytestr"}, `(assert (forall ((b Int)) (! (=> (and (<= 0 b) (<= b 255)) (and (= (slen (bytestr b)) 1) (= (sat (bytestr b) 0) b))) :pattern ((bytestr b)))))`},
	{[]string{"runestr"}, `(assert (forall ((r Int)) (! (and (<= 1 (slen (runestr r))) (<= (slen (runestr r)) 4) (=> (and (<= 0 r) (< r 128)) (and (= (slen (runestr r)) 1) (= (sat (runestr r) 0) r))) (=> (or (< r 0) (>= r 128)) (>= (slen (runestr r)) 2))) :pattern ((runestr r)))))
(assert (forall ((r Int) (i Int)) (! (=> (and (or (< r 0) (>= r 128)) (<= 0 i) (< i (slen (runestr r)))) (>= (sat (runestr r) i) 128)) :pattern ((sat (runestr r) i)))))`},
	{[]string{"sless"}, `(assert (forall ((a Str) (b Str)) (! (not (and (sless a b) (sless b a))) :pattern ((sless a b)))))
(assert (forall ((a Str) (b Str)) (! (or (sless a b) (sless b a) (= a b)) :pattern ((sless a b)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (sless a b) (sless b c)) (sless a c)) :pattern ((sless a b) (sless b c)))))`},
	{[]string{"decr", "decw"}, `(assert (forall ((s Str) (p Int)) (! (=> (and (<= 0 p) (< p (slen s))) (and (<= 1 (decw s p)) (<= (decw s p) 4) (<= (+ p (decw s p)) (slen s)) (=> (< (sat s p) 128) (and (= (decw s p) 1) (= (decr s p) (sat s p)))) (=> (>= (sat s p) 128) (and (>= (decr s p) 128) (<= (decr s p) 1114111) (or (< (decr s p) 55296) (> (decr s p) 57343)) (>= (sat s (+ p (- (decw s p) 1))) 128))))) :pattern ((decw s p)) :pattern ((decr s p)))))`},
	{[]string{"decr", "decw"}, `(assert (forall ((s Str) (a Int) (b Int) (i Int)) (! (=> (and (= b (slen s)) (<= 0 a) (<= a b) (<= 0 i) (<= i (- b a))) (and (= (decr (ssub s a b) i) (decr s (+ a i))) (= (decw (ssub s a b) i) (decw s (+ a i))))) :pattern ((decr (ssub s a b) i)) :pattern ((decw (ssub s a b) i)))))`},
	{[]string{"offp"}, `(assert (forall ((o Int) (d Int)) (! (= (offp o d) (+ o d)) :pattern ((offp o d)))))`},
	{[]string{"bitand"}, `(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= 0 b)) (and (<= 0 (bitand a b)) (<= (bitand a b) a) (<= (bitand a b) b))) :pattern ((bitand a b)))))`},
}

var declRe = regexp.MustCompile(`^\(declare-(?:const|fun) (\|[^|]*\||[^ ]+) `)
var defRe = regexp.MustCompile(`^\(assert \(= (\|[^|]*\||[^ ()]+) `)
var symRe = regexp.MustCompile(`\|[^|]*\||[A-Za-z_.!$@0-9]+`)

func symbolsOf(s string, f func(string)) {
	for _, m := range symRe.FindAllString(s, -1) {
		f(m)
	}
}

// query builds the SMT text of an obligation.
func (o *Obl) query() string {
	x := o.ctx
	goal, guard := o.goal.String(), o.guard.String()
	var tail []string
	if o.Kind == "cover" {
		tail = []string{"(assert " + guard + ")"}
	} else {
		tail = []string{"(assert " + guard + ")", "(assert (not " + goal + "))"}
	}
	used := map[string]bool{}
	use := func(s string) { used[s] = true }
	for _, t := range tail {
		symbolsOf(t, use)
	}
	// keep: drop definitions of constants nothing kept refers to
	lines := x.lines[:o.upto]
	keep := make([]bool, len(lines))
	dead := make([]bool, len(lines))
	for _, r := range x.scopes {
		if r[1] <= o.upto {
			for i := r[0]; i < r[1]; i++ {
				dead[i] = true
			}
		}
	}
	for i := len(lines) - 1; i >= 0; i-- {
		l := lines[i]
		if o.hide[0] <= i && i < o.hide[1] && strings.HasPrefix(l, "(assert") {
			continue
		}
		if o.lean && o.aside(i) {
			continue
		}
		if dead[i] && strings.HasPrefix(l, "(assert (=>") {
			continue
		}
		if m := declRe.FindStringSubmatch(l); m != nil {
			keep[i] = used[m[1]]
			continue
		}
		if m := defRe.FindStringSubmatch(l); m != nil && strings.Contains(m[1], "!") && !used[m[1]] {
			continue
		}
		keep[i] = true
		symbolsOf(l, use)
	}
	// logic axioms, to a fixpoint of used symbols
	var ax []string
	done := map[int]bool{}
	for ch := true; ch; {
		ch = false
		for i, a := range x.defAxioms {
			if !done[i] && used[a.key] {
				done[i] = true
				ch = true
				ax = append(ax, "(assert "+a.text+")")
				symbolsOf(a.text, use)
			}
		}
		for i, a := range x.axioms {
			k := len(x.defAxioms) + i
			if done[k] {
				continue
			}
			ok := false
			for _, g := range a.keys {
				all := true
				for _, s := range g {
					all = all && used[s]
				}
				ok = ok || all
			}
			if ok {
				done[k] = true
				ch = true
				ax = append(ax, "(assert "+a.text+")")
				symbolsOf(a.text, use)
			}
		}
	}
	var b strings.Builder
	b.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :type_check true)\n(set-option :smt.case_split 3)\n(set-option :smt.qi.eager_threshold 60)\n(set-option :pp.max_depth 6)\n(set-logic ALL)\n")
	b.WriteString(preludeBase)
	for _, d := range x.dtDecls {
		b.WriteString(d + "\n")
	}
	// literals
	var lits strings.Builder
	for i, s := range x.litOrder {
		n := fmt.Sprintf("str!%d", i)
		if !used[n] {
			continue
		}
		fmt.Fprintf(&lits, "(declare-const %s Str)\n(assert (= (slen %s) %d))\n", n, n, len(s))
		if len(s) <= 200 {
			for k := 0; k < len(s); k++ {
				fmt.Fprintf(&lits, "(assert (= (sat %s %d) %d))\n", n, k, s[k])
			}
		}
		used["slen"], used["sat"] = true, true
	}
	var pre strings.Builder
	if used["bstr"] || used["ssub"] || used["scat"] || used["decr"] || used["decw"] || used["streq"] || used["str!empty"] {
		used["slen"], used["sat"] = true, true
	}
	if used["decr"] || used["decw"] {
		used["ssub"] = true
	}
	if used["bstr"] {
		used[atFn("Int")] = true
		if used["offp"] {
			used["bstr!offp"], used["ssub"] = true, true
		}
	}
	for _, n := range sortedKeys(atSorts) {
		if !used[n] {
			continue
		}
		v := atSorts[n]
		fmt.Fprintf(&pre, "(declare-fun %s ((Array Int %s) Int Int) %s)\n", n, v, v)
		fmt.Fprintf(&pre, "(assert (forall ((a (Array Int %s)) (o Int) (i Int)) (! (= (%s a o i) (select a (+ o i))) :pattern ((%s a o i)))))\n", v, n, n)
		fmt.Fprintf(&pre, "(assert (forall ((a (Array Int %s)) (p Int) (v %s) (o Int) (i Int)) (! (= (%s (store a p v) o i) (ite (= (+ o i) p) v (%s a o i))) :pattern ((%s (store a p v) o i)))))\n", v, v, n, n, n)
		if used["offp"] {
			fmt.Fprintf(&pre, "(assert (forall ((a (Array Int %s)) (o Int) (d Int) (i Int)) (! (= (%s a (offp o d) i) (%s a o (+ d i))) :pattern ((%s a (offp o d) i)))))\n", v, n, n, n)
			fmt.Fprintf(&pre, "(assert (forall ((a (Array Int %s)) (o Int) (d Int) (k Int)) (! (= (%s a (offp o d) (- k d)) (%s a o k)) :pattern ((%s a o k) (offp o d)))))\n", v, n, n, n)
		}
	}
	for _, a := range preludeAxioms {
		for _, k := range a.keys {
			if used[k] {
				pre.WriteString(a.text + "\n")
				break
			}
		}
	}
	b.WriteString(pre.String())
	b.WriteString(lits.String())
	for _, c := range sortedKeys(x.entryHeap) {
		if t := x.entryHeap[c]; used[t.Op] {
			fmt.Fprintf(&b, "(declare-const %s %s)\n", t.Op, t.Sort)
		}
	}
	for _, a := range x.entryFacts {
		if used[a.key] {
			b.WriteString("(assert " + a.text + ")\n")
		}
	}
	for _, d := range x.logicDecls {
		if m := declRe.FindStringSubmatch(d); m == nil || used[m[1]] {
			b.WriteString(d + "\n")
		}
	}
	for _, a := range ax {
		b.WriteString(a + "\n")
	}
	for i, l := range lines {
		if keep[i] {
			b.WriteString(l + "\n")
		}
	}
	for _, t := range tail {
		b.WriteString(t + "\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

var queryMu sync.Mutex

type solverCfg struct {
	name string
	args []string
	secs int
	fix  func(string) string
	lean string
}

func noOpts(q string) string {
	var b strings.Builder
	for _, l := range strings.Split(q, "\n") {
		if !strings.HasPrefix(l, "(set-option") {
			b.WriteString(l + "\n")
		}
	}
	return b.String()
}

func seeded(n int) func(string) string {
	return func(q string) string {
		return fmt.Sprintf("(set-option :smt.random_seed %d)\n(set-option :smt.arith.random_initial_value true)\n", n) + q
	}
}

func arith2(q string) string { return "(set-option :smt.arith.solver 2)\n" + q }

// Once several obligations of a run have failed, or the run has taken long,
// the verdict is a violation anyway: the rest get a short attempt only.
var (
	undischarged  atomic.Int32
	solveDeadline time.Time
)

const manyUndischarged = 8

var solvers = []solverCfg{
	{"z3-new", []string{"z3-new", "-smt2", "-in"}, 4, nil, ""},
	{"z3", []string{"z3", "-smt2", "-in"}, 5, nil, ""},
	{"z3-new/seed1", []string{"z3-new", "-smt2", "-in"}, 6, seeded(1), ""},
	{"z3-new/arith2", []string{"z3-new", "-smt2", "-in"}, 6, arith2, ""},
	{"z3-new/seed2", []string{"z3-new", "-smt2", "-in"}, 8, seeded(2), ""},
	{"z3/long", []string{"z3", "-smt2", "-in"}, 10, nil, ""},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--full-saturate-quant"}, 15, noOpts, ""},
	{"z3-new/seed", []string{"z3-new", "-smt2", "-in"}, 20, seeded(7), ""},
	{"z3-new/arith2seed", []string{"z3-new", "-smt2", "-in"}, 20, func(q string) string { return seeded(3)(arith2(q)) }, ""},
	defaultSolver,
}

var defaultSolver = solverCfg{"z3-new/default", []string{"z3-new", "-smt2", "-in"}, 15, noOpts, ""}

var coverSolvers = []solverCfg{{"z3-new", []string{"z3-new", "-smt2", "-in"}, 2, nil, ""}}

func runSolver(c solverCfg, q string, scale float64) (res, out string) {
	if c.fix != nil {
		q = c.fix(q)
	}
	secs := float64(c.secs) * scale
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration((secs+5)*float64(time.Second)))
	defer cancel()
	args := append([]string{}, c.args[1:]...)
	if strings.HasPrefix(c.name, "z3") {
		args = append(args, fmt.Sprintf("-T:%d", int(secs+0.5)), "-memory:3000")
	} else {
		args = append(args, fmt.Sprintf("--tlimit=%d", int(secs*1000)))
	}
	cmd := exec.CommandContext(ctx, c.args[0], args...)
	cmd.Stdin = strings.NewReader(q)
	var ob bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &ob
	cmd.Run()
	out = ob.String()
	for _, l := range strings.Split(out, "\n") {
		switch l = strings.TrimSpace(l); {
		case l == "sat" || l == "unsat" || l == "unknown" || l == "timeout":
			return l, out
		case strings.HasPrefix(l, "(error"):
			return "error", out
		}
	}
	return "timeout", out
}

// dump writes the query to a file.
func (o *Obl) dump(dir, q string) {
	n := strings.NewReplacer("/", "_", "#", "_", ":", "_", " ", "_", "$", "_", "*", "_").Replace(o.Name)
	os.WriteFile(filepath.Join(dir, n+".smt2"), []byte("; "+o.Name+" "+o.Pos+"\n; "+o.Src+"\n"+q), 0o644)
}

// solve decides one obligation.
func (o *Obl) solve(scale float64, dump string) {
	if o.Status != "" {
		return
	}
	t0 := time.Now()
	queryMu.Lock()
	q := o.query()
	queryMu.Unlock()
	if dump != "" {
		o.dump(dump, q)
	}
	list := solvers
	if len(o.ctx.factProps) > 0 && o.Kind != "cover" {
		queryMu.Lock()
		o.lean = true
		q1 := o.query()
		o.lean = false
		queryMu.Unlock()
		if q1 != q {
			list = nil
			for i, c := range solvers {
				if i < 4 {
					c1 := c
					c1.lean = q1
					list = append(list, c1)
				}
			}
			list = append(list, solvers...)
		}
	}
	if o.Kind == "cover" {
		list = coverSolvers
	}
	var outs []string
	if !solveDeadline.IsZero() && time.Now().After(solveDeadline) {
		list = nil
		outs = append(outs, "not attempted: the run's time is up")
	}
	tried, quick := map[string]bool{}, false
	for i := 0; i < len(list); i++ {
		c := list[i]
		if i > 0 && (undischarged.Load() >= manyUndischarged || !solveDeadline.IsZero() && time.Now().After(solveDeadline)) {
			outs = append(outs, "further back ends not tried")
			break
		}
		q := q
		if c.lean != "" {
			q = c.lean
			c.name += "/lean"
		}
		if c.lean != "" && quick {
			continue
		}
		tried[c.name] = true
		t1 := time.Now()
		r, out := runSolver(c, q, scale)
		if r == "unknown" && time.Since(t1) < 1200*time.Millisecond && c.name != "z3-new/default3" {
			// the instantiations were exhausted at once: other search
			// parameters do not help, another quantifier engine may
			if c.lean != "" {
				quick = true
			} else if !tried["z3-new/default3"] {
				d := defaultSolver
				d.name, d.secs = "z3-new/default3", 3
				rest := append([]solverCfg{d}, list[i+1:]...)
				list = append(append([]solverCfg{}, list[:i+1]...), rest...)
			}
		}
		outs = append(outs, c.name+": "+strings.TrimSpace(r))
		if r == "error" {
			outs = append(outs, firstLines(out, 4))
			if c.name != "cvc5" {
				o.Status = "failed"
				break
			}
			continue
		}
		if o.Kind == "cover" {
			if r == "unsat" {
				o.Status = "failed"
			} else {
				o.Status = "proved"
			}
			o.Solver = c.name
			break
		}
		if r == "unsat" {
			o.Status, o.Solver = "proved", c.name
			break
		}
		if r == "sat" && c.name != "cvc5" && c.lean == "" {
			o.Status = "failed"
			break
		}
	}
	if o.Status == "" {
		o.Status = "unknown"
	}
	if o.Status != "proved" && o.Kind != "cover" {
		undischarged.Add(1)
	}
	o.Out = strings.Join(outs, "\n")
	o.Time = time.Since(t0).Seconds()
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// solveAll decides obligations in parallel.
func solveAll(obls []*Obl, workers int, scale float64, dump string) {
	ch := make(chan *Obl)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range ch {
				o.solve(scale, dump)
			}
		}()
	}
	// big queries first
	os := append([]*Obl{}, obls...)
	sort.SliceStable(os, func(i, j int) bool { return os[i].upto > os[j].upto })
	for _, o := range os {
		ch <- o
	}
	close(ch)
	wg.Wait()
}
