package main

import (
	"fmt"
	"go/token"
	"strings"
)

type axiomInst struct {
	name string
	keys [][]string // alternatives: all logic functions of one trigger
	text string
}

// logicsIn lists the logic functions mentioned in e.
func (s *Specs) logicsIn(e *Expr, out map[string]bool) {
	if e == nil {
		return
	}
	if e.Kind == "call" && e.A[0].Kind == "id" {
		if s.logics[e.A[0].S] != nil {
			out[e.A[0].S] = true
		}
		if p := s.preds[e.A[0].S]; p != nil {
			s.logicsIn(p.Body, out)
		}
	}
	for _, a := range e.A {
		s.logicsIn(a, out)
	}
	for _, p := range e.Pats {
		for _, a := range p {
			s.logicsIn(a, out)
		}
	}
}

func (s *Specs) lemma(name string) *AxiomDef {
	for _, a := range s.axioms {
		if a.Name == name {
			return a
		}
	}
	return nil
}

// lemmaTerm builds the universally quantified statement of a lemma.
func (x *Ctx) lemmaTerm(l *AxiomDef) *Term {
	if l.Kind == "axiom" {
		e := &Env{x: x, pkg: l.Pkg, names: map[string]SVal{}}
		x.inQuant++
		defer func() { x.inQuant-- }()
		return e.term(e.eval(l.E))
	}
	e := &Env{x: x, pkg: l.Pkg, names: map[string]SVal{}}
	x.inQuant++
	defer func() { x.inQuant-- }()
	var qs []qvar
	for _, p := range l.Params {
		t := e.typ(p.Type)
		x.qn++
		nm := sym(fmt.Sprintf("%s!l%d", p.Name, x.qn))
		qs = append(qs, qvar{nm, x.sortOf(t)})
		e.names[p.Name] = sv(mk(nm, x.sortOf(t)), t)
	}
	return x.lemmaBody(l, e, qs)
}

func (x *Ctx) lemmaBody(l *AxiomDef, e *Env, qs []qvar) *Term {
	var rq, en []*Term
	for _, c := range l.Req {
		rq = append(rq, e.term(e.eval(c.E)))
	}
	for _, c := range l.Ens {
		en = append(en, e.term(e.eval(c.E)))
	}
	body := implies(and(rq...), and(en...))
	if qs == nil {
		return body
	}
	var pats [][]*Term
	for _, p := range l.Pats {
		var ts []*Term
		for _, pe := range p {
			ts = append(ts, e.term(e.eval(pe)))
		}
		pats = append(pats, ts)
	}
	return forall(qs, body, pats...)
}

// prepareAxioms evaluates the axioms and the named lemmas for this unit.
func (x *Ctx) prepareAxioms(uses []string, before *AxiomDef) {
	want := map[string]bool{}
	for _, u := range uses {
		want[u] = true
		if x.specs.lemma(u) == nil {
			x.fail("uses unknown lemma %s", u)
		}
	}
	for _, a := range x.specs.axioms {
		if a == before {
			if want[a.Name] {
				x.fail("lemma %s uses itself", a.Name)
			}
		}
		if a.Kind == "lemma" && !want[a.Name] {
			continue
		}
		if x.prog.pkgs[a.Pkg] == nil {
			continue
		}
		var groups []map[string]bool
		pats := a.Pats
		if a.Kind == "axiom" && a.E.Kind == "quant" {
			pats = a.E.Pats
		}
		for _, p := range pats {
			g := map[string]bool{}
			for _, pe := range p {
				x.specs.logicsIn(pe, g)
			}
			if len(g) == 0 && a.Kind == "axiom" {
				// a trigger of built-in terms only: needed when the body's functions are
				x.specs.logicsIn(a.E, g)
			}
			groups = append(groups, g)
		}
		if len(groups) == 0 {
			g := map[string]bool{}
			if a.Kind == "axiom" {
				x.specs.logicsIn(a.E, g)
			}
			for _, c := range append(append([]*Clause{}, a.Req...), a.Ens...) {
				x.specs.logicsIn(c.E, g)
			}
			groups = append(groups, g)
		}
		// only when all of a trigger is already in use: otherwise irrelevant
		relevant, builtin := false, true
		for _, g := range groups {
			builtin = builtin && len(g) == 0
			all := true
			for k := range g {
				if !x.logicUsed[k] {
					all = false
				}
			}
			relevant = relevant || all
		}
		if !relevant && a.Kind == "axiom" {
			continue
		}
		// an axiom about built-in functions only: for the functions and lemmas of its own package
		if builtin && a.Kind == "axiom" && !want[a.Name] && !(before != nil && before.Pkg == a.Pkg) && !strings.HasPrefix(x.name, a.Pkg+".") {
			continue
		}
		t := x.lemmaTerm(a)
		var keys [][]string
		for _, g := range groups {
			var ks []string
			for _, k := range sortedKeys(g) {
				ks = append(ks, sym(k))
			}
			keys = append(keys, ks)
		}
		x.axioms = append(x.axioms, axiomInst{a.Name, keys, t.String()})
		if a.Kind == "axiom" {
			x.trusted["axiom "+a.Name+": "+a.Src] = true
		}
	}
}

// axiomsFix repeats prepareAxioms until the set of used logic functions is stable.
func (x *Ctx) finish(uses []string, before *AxiomDef) {
	for i := 0; i < 6; i++ {
		n := len(x.logicUsed)
		x.axioms = nil
		saved := x.lines
		x.prepareAxioms(uses, before)
		if len(x.logicUsed) == n {
			return
		}
		x.lines = saved
	}
}

// verifyLemma generates the obligations of a lemma.
func (x *Ctx) verifyLemma(l *AxiomDef) {
	st := x.newState()
	st.next = num(1)
	e := &Env{x: x, pkg: l.Pkg, names: map[string]SVal{}}
	for _, p := range l.Params {
		t := e.typ(p.Type)
		e.names[p.Name] = sv(x.fresh(p.Name, x.sortOf(t)), t)
		if w := x.wfTerm(e.names[p.Name].V.T, t, num(1)); t.String() != "int" && x.sortOf(t) != "Slice" {
			_ = w
		}
	}
	if l.Induct != "" {
		n := e.term(e.eval(l.IndE))
		if _, ok := e.names[l.Induct]; ok {
			// hypothesis at n-1, everything else fixed
			h := e.sub()
			h.names[l.Induct] = sv(sub(n, num(1)), tInt)
			x.assume(st, implies(ge(n, num(1)), x.lemmaBody(l, h, nil)))
		} else if len(l.Pats) == 0 {
			x.fail("lemma %s: induction on a measure needs a trigger", l.Name)
		}
		if len(l.Pats) > 0 {
			// and for any smaller value, everything else arbitrary
			x.inQuant++
			g := &Env{x: x, pkg: l.Pkg, names: map[string]SVal{}}
			var qs []qvar
			for _, p := range l.Params {
				t := g.typ(p.Type)
				x.qn++
				nm := sym(fmt.Sprintf("%s!i%d", p.Name, x.qn))
				qs = append(qs, qvar{nm, x.sortOf(t)})
				g.names[p.Name] = sv(mk(nm, x.sortOf(t)), t)
			}
			body := x.lemmaBody(l, g, nil)
			var pats [][]*Term
			for _, p := range l.Pats {
				var ts []*Term
				for _, pe := range p {
					ts = append(ts, g.term(g.eval(pe)))
				}
				pats = append(pats, ts)
			}
			m := g.term(g.eval(l.IndE))
			t := forall(qs, implies(and(le(num(0), m), lt(m, n)), body), pats...)
			x.inQuant--
			x.assume(st, t)
		}
	}
	for _, c := range l.Req {
		x.assume(st, e.term(e.eval(c.E)))
	}
	x.cover(st, "cover", "requires", token.NoPos)
	for _, c := range l.Hints {
		x.oblige(st, "hint", c.Label, c.Src, token.NoPos, e.term(e.eval(c.E)), nil)
	}
	for _, c := range l.Ens {
		x.oblige(st, "lemma", c.Label, c.Src, token.NoPos, e.term(e.eval(c.E)), nil)
	}
	for _, o := range x.obls {
		if o.Pos == "" {
			o.Pos = fmt.Sprintf("contracts/%s:%d", l.File, l.Line)
		}
	}
}

func (x *Ctx) guardRun(f func()) {
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch e := r.(type) {
			case execError:
				msg = e.msg
			case evalError:
				msg = e.msg
			case string:
				if !strings.Contains(e, "sort") {
					panic(r)
				}
				msg = e
			default:
				panic(r)
			}
			o := &Obl{Name: x.name + "/unsupported#1", Func: x.name, Kind: "unsupported", Src: msg, goal: tFalse, guard: tTrue, ctx: x, Status: "failed", Out: msg}
			x.obls = append(x.obls, o)
			x.errs = append(x.errs, msg)
		}
	}()
	f()
}
