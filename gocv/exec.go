package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

type retEdge struct {
	st   *State
	vals []Val
	pos  token.Pos
}

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	n      int
	stmt   ast.Node
	pos    token.Pos
	parent *Loop
	iter   *State // start of the current iteration
}

type Frame struct {
	iterAt map[int]*iterMark
	heads  map[int]*State
	x      *Ctx
	fn     *ssa.Function
	con    *Contract
	depth  int
	top    bool
	caller *Frame
	cells  map[*ssa.Alloc]*Cell
	iters  map[ssa.Value]*Cell
	free   map[*ssa.FreeVar]Val
	params map[string]SVal // contract parameter names -> entry values
	alias  map[string]string
	entry  *State
	loops  map[*ssa.BasicBlock]*Loop
	rpo    []*ssa.BasicBlock
	order  map[*ssa.BasicBlock]int
	cross  map[ssa.Value]bool
	rets   []*retEdge
	syntax ast.Node
	cur    token.Pos
	loopSt map[int]*State    // loop entry states by ordinal, for pre()
	host   *Frame            // the frame whose contract speaks of the loops of this inlined one
	hostL  *Loop             // the loop of host around the call
	slots  map[token.Pos]int // calls whose callee's loops the contract counts: number of loops before
}

func (x *Ctx) newFrame(fn *ssa.Function, con *Contract) *Frame {
	f := &Frame{x: x, fn: fn, con: con, cells: map[*ssa.Alloc]*Cell{}, iters: map[ssa.Value]*Cell{}, free: map[*ssa.FreeVar]Val{},
		params: map[string]SVal{}, alias: map[string]string{}, syntax: fn.Syntax(), loopSt: map[int]*State{}, heads: map[int]*State{}, iterAt: map[int]*iterMark{}}
	f.analyze()
	f.rename()
	f.reorder()
	f.countInlined()
	return f
}

// ---- CFG analysis ----

func (f *Frame) analyze() {
	fn := f.fn
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	f.order = map[*ssa.BasicBlock]int{}
	for i := len(post) - 1; i >= 0; i-- {
		f.order[post[i]] = len(f.rpo)
		f.rpo = append(f.rpo, post[i])
	}
	f.loops = map[*ssa.BasicBlock]*Loop{}
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if f.order[s] <= f.order[b] {
				if !s.Dominates(b) {
					f.x.fail("irreducible control flow in %s", fn.Name())
				}
				l := f.loops[s]
				if l == nil {
					l = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					f.loops[s] = l
				}
				// natural loop of back edge b->s
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range n.Preds {
						if !l.blocks[p] && seen[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	// loop statements
	var stmts []ast.Node
	if f.syntax != nil {
		ast.Inspect(f.syntax, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				return n == f.syntax
			case *ast.ForStmt, *ast.RangeStmt:
				stmts = append(stmts, n)
			}
			return true
		})
	}
	var ls []*Loop
	for _, l := range f.loops {
		ls = append(ls, l)
		min, max := token.Pos(0), token.Pos(0)
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if p := in.Pos(); p.IsValid() {
					if min == 0 || p < min {
						min = p
					}
					if p > max {
						max = p
					}
				}
			}
		}
		l.pos = min
		for _, s := range stmts {
			if s.Pos() <= min && max < s.End() && (l.stmt == nil || s.End()-s.Pos() < l.stmt.End()-l.stmt.Pos()) {
				l.stmt = s
			}
		}
		if l.stmt != nil {
			l.pos = l.stmt.Pos()
		}
	}
	sort.Slice(ls, func(i, j int) bool {
		if ls[i].pos != ls[j].pos {
			return ls[i].pos < ls[j].pos
		}
		return len(ls[i].blocks) > len(ls[j].blocks)
	})
	for i, l := range ls {
		l.n = i + 1
		for _, m := range ls {
			if m != l && m.blocks[l.head] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
	f.cross = map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			if _, ok := in.(*ssa.Alloc); ok {
				f.cross[v] = true
				continue
			}
			for _, r := range *v.Referrers() {
				if _, ok := r.(*ssa.Phi); ok || r.Block() != b {
					f.cross[v] = true
					break
				}
			}
		}
	}
}

// ---- states ----

func (x *Ctx) newState() *State {
	return &State{pc: tTrue, cells: map[*Cell]Val{}, heap: map[string]*Term{}, regs: map[ssa.Value]Val{}}
}

func (x *Ctx) mergeVal(pc *Term, a, b Val, hint string) Val {
	switch {
	case a.T != nil && b.T != nil:
		if a.T.Sort != b.T.Sort {
			return Val{Bad: "merged values of different sorts"}
		}
		r := tv(x.def(hint, ite(pc, a.T, b.T)))
		if len(a.El) == 1 && len(b.El) == 1 && same(a.T, b.T) {
			r.El = a.El
		}
		return r
	case a.C != nil && b.C != nil && a.C == b.C:
		return a
	case a.P != nil && b.P != nil:
		p, q := a.P, b.P
		if p == q {
			return a
		}
		if p.Kind == q.Kind && len(p.Path) == len(q.Path) && p.Cell == q.Cell && p.Glob == q.Glob {
			ok := true
			for i := range p.Path {
				if p.Path[i] != q.Path[i] {
					ok = false
				}
			}
			if ok && p.Kind == pElem && types.Identical(p.Typ, q.Typ) {
				n := *p
				n.Ref = x.def("ref", ite(pc, p.Ref, q.Ref))
				n.Off = x.def("off", ite(pc, p.Off, q.Off))
				n.Idx = x.def("idx", ite(pc, p.Idx, q.Idx))
				return Val{P: &n}
			}
			if ok && p.Kind == pObj && types.Identical(p.Typ, q.Typ) {
				n := *p
				n.Ref = x.def("ref", ite(pc, p.Ref, q.Ref))
				return Val{P: &n}
			}
			if ok && (p.Kind == pCell || p.Kind == pGlob) {
				return a
			}
		}
		return Val{Bad: "merged pointers"}
	case a.AS != nil && b.AS != nil && *a.AS.Cell == *b.AS.Cell && len(a.AS.Path) == 0 && len(b.AS.Path) == 0:
		return a
	case a.El != nil && b.El != nil && len(a.El) == len(b.El):
		el := make([]Val, len(a.El))
		for i := range el {
			el[i] = x.mergeVal(pc, a.El[i], b.El[i], hint)
		}
		return Val{El: el}
	case a.El != nil && b.T != nil && arrSort(a.El, b.T.Sort):
		return x.mergeVal(pc, a, Val{El: arrEls(a.El, b.T)}, hint)
	case b.El != nil && a.T != nil && arrSort(b.El, a.T.Sort):
		return x.mergeVal(pc, Val{El: arrEls(b.El, a.T)}, b, hint)
	case a.P != nil && a.P.Kind == pObj && len(a.P.Path) == 0 && b.T != nil:
		return x.mergeVal(pc, tv(a.P.Ref), b, hint)
	case b.P != nil && b.P.Kind == pObj && len(b.P.Path) == 0 && a.T != nil:
		return x.mergeVal(pc, a, tv(b.P.Ref), hint)
	case a.C != nil && b.T != nil || b.C != nil && a.T != nil || a.C != nil && b.C != nil:
		return Val{Bad: "merged function values"}
	}
	if a.Bad != "" {
		return a
	}
	if b.Bad != "" {
		return b
	}
	return Val{Bad: "merged values of different kinds"}
}

func (x *Ctx) merge(sts []*State) *State {
	var live []*State
	for _, s := range sts {
		if !isFalse(s.pc) {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		if len(sts) == 0 {
			return nil
		}
		return sts[0]
	}
	if len(live) == 1 {
		return live[0]
	}
	acc := live[len(live)-1].clone()
	var pcs []*Term
	for _, s := range live {
		pcs = append(pcs, s.pc)
		if s.via != nil {
			acc.via = s.via
		}
	}
	if acc.via != nil {
		for i, a := range pcs {
			for _, b := range pcs[:i] {
				x.fact(not(and(a, b)))
			}
		}
	}
	for i := len(live) - 2; i >= 0; i-- {
		s := live[i]
		for _, c := range sortedCells(acc.cells) {
			v := acc.cells[c]
			w, ok := s.cells[c]
			if !ok {
				delete(acc.cells, c)
				continue
			}
			acc.cells[c] = x.mergeVal(s.pc, w, v, c.name)
		}
		seen := map[string]bool{}
		for c := range acc.heap {
			seen[c] = true
		}
		for c := range s.heap {
			seen[c] = true
		}
		for _, c := range sortedKeys(seen) {
			acc.heap[c] = x.def("H", ite(s.pc, x.heapGet(s, c), x.heapGet(acc, c)))
		}
		acc.next = x.def("next", ite(s.pc, s.next, acc.next))
		for _, r := range sortedRegs(acc.regs) {
			v := acc.regs[r]
			w, ok := s.regs[r]
			if !ok {
				delete(acc.regs, r)
				continue
			}
			acc.regs[r] = x.mergeVal(s.pc, w, v, "r")
		}
	}
	acc.pc = x.def("pc", or(pcs...))
	return acc
}

// ---- region execution ----

// run executes region l (nil: the whole function) from block start.
// It returns the edges leaving the region and the back edges to start.
func (f *Frame) run(l *Loop, start *ssa.BasicBlock, in *State) (outs, backs []edge) {
	pending := map[*ssa.BasicBlock][]edge{}
	route := func(es []edge) {
		for _, e := range es {
			if isFalse(e.st.pc) {
				continue
			}
			switch {
			case l != nil && e.to == start:
				backs = append(backs, e)
			case l != nil && !l.blocks[e.to]:
				outs = append(outs, e)
			default:
				pending[e.to] = append(pending[e.to], e)
			}
		}
	}
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range f.rpo[f.order[start]:] {
		if l != nil && !l.blocks[b] || done[b] {
			continue
		}
		var st *State
		if b == start {
			st = in
		} else {
			es := pending[b]
			if len(es) == 0 {
				continue
			}
			if len(es) > 1 && l == nil && f.con != nil && f.con.Options["splitreturns"] != "" && onlyReturns(b) {
				for _, e := range es {
					route(f.block(b, f.join(b, []edge{e})))
				}
				continue
			}
			st = f.join(b, es)
		}
		if il := f.loops[b]; il != nil && (b != start || l == nil) && il != l {
			for bb := range il.blocks {
				done[bb] = true
			}
			route(f.loop(il, st))
			continue
		}
		route(f.block(b, st))
	}
	return
}

// onlyReturns tells whether b does nothing but return; its incoming paths may then be kept apart.
func onlyReturns(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.Return, *ssa.DebugRef, *ssa.RunDefers:
		default:
			return false
		}
	}
	return true
}

// join merges incoming edges, evaluating phis.
func (f *Frame) join(b *ssa.BasicBlock, es []edge) *State {
	var sts []*State
	for _, e := range es {
		s := e.st
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[0].(*ssa.Phi); ok {
				s = s.clone()
				vals := map[ssa.Value]Val{}
				for _, in := range b.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for i, p := range b.Preds {
						if p == e.from {
							vals[phi] = f.val(s, phi.Edges[i])
						}
					}
				}
				for k, v := range vals {
					s.regs[k] = v
				}
			}
		}
		sts = append(sts, s)
	}
	m := f.x.merge(sts)
	if len(sts) == 1 {
		m = m.clone()
	}
	return m
}

// block executes one basic block; st is consumed.
func (f *Frame) block(b *ssa.BasicBlock, st *State) []edge {
	x := f.x
	for _, in := range b.Instrs {
		if p := in.Pos(); p.IsValid() {
			f.cur = p
		}
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := f.term(st, in.Cond)
			f.prune(st, b)
			s2 := st.clone()
			st.pc = x.def("pc", and(st.pc, c))
			s2.pc = x.def("pc", and(s2.pc, not(c)))
			return []edge{{b, b.Succs[0], st}, {b, b.Succs[1], s2}}
		case *ssa.Jump:
			f.prune(st, b)
			return []edge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var vs []Val
			for _, r := range in.Results {
				vs = append(vs, f.val(st, r))
			}
			f.rets = append(f.rets, &retEdge{st, vs, in.Pos()})
			return nil
		case *ssa.Panic:
			if f.con != nil && f.con.Options["maypanic"] != "" {
				x.trusted["a panic in "+x.name+" is not ruled out: "+f.con.Options["maypanic"]] = true
				return nil
			}
			x.oblige(st, "panic", "", "panic is unreachable", in.Pos(), tFalse, nil)
			return nil
		default:
			f.instr(st, in)
		}
		if isFalse(st.pc) {
			return nil
		}
	}
	return nil
}

func (f *Frame) prune(st *State, b *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		if v, ok := in.(ssa.Value); ok && !f.cross[v] {
			delete(st.regs, v)
		}
	}
}

// ---- loops ----

func (f *Frame) loopSpec(l *Loop) *LoopSpec {
	if f.host != nil {
		if s := f.host.con.Loops[l.n]; s != nil {
			return s
		}
	} else if f.con != nil {
		if s := f.con.Loops[l.n]; s != nil {
			return s
		}
	}
	return &LoopSpec{}
}

// rangeInfo recognizes a range-over-slice loop.
func (f *Frame) rangeInfo(l *Loop) (idx *ssa.Alloc, ln ssa.Value) {
	for _, in := range l.head.Instrs {
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
			if a, ok := u.X.(*ssa.Alloc); ok && a.Comment == "rangeindex" {
				idx = a
			}
		}
		if c, ok := in.(*ssa.BinOp); ok && c.Op == token.LSS && idx != nil {
			ln = c.Y
		}
	}
	if ln == nil {
		return nil, nil
	}
	return
}

func (f *Frame) loopIter(l *Loop) *ssa.Next {
	for _, in := range l.head.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			return n
		}
	}
	return nil
}

func (f *Frame) loop(l *Loop, in *State) []edge {
	spec := f.loopSpec(l)
	lname := fmt.Sprintf("loop%d", l.n)
	for _, c := range spec.Enter {
		f.obligeClause(in, l, in, "hint", lname, c)
	}
	pre := in.clone()
	outs := f.loopBody(l, in)
	if len(spec.Exit) > 0 {
		for _, o := range outs {
			for _, c := range spec.Exit {
				f.obligeClause(o.st, l, pre, "hint", lname, c)
			}
		}
	}
	if it := f.iterAt[spec.Forget]; spec.Forget > 0 && it != nil {
		x := f.x
		for i := range outs {
			o := outs[i].st.clone()
			o.via = &forgot{from: it.line, to: len(x.lines), pc: o.pc}
			o.regs = outs[i].st.regs
			outs[i].st = o
		}
		for k := range x.eqDone {
			if !it.eqDone[k] {
				delete(x.eqDone, k)
			}
		}
		for _, o := range outs {
			x.assume(o.st, it.st.pc)
			x.assume(o.st, le(it.st.next, o.st.next))
			for _, c := range spec.Exit {
				if t, ok := f.clauseTerm(o.st, l, pre, c); ok {
					x.assume(o.st, t)
				}
			}
		}
	}
	return outs
}

type iterMark struct {
	line   int
	st     *State
	eqDone map[string]bool
}

func (f *Frame) loopBody(l *Loop, in *State) []edge {
	x := f.x
	spec := f.loopSpec(l)
	lname := fmt.Sprintf("loop%d", l.n)
	if !f.top && f.host == nil {
		lname = f.fn.Name() + "." + lname
	}
	if spec.Unroll > 0 {
		var outs []edge
		cur := in
		for k := 0; ; k++ {
			o, backs := f.run(l, l.head, cur)
			outs = append(outs, o...)
			if len(backs) == 0 {
				break
			}
			cur = f.join(l.head, backs)
			for _, c := range spec.Hints {
				f.obligeClause(cur, l, in, "hint", lname, c)
			}
			if k >= spec.Unroll {
				x.oblige(cur, "unroll", lname, fmt.Sprintf("loop finishes within %d iterations", spec.Unroll), l.pos, tFalse, nil)
				break
			}
		}
		return outs
	}
	pre := in.clone()
	f.loopSt[l.n] = pre
	var inv []*Clause
	inv = append(inv, spec.Inv...)
	cnt := f.counter(l, spec)
	if cnt != nil {
		inv = append(inv, cnt.inv...)
	}
	for _, c := range inv {
		f.obligeClause(in, l, pre, "inv-init", lname, c)
	}
	st := in.clone()
	eff := x.effects.ofBlocks(l.blocks)
	if eff.alloc {
		x.moreAlloc(st, eff) // first: variables may come to hold what the loop allocates
	}
	// variables
	var allocs []*ssa.Alloc
	for a := range eff.cells {
		allocs = append(allocs, a)
	}
	sort.Slice(allocs, func(i, j int) bool {
		if allocs[i].Pos() != allocs[j].Pos() {
			return allocs[i].Pos() < allocs[j].Pos()
		}
		return allocs[i].Name() < allocs[j].Name()
	})
	for fr := f; fr != nil; fr = fr.caller {
		for _, a := range allocs {
			c := fr.cells[a]
			if c == nil {
				continue
			}
			if _, ok := st.cells[c]; !ok {
				continue
			}
			if fr == f && l.blocks[a.Block()] {
				delete(st.cells, c)
				continue
			}
			st.cells[c] = x.havocVal(st, c.typ, c.name, st.cells[c])
		}
	}
	var fvs []*ssa.FreeVar
	for fv := range eff.free {
		fvs = append(fvs, fv)
	}
	sort.Slice(fvs, func(i, j int) bool { return fvs[i].Name() < fvs[j].Name() })
	for _, fv := range fvs {
		if v, ok := f.free[fv]; ok && v.P != nil && v.P.Kind == pCell {
			st.cells[v.P.Cell] = x.havocVal(st, v.P.Cell.typ, v.P.Cell.name, st.cells[v.P.Cell])
		}
	}
	for _, k := range sortedKeys(x.ptrCells) {
		c := x.ptrCells[k]
		if eff.ptrs[typeKey(c.typ)] {
			if v, ok := st.cells[c]; ok {
				st.cells[c] = x.havocVal(st, c.typ, c.name, v)
			}
		}
	}
	for _, b := range f.fn.Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok {
				if c := f.iters[n.Iter]; c != nil {
					if v, ok := st.cells[c]; ok {
						st.cells[c] = x.havocVal(st, c.typ, c.name, v)
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				delete(st.regs, v)
			}
		}
	}
	// heap
	for _, name := range sortedKeys(eff.comps) {
		d := eff.comps[name]
		name = x.reg(name, d)
		x.havocComp(st, name, pre)
	}
	// automatic facts
	idx, ln := f.rangeInfo(l)
	var autoDec *Term
	if idx != nil {
		if c := f.cells[idx]; c != nil {
			if v, ok := st.cells[c]; ok && v.T != nil {
				n := f.term(pre, ln)
				x.assume(st, and(le(num(-1), v.T), lt(v.T, ite(ge(n, num(0)), n, num(0)))))
				autoDec = sub(n, v.T)
			}
		}
	}
	it := f.loopIter(l)
	if it != nil {
		if c := f.iters[it.Iter]; c != nil && it.IsString {
			pos := st.cells[c].T
			s := f.val(pre, it.Iter).T
			x.assume(st, and(le(num(0), pos), le(pos, x.slen(s))))
			autoDec = sub(x.slen(s), pos)
		}
	}
	for _, c := range inv {
		if t, ok := f.clauseTerm(st, l, pre, c); ok {
			x.assumeFor(st, t, c.Props)
		}
	}
	x.cover(st, "cover", lname, l.pos)
	l.iter = st.clone()
	f.heads[l.n] = l.iter
	f.iterAt[l.n] = &iterMark{len(x.lines), l.iter, map[string]bool{}}
	for k := range x.eqDone {
		f.iterAt[l.n].eqDone[k] = true
	}
	st.via = nil
	var dec []*Term
	specDec := spec.Dec
	if len(specDec) == 0 && cnt != nil {
		specDec = cnt.dec
	}
	for _, e := range specDec {
		env := f.loopEnv(st, l, pre)
		t, _, err := env.evalTerm(e)
		if err != nil {
			x.oblige(st, "contract", lname, "decreases: "+err.Error(), l.pos, tFalse, nil)
			continue
		}
		dec = append(dec, x.def("dec", t))
	}
	if len(dec) == 0 && autoDec != nil {
		dec = []*Term{x.def("dec", autoDec)}
	} else if len(dec) == 0 && it != nil {
		// range over a map: finite
	} else if len(dec) == 0 {
		if spec.NoDec != "" {
			x.trusted["termination of "+x.name+" "+lname+" is not proved: "+spec.NoDec] = true
		} else {
			x.oblige(st, "decreases", lname, "no termination measure for this loop", l.pos, tFalse, nil)
		}
	}
	outs, backs := f.run(l, l.head, st)
	for _, be := range backs {
		from := len(x.lines)
		bs := f.join(l.head, []edge{be})
		for _, c := range spec.Hints {
			f.obligeClause(bs, l, pre, "hint", lname, c)
		}
		for _, c := range inv {
			f.obligeClause(bs, l, pre, "inv-keep", lname, c)
		}
		if len(dec) > 0 {
			var d1 []*Term
			if len(specDec) > 0 {
				for _, e := range specDec {
					env := f.loopEnv(bs, l, pre)
					t, _, err := env.evalTerm(e)
					if err != nil {
						t = num(0)
					}
					d1 = append(d1, t)
				}
			} else if idx != nil {
				d1 = []*Term{sub(f.term(pre, ln), bs.cells[f.cells[idx]].T)}
			} else {
				s := f.val(pre, it.Iter).T
				d1 = []*Term{sub(x.slen(s), bs.cells[f.iters[it.Iter]].T)}
			}
			x.oblige(bs, "decreases", lname, "the loop's measure decreases and stays non-negative", l.pos, lexLess(d1, dec), nil)
		}
		x.scopes = append(x.scopes, [2]int{from, len(x.lines)})
	}
	// exits of the loop must not see regs of stale iterations; they were computed in this pass
	return outs
}

func lexLess(a, b []*Term) *Term {
	// a < b lexicographically, b's components non-negative
	r := tFalse
	for i := len(a) - 1; i >= 0; i-- {
		r = or(and(lt(a[i], b[i]), ge(b[i], num(0))), and(eq(a[i], b[i]), r))
	}
	return r
}

func (x *Ctx) havocVal(st *State, t types.Type, name string, old Val) Val {
	if at, ok := t.Underlying().(*types.Array); ok && old.El != nil {
		el := make([]Val, len(old.El))
		for i := range el {
			el[i] = x.havocVal(st, at.Elem(), name, old.El[i])
		}
		return Val{El: el}
	}
	if old.C != nil {
		return Val{Bad: "function variable changed in a loop"}
	}
	if old.P != nil && old.P.Kind != pObj {
		return Val{Bad: "pointer variable " + name + " changed in a loop"}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok && !isStructT(p.Elem()) && specialSort(p.Elem()) == "" && old.T == nil {
		return Val{Bad: "pointer variable " + name + " changed in a loop"}
	}
	if it, ok := t.(*iterType); ok {
		v := x.fresh(name, it.sort)
		return tv(v)
	}
	v := x.fresh(name, x.sortOf(t))
	x.wf(st, v, t)
	return tv(v)
}

// iterType is the type of a map iterator pseudo variable.
type iterType struct {
	types.Type
	sort string
}

// havocComp replaces a heap component by an arbitrary one that agrees with
// the function's frame.
func (x *Ctx) havocComp(st *State, name string, pre *State) {
	n := x.freshComp(name)
	st.heap[name] = n
	if strings.HasPrefix(name, "G:") {
		if !x.modAll[name] {
			st.heap[name] = x.heapGet(pre, name)
		}
		return
	}
	if x.modAll[name] {
		return
	}
	x.frameFact(st, n, x.entryComp(name), x.next0, x.mods[name])
}

func (x *Ctx) frameFact(st *State, n, old, bound *Term, mods []*Term) {
	x.qn++
	r := mk(sym(fmt.Sprintf("r!f%d", x.qn)), "Int")
	cs := []*Term{lt(r, bound)}
	for _, m := range mods {
		cs = append(cs, not(eq(r, m)))
	}
	x.assume(st, forall([]qvar{{r.Op, "Int"}}, implies(and(cs...), eq(sel(n, r), sel(old, r))), []*Term{sel(n, r)}))
}

// ---- clauses ----

func (f *Frame) loopEnv(st *State, l *Loop, pre *State) *Env {
	e := &Env{x: f.x, pkg: f.pkg(), names: map[string]SVal{}, st: st, old: f.entry, next0: f.entry.next, pre: pre}
	if l != nil {
		e.head = l.iter
	}
	e.heads = f.heads
	if f.host != nil {
		e.pkg, e.old, e.next0 = f.host.pkg(), f.host.entry, f.host.entry.next
	}
	e.look = func(s *State, name string, old bool) (SVal, bool) {
		top := f
		if f.host != nil {
			top = f.host
		}
		if old {
			if v, ok := top.params[name]; ok {
				return v, true
			}
			return SVal{}, false
		}
		if strings.HasPrefix(name, "$") && l != nil {
			return f.ghostName(s, l, name)
		}
		if v, ok := f.local(s, l, name); ok || f.host == nil {
			return v, ok
		}
		for g := f.caller; g != nil; g = g.caller {
			at := f.hostL
			if g != f.host {
				at = nil
			}
			if v, ok := g.local(s, at, name); ok || g == f.host {
				return v, ok
			}
		}
		return SVal{}, false
	}
	return e
}

func (f *Frame) pkg() string {
	if f.con != nil && f.con.Pkg != "" {
		return f.con.Pkg
	}
	fn := f.fn
	if fn.Pkg != nil {
		return shortPkg(fn.Pkg.Pkg.Path())
	}
	return ""
}

func (f *Frame) ghostName(s *State, l *Loop, name string) (SVal, bool) {
	// $i: iterations completed; $iN: of loop N; $seen: visited keys of a map range
	// $r, $rN: the slice ranged over
	ll, full := l, name
	if len(name) > 2 && (name[:2] == "$i" || name[:2] == "$r") {
		ll = nil
		for _, c := range f.loops {
			if fmt.Sprint(c.n) == name[2:] {
				ll = c
			}
		}
		name = name[:2]
	}
	if ll == nil {
		if f.host != nil {
			return f.host.ghostName(s, &Loop{head: f.hostHead()}, full)
		}
		return SVal{}, false
	}
	if name == "$r" {
		if _, ln := f.rangeInfo(ll); ln != nil {
			if c, ok := ln.(*ssa.Call); ok && len(c.Call.Args) == 1 {
				if v, ok := s.regs[c.Call.Args[0]]; ok {
					return SVal{v, c.Call.Args[0].Type()}, true
				}
			}
		}
		return SVal{}, false
	}
	if idx, _ := f.rangeInfo(ll); idx != nil && name == "$i" {
		if v, ok := s.cells[f.cells[idx]]; ok && v.T != nil {
			d := int64(1)
			if ll != l && l != nil && ll.blocks[l.head] {
				d = 0 // inside the body of ll, the index was already advanced
			}
			return sv(add(v.T, num(d)), tInt), true
		}
	}
	if it := f.loopIter(ll); it != nil {
		if v, ok := s.cells[f.iters[it.Iter]]; ok && v.T != nil {
			return sv(v.T, tInt), true
		}
	}
	if c := counterOf(ll); c != nil && name == "$i" {
		return f.local(s, ll, c.name)
	}
	return SVal{}, false
}

// local resolves a source-level name to its current value.
func (f *Frame) local(s *State, l *Loop, name string) (SVal, bool) {
	if g, ok := f.alias[name]; ok {
		name = g
	}
	a := f.findAlloc(l, name)
	if a == nil {
		for i, fv := range f.fn.FreeVars {
			_ = i
			if fv.Name() == name {
				if v, ok := f.free[fv]; ok {
					r, err := f.x.loadVal(s, v, derefT(fv.Type()))
					if err == nil {
						return SVal{r, derefT(fv.Type())}, true
					}
				}
			}
		}
		for _, p := range f.fn.Params {
			if p.Name() == name {
				if v, ok := s.regs[p]; ok {
					return SVal{v, p.Type()}, true
				}
			}
		}
		return SVal{}, false
	}
	t := derefT(a.Type())
	if f.x.effects.heapObj(a) {
		v, ok := s.regs[a]
		if !ok {
			return SVal{}, false
		}
		return SVal{v, a.Type()}, true
	}
	c := f.cells[a]
	if c == nil {
		return SVal{}, false
	}
	v, ok := s.cells[c]
	if !ok {
		return SVal{}, false
	}
	return SVal{v, t}, true
}

func (f *Frame) findAlloc(l *Loop, name string) *ssa.Alloc {
	var cands []*ssa.Alloc
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment == name {
				cands = append(cands, a)
			}
		}
	}
	if len(cands) == 0 {
		return nil
	}
	if len(cands) == 1 || l == nil || l.stmt == nil {
		return cands[0]
	}
	pkg := ""
	if f.fn.Pkg != nil {
		pkg = shortPkg(f.fn.Pkg.Pkg.Path())
	}
	info := f.x.prog.infos[pkg]
	if info != nil {
		scope := info.Scopes[l.stmt]
		pos := l.stmt.End()
		switch s := l.stmt.(type) {
		case *ast.ForStmt:
			pos = s.Body.Lbrace
		case *ast.RangeStmt:
			pos = s.Body.Lbrace
		}
		if scope != nil {
			if _, o := scope.LookupParent(name, pos); o != nil {
				for _, a := range cands {
					if a.Pos() == o.Pos() {
						return a
					}
				}
			}
		}
	}
	// innermost declaration before the loop
	best := cands[0]
	for _, a := range cands {
		if a.Pos() < l.pos && a.Pos() > best.Pos() {
			best = a
		}
	}
	return best
}

func (f *Frame) clauseTerm(st *State, l *Loop, pre *State, c *Clause) (*Term, bool) {
	env := f.loopEnv(st, l, pre)
	t, err := env.evalBool(c.E)
	if err != nil {
		return nil, false
	}
	return t, true
}

func (f *Frame) obligeClause(st *State, l *Loop, pre *State, kind, lname string, c *Clause) {
	label := lname
	if c.Label != "" {
		label += "." + c.Label
	}
	env := f.loopEnv(st, l, pre)
	t, err := env.evalBool(c.E)
	if err != nil {
		f.x.oblige(st, "contract", label, c.Src+": "+err.Error(), l.pos, tFalse, c.Props)
		return
	}
	f.x.oblige(st, kind, label, c.Src, l.pos, t, c.Props)
}

// cover records a reachability check: the assumptions so far must not be contradictory.
func (x *Ctx) cover(st *State, kind, label string, pos token.Pos) {
	if x.pure > 0 || x.inQuant > 0 || isFalse(st.pc) {
		return
	}
	x.oblN[kind+":"+label]++
	o := &Obl{Name: fmt.Sprintf("%s/%s:%s#%d", x.name, kind, label, x.oblN[kind+":"+label]), Func: x.name, Kind: "cover", Src: "reachable: assumptions are not contradictory",
		upto: len(x.lines), goal: tFalse, guard: st.pc, ctx: x}
	if pos.IsValid() {
		o.Pos = strings.TrimPrefix(x.prog.fset.Position(pos).String(), x.prog.repo+"/")
	}
	x.obls = append(x.obls, o)
}

// ---- values ----

func (f *Frame) val(st *State, v ssa.Value) Val {
	x := f.x
	switch v := v.(type) {
	case *ssa.Const:
		t := v.Type()
		if v.Value == nil {
			return tv(x.zero(t))
		}
		val := v.Value
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 && val.Kind() == constant.Int {
			val = constant.ToFloat(val)
		}
		return tv(x.constTerm(val, t))
	case *ssa.Global:
		return Val{P: &Ptr{Kind: pGlob, Glob: globName(v), Typ: derefT(v.Type())}}
	case *ssa.Function:
		return Val{C: &Closure{fn: v}}
	case *ssa.FreeVar:
		if r, ok := f.free[v]; ok {
			return r
		}
	case *ssa.Builtin:
		return Val{Bad: "builtin"}
	}
	if r, ok := st.regs[v]; ok {
		return r
	}
	x.fail("%s: register %s has no value", f.fn.Name(), v.Name())
	return Val{}
}

func (f *Frame) term(st *State, v ssa.Value) *Term {
	r := f.val(st, v)
	t, err := f.x.termOf(st, r, v.Type())
	if err != nil {
		f.x.fail("%s: %s at %s", f.fn.Name(), err, f.x.prog.fset.Position(v.Pos()))
	}
	return t
}

func (f *Frame) setT(st *State, v ssa.Value, t *Term) {
	st.regs[v] = tv(f.x.def(v.Name(), t))
}

func (f *Frame) chk(err error, pos token.Pos) {
	if err != nil {
		f.x.fail("%s: %v at %s", f.fn.Name(), err, f.x.prog.fset.Position(pos))
	}
}

func (f *Frame) nonNil(st *State, v Val, pos token.Pos) {
	if v.T != nil {
		if v.T.Op == "next" {
			return
		}
		f.x.oblige(st, "nil", "", "pointer is not nil", pos, lt(num(0), v.T), nil)
	}
}

func wrapInt(t *Term, typ types.Type) *Term {
	lo, hi, ok := intRange(typ)
	if !ok {
		return t
	}
	if n, isn := isNum(t); isn {
		w := hi - lo + 1
		n = ((n-lo)%w+w)%w + lo
		return num(n)
	}
	w := new(big.Int).Add(big.NewInt(hi), big.NewInt(1))
	w.Sub(w, big.NewInt(lo))
	wr := add(mk("mod", "Int", sub(t, num(lo)), bignum(w)), num(lo))
	return ite(and(le(num(lo), t), le(t, num(hi))), t, wr)
}

// ---- instructions ----

func (f *Frame) instr(st *State, in ssa.Instruction) {
	x := f.x
	pos := in.Pos()
	if !pos.IsValid() {
		pos = f.cur
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := derefT(in.Type())
		if x.effects.heapObj(in) {
			ref := x.alloc(st, t)
			x.initObj(st, ref, t)
			st.regs[in] = tv(ref)
			return
		}
		c := f.cells[in]
		if c == nil {
			name := in.Comment
			if name == "" {
				name = in.Name()
			}
			c = &Cell{name: name, typ: t, alloc: in, id: x.cellID()}
			f.cells[in] = c
		}
		st.cells[c] = x.zeroVal(t)
		st.regs[in] = Val{P: &Ptr{Kind: pCell, Cell: c, Typ: t}}
	case *ssa.UnOp:
		f.unop(st, in, pos)
	case *ssa.BinOp:
		f.setVal(st, in, tv(f.binop(st, in.Op, f.val(st, in.X), f.val(st, in.Y), in.X.Type(), in.Y.Type(), in.Type(), pos)))
	case *ssa.FieldAddr:
		v := f.val(st, in.X)
		t := derefT(in.X.Type())
		if v.P == nil {
			f.nonNil(st, v, pos)
		}
		p, err := x.ptrOf(v, t)
		f.chk(err, pos)
		q := *p
		q.Path = append(append([]int{}, p.Path...), in.Field)
		st.regs[in] = Val{P: &q}
	case *ssa.Field:
		v := f.val(st, in.X)
		r, _, err := x.readPath(v, in.X.Type(), []int{in.Field})
		f.chk(err, pos)
		st.regs[in] = r
	case *ssa.IndexAddr:
		f.indexAddr(st, in, pos)
	case *ssa.Index:
		if isString(in.X.Type()) {
			s, i := f.term(st, in.X), f.term(st, in.Index)
			x.oblige(st, "bounds", "", "string index in range", pos, and(le(num(0), i), lt(i, x.slen(s))), nil)
			f.setT(st, in, x.sat(s, i))
			x.wf(st, st.regs[in].T, in.Type())
			return
		}
		at := in.X.Type().Underlying().(*types.Array)
		v := f.val(st, in.X)
		i := f.term(st, in.Index)
		x.oblige(st, "bounds", "", "array index in range", pos, and(le(num(0), i), lt(i, num(at.Len()))), nil)
		if n, ok := isNum(i); ok && n < at.Len() {
			r, _, err := x.readPath(v, in.X.Type(), []int{int(n)})
			f.chk(err, pos)
			st.regs[in] = r
			return
		}
		t, err := x.termOf(st, v, in.X.Type())
		f.chk(err, pos)
		r := x.arrSel(in.X.Type(), t, int(at.Len())-1)
		for k := int(at.Len()) - 2; k >= 0; k-- {
			r = ite(eq(i, num(int64(k))), x.arrSel(in.X.Type(), t, k), r)
		}
		f.setT(st, in, r)
	case *ssa.Lookup:
		f.lookup(st, in, pos)
	case *ssa.Store:
		v := f.val(st, in.Val)
		av := f.val(st, in.Addr)
		t := derefT(in.Addr.Type())
		if av.P == nil {
			f.nonNil(st, av, pos)
		}
		p, err := x.ptrOf(av, t)
		f.chk(err, pos)
		if v.T == nil && v.P == nil && v.C == nil && v.El == nil && v.AS == nil {
			// storing an unusable value: poison
			if p.Kind == pCell && len(p.Path) == 0 {
				st.cells[p.Cell] = v
				return
			}
		}
		if p.Kind == pCell && v.T != nil {
			v.T = x.def(p.Cell.name, v.T)
		}
		if p.Kind == pCell && v.AS != nil {
			// a slice literal kept in a variable: allocate it
			tt, err := x.materialize(st, v, t)
			f.chk(err, pos)
			v = tv(tt)
		}
		f.chk(x.storeTo(st, p, v, pos), pos)
	case *ssa.MapUpdate:
		m := f.term(st, in.Map)
		k := f.term(st, in.Key)
		v := f.term(st, in.Value)
		dc, vc := x.mapC(in.Map.Type())
		x.oblige(st, "nilmap", "", "map is not nil", pos, lt(num(0), m), nil)
		x.checkWrite(st, dc, m, pos)
		d, vv := x.heapGet(st, dc), x.heapGet(st, vc)
		st.heap[dc] = x.def("D", store(d, m, store(sel(d, m), k, tTrue)))
		st.heap[vc] = x.def("V", store(vv, m, store(sel(vv, m), k, v)))
	case *ssa.MakeMap:
		ref := x.alloc(st, in.Type())
		dc, _ := x.mapC(in.Type())
		d := x.heapGet(st, dc)
		_, ds := arrayParts(d.Sort)
		st.heap[dc] = x.def("D", store(d, ref, mk("((as const "+ds+") false)", ds)))
		st.regs[in] = tv(ref)
	case *ssa.MakeSlice:
		ln, cp := f.term(st, in.Len), f.term(st, in.Cap)
		x.oblige(st, "bounds", "", "make: length and capacity are valid", pos, and(le(num(0), ln), le(ln, cp)), nil)
		ref := x.alloc(st, in.Type())
		el := in.Type().Underlying().(*types.Slice).Elem()
		comp := x.elemC(el)
		m := x.heapGet(st, comp)
		_, as := arrayParts(m.Sort)
		st.heap[comp] = x.def("M", store(m, ref, mk("((as const "+as+") "+x.zero(el).String()+")", as)))
		st.regs[in] = tv(mkSlice(ref, num(0), ln, cp))
	case *ssa.Slice:
		f.slice(st, in, pos)
	case *ssa.Extract:
		v := f.val(st, in.Tuple)
		if v.El == nil {
			x.fail("extract from %s", v.Bad)
		}
		st.regs[in] = v.El[in.Index]
	case *ssa.ChangeType:
		st.regs[in] = f.val(st, in.X)
	case *ssa.ChangeInterface:
		st.regs[in] = f.val(st, in.X)
	case *ssa.MakeInterface:
		v := f.val(st, in.X)
		t := x.fresh("iface", "Int")
		x.assume(st, lt(num(0), t))
		if v.T != nil {
			switch v.T.Sort {
			case "Int":
				x.assume(st, eq(mk("ival", "Int", t), v.T))
			case "(_ BitVec 64)":
				x.assume(st, eq(mk("bval", "(_ BitVec 64)", t), v.T))
			}
		}
		st.regs[in] = Val{T: t, P: v.P, El: []Val{v}}
	case *ssa.TypeAssert:
		if in.CommaOk {
			ok := x.fresh("ok", "Bool")
			var v Val
			if p, isp := in.AssertedType.Underlying().(*types.Pointer); isp && !isStructT(p.Elem()) {
				v = Val{Bad: "type assertion"}
			} else {
				t := x.fresh("ta", x.sortOf(in.AssertedType))
				x.wf(st, t, in.AssertedType)
				v = tv(t)
			}
			st.regs[in] = Val{El: []Val{v, tv(ok)}}
			return
		}
		x.oblige(st, "typeassert", "", "type assertion succeeds", pos, tFalse, nil)
		t := x.fresh("ta", x.sortOf(in.AssertedType))
		x.wf(st, t, in.AssertedType)
		st.regs[in] = tv(t)
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.bind = append(c.bind, f.val(st, b))
		}
		st.regs[in] = Val{C: c}
	case *ssa.Convert:
		f.convert(st, in, pos)
	case *ssa.Range:
		v := f.val(st, in.X)
		c := f.iters[in]
		if isString(in.X.Type()) {
			if c == nil {
				c = &Cell{name: "pos", typ: tInt, id: x.cellID()}
				f.iters[in] = c
			}
			st.cells[c] = tv(num(0))
			s := f.term(st, in.X)
			st.regs[in] = tv(s)
			return
		}
		m := in.X.Type().Underlying().(*types.Map)
		as := arraySort(x.sortOf(m.Key()), "Bool")
		if c == nil {
			c = &Cell{name: "seen", typ: &iterType{tInt, as}, id: x.cellID()}
			f.iters[in] = c
		}
		st.cells[c] = tv(mk("((as const "+as+") false)", as))
		st.regs[in] = v
	case *ssa.Next:
		f.next(st, in)
	case *ssa.Call:
		f.call(st, in, pos)
	case *ssa.RunDefers:
	case *ssa.Defer:
		x.fail("defer is not supported in %s", f.fn.Name())
	default:
		x.fail("%s: unsupported instruction %T", f.fn.Name(), in)
	}
}

func (f *Frame) setVal(st *State, v ssa.Value, r Val) {
	if r.T != nil {
		r.T = f.x.def(v.Name(), r.T)
	}
	st.regs[v] = r
}

func (x *Ctx) zeroVal(t types.Type) Val {
	if a, ok := t.Underlying().(*types.Array); ok {
		if a.Len() > 4096 {
			x.fail("array too large")
		}
		el := make([]Val, a.Len())
		for i := range el {
			el[i] = x.zeroVal(a.Elem())
		}
		return Val{El: el}
	}
	return tv(x.zero(t))
}

func (x *Ctx) initObj(st *State, ref *Term, t types.Type) {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		c := x.fieldC(t, i)
		st.heap[c] = x.def("F", store(x.heapGet(st, c), ref, x.zero(u.Field(i).Type())))
	}
	x.assume(st, eq(mk("rtype", "Int", ref), x.typeTag(t)))
	if x.ghost != nil {
		x.ghost(st, ref, t)
	}
}

func (f *Frame) unop(st *State, in *ssa.UnOp, pos token.Pos) {
	x := f.x
	switch in.Op {
	case token.MUL:
		v := f.val(st, in.X)
		t := derefT(in.X.Type())
		if v.P == nil {
			f.nonNil(st, v, pos)
		}
		p, err := x.ptrOf(v, t)
		f.chk(err, pos)
		r, _, err := x.load(st, p)
		f.chk(err, pos)
		if r.T != nil {
			r.T = x.def(in.Name(), r.T)
			x.wf(st, r.T, t)
		}
		st.regs[in] = r
	case token.NOT:
		f.setT(st, in, not(f.term(st, in.X)))
	case token.SUB:
		t := f.term(st, in.X)
		if isBV(in.Type()) {
			f.setT(st, in, mk("bvneg", t.Sort, t))
			return
		}
		if t.Sort == "Real" {
			f.setT(st, in, mk("-", "Real", t))
			return
		}
		f.setT(st, in, wrapInt(sub(num(0), t), in.Type()))
	case token.XOR:
		t := f.term(st, in.X)
		if isBV(in.Type()) {
			f.setT(st, in, mk("bvnot", t.Sort, t))
			return
		}
		f.setT(st, in, wrapInt(sub(num(-1), t), in.Type()))
	default:
		x.fail("%s: unsupported operator %s", f.fn.Name(), in.Op)
	}
}

func pow2(n int64) *Term { return bignum(new(big.Int).Lsh(big.NewInt(1), uint(n))) }

func (f *Frame) binop(st *State, op token.Token, a, b Val, at, bt, rt types.Type, pos token.Pos) *Term {
	x := f.x
	// comparisons with nil / of special values
	if op == token.EQL || op == token.NEQ {
		if a.C != nil || b.C != nil {
			r := tFalse // a known function is never nil
			if op == token.NEQ {
				r = tTrue
			}
			return r
		}
		if (a.P != nil && a.P.Kind != pObj && b.T != nil) || (b.P != nil && b.P.Kind != pObj && a.T != nil) {
			if a.T == nil || b.T == nil {
				if op == token.NEQ {
					return tTrue
				}
				return tFalse
			}
		}
	}
	ta, err := x.termOf(st, a, at)
	f.chk(err, pos)
	tb, err := x.termOf(st, b, bt)
	f.chk(err, pos)
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if ta.Sort == "Slice" {
			// only comparison with nil
			if same(tb, nilSlice) {
				r = eq(slRef(ta), num(0))
			} else {
				r = eq(slRef(tb), num(0))
			}
		} else {
			r = x.equal(ta, tb)
		}
		if op == token.NEQ {
			r = not(r)
		}
		return r
	}
	bv := strings.HasPrefix(ta.Sort, "(_ BitVec")
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if bv {
			return mk(map[token.Token]string{token.LSS: "bvult", token.LEQ: "bvule", token.GTR: "bvugt", token.GEQ: "bvuge"}[op], "Bool", ta, tb)
		}
		if ta.Sort == "Str" {
			l := func(p, q *Term) *Term { return mk("sless", "Bool", p, q) }
			switch op {
			case token.LSS:
				return l(ta, tb)
			case token.GTR:
				return l(tb, ta)
			case token.LEQ:
				return not(l(tb, ta))
			}
			return not(l(ta, tb))
		}
		switch op {
		case token.LSS:
			return lt(ta, tb)
		case token.LEQ:
			return le(ta, tb)
		case token.GTR:
			return lt(tb, ta)
		}
		return le(tb, ta)
	}
	if bv {
		if tb.Sort == "Int" { // shift count
			if n, ok := isNum(tb); ok {
				tb = bvConst(uint64(n))
			} else {
				tb = mk("(_ int2bv 64)", ta.Sort, tb)
			}
		}
		ops := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.QUO: "bvudiv", token.REM: "bvurem",
			token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor", token.SHL: "bvshl", token.SHR: "bvlshr"}
		if op == token.AND_NOT {
			return mk("bvand", ta.Sort, ta, mk("bvnot", ta.Sort, tb))
		}
		if op == token.QUO || op == token.REM {
			x.oblige(st, "div", "", "divisor is not zero", pos, not(eq(tb, bvConst(0))), nil)
		}
		if s, ok := ops[op]; ok {
			return mk(s, ta.Sort, ta, tb)
		}
	}
	if ta.Sort == "Str" && op == token.ADD {
		return x.scat(ta, tb)
	}
	if ta.Sort == "Real" {
		switch op {
		case token.ADD:
			return add(ta, tb)
		case token.SUB:
			return sub(ta, tb)
		case token.MUL:
			return mul(ta, tb)
		case token.QUO:
			return mk("/", "Real", ta, tb)
		}
	}
	w := func(t *Term) *Term { return f.wrap(st, t, rt) }
	switch op {
	case token.ADD:
		return w(add(ta, tb))
	case token.SUB:
		return w(sub(ta, tb))
	case token.MUL:
		return w(mul(ta, tb))
	case token.QUO, token.REM:
		x.oblige(st, "div", "", "divisor is not zero", pos, not(eq(tb, num(0))), nil)
		if n, ok := isNum(tb); ok && n > 0 {
			q := ite(ge(ta, num(0)), mk("div", "Int", ta, tb), sub(num(0), mk("div", "Int", sub(num(0), ta), tb)))
			if op == token.QUO {
				return q
			}
			return ite(ge(ta, num(0)), mk("mod", "Int", ta, tb), sub(num(0), mk("mod", "Int", sub(num(0), ta), tb)))
		}
		q := mk("tdiv", "Int", ta, tb)
		if op == token.REM {
			q = mk("trem", "Int", ta, tb)
		}
		x.useStr["tdiv"] = true
		return q
	case token.SHL:
		if n, ok := bvOrNum(tb); ok && n < 63 {
			return w(mul(ta, pow2(n)))
		}
	case token.SHR:
		if n, ok := bvOrNum(tb); ok && n < 63 {
			return mk("div", "Int", ta, pow2(n))
		}
	case token.AND:
		if n, ok := isNum(ta); ok {
			if _, ok := isNum(tb); !ok {
				ta, tb = tb, ta
				_ = n
			}
		}
		if n, ok := isNum(tb); ok && n >= 0 && (n+1)&n == 0 {
			return mk("mod", "Int", ta, num(n+1))
		}
	}
	u := map[token.Token]string{token.AND: "bitand", token.OR: "bitor", token.XOR: "bitxor", token.SHL: "bitshl", token.SHR: "bitshr", token.AND_NOT: "bitclr"}[op]
	if u == "" {
		x.fail("unsupported operator %s", op)
	}
	x.useStr["bits"] = true
	r := mk(u, "Int", ta, tb)
	x.wf(st, r, rt)
	return r
}

func bvOrNum(t *Term) (int64, bool) {
	if n, ok := isNum(t); ok {
		return n, true
	}
	if strings.HasPrefix(t.Op, "#x") {
		var n uint64
		fmt.Sscanf(t.Op, "#x%x", &n)
		return int64(n), true
	}
	return 0, false
}

// wrap applies machine-integer wrap-around for sized types.
func (f *Frame) wrap(st *State, t *Term, typ types.Type) *Term {
	lo, hi, ok := intRange(typ)
	if !ok {
		return t
	}
	if f.x.con != nil && f.x.con.Options["nowrap"] != "" {
		t = f.x.def("w", t)
		f.x.assume(st, and(le(num(lo), t), le(t, num(hi))))
		f.x.trusted[f.x.name+": "+typ.String()+" arithmetic does not overflow ("+f.x.con.Options["nowrap"]+")"] = true
		return t
	}
	return wrapInt(t, typ)
}

func (f *Frame) indexAddr(st *State, in *ssa.IndexAddr, pos token.Pos) {
	x := f.x
	i := f.term(st, in.Index)
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		v := f.val(st, in.X)
		if v.AS != nil {
			if n, ok := isNum(i); ok {
				q := *v.AS
				q.Path = append(append([]int{}, q.Path...), int(n))
				st.regs[in] = Val{P: &q}
				return
			}
		}
		s := f.term(st, in.X)
		x.oblige(st, "bounds", "", "slice index in range", pos, and(le(num(0), i), lt(i, x.knownOr(slLen(s)))), nil)
		st.regs[in] = Val{P: &Ptr{Kind: pElem, Ref: slRef(s), Off: slOff(s), Idx: i, Typ: u.Elem()}}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		v := f.val(st, in.X)
		if v.P == nil {
			x.fail("index of array pointer value")
		}
		x.oblige(st, "bounds", "", "array index in range", pos, and(le(num(0), i), lt(i, num(at.Len()))), nil)
		n, ok := isNum(i)
		q := *v.P
		if !ok || n < 0 || n >= at.Len() {
			if at.Len() == 0 || at.Len() > 64 || v.P.Sel != nil || !onlyLoaded(in) {
				x.fail("%s: array element at a computed index", f.fn.Name())
			}
			q.Sel = i
			st.regs[in] = Val{P: &q}
			return
		}
		q.Path = append(append([]int{}, q.Path...), int(n))
		st.regs[in] = Val{P: &q}
	}
}

func (f *Frame) lookup(st *State, in *ssa.Lookup, pos token.Pos) {
	x := f.x
	if isString(in.X.Type()) {
		s, i := f.term(st, in.X), f.term(st, in.Index)
		x.oblige(st, "bounds", "", "string index in range", pos, and(le(num(0), i), lt(i, x.slen(s))), nil)
		f.setT(st, in, x.sat(s, i))
		x.wf(st, st.regs[in].T, in.Type())
		return
	}
	m, k := f.term(st, in.X), f.term(st, in.Index)
	mt := in.X.Type().Underlying().(*types.Map)
	dc, vc := x.mapC(in.X.Type())
	x.mapKey(st, in.X.Type(), m, k)
	has := x.def("has", sel(sel(x.heapGet(st, dc), m), k))
	raw := x.def("mv", sel(sel(x.heapGet(st, vc), m), k))
	x.wf(st, raw, mt.Elem())
	v := x.def("mget", ite(has, raw, x.zero(mt.Elem())))
	if in.CommaOk {
		st.regs[in] = Val{El: []Val{tv(v), tv(has)}}
		return
	}
	st.regs[in] = tv(v)
}

// mapKey notes the lookup of k: the nil map is empty.
func (x *Ctx) mapKey(st *State, t types.Type, m, k *Term) {
	dc, _ := x.mapC(t)
	_ = dc
}

func (f *Frame) slice(st *State, in *ssa.Slice, pos token.Pos) {
	x := f.x
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return f.term(st, v)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := f.term(st, in.X)
		lo := opt(in.Low, num(0))
		hi := opt(in.High, x.slen(s))
		x.oblige(st, "bounds", "", "string slice bounds in range", pos, and(le(num(0), lo), le(lo, hi), le(hi, x.slen(s))), nil)
		r := x.ssub(s, lo, hi)
		if r.Op == "ssub" && !same(r, s) {
			r = x.def(in.Name(), r)
			x.assume(st, eq(x.slen(r), sub(hi, lo)))
		}
		st.regs[in] = tv(r)
	case *types.Slice:
		s := f.term(st, in.X)
		lo := opt(in.Low, num(0))
		hi := opt(in.High, slLen(s))
		mx := opt(in.Max, slCap(s))
		x.oblige(st, "bounds", "", "slice bounds in range", pos, and(le(num(0), lo), le(lo, hi), le(hi, mx), le(mx, slCap(s))), nil)
		if in.High != nil {
			x.assumeSmall(st, hi)
		}
		st.regs[in] = tv(x.def(in.Name(), mkSlice(slRef(s), offp(slOff(s), lo), sub(hi, lo), sub(mx, lo))))
		if r := st.regs[in].T; r.Op != "mkslice" {
			// keep structure for simplification
			st.regs[in] = tv(mkSlice(x.def("sr", slRef(s)), x.def("so", offp(slOff(s), lo)), x.def("sl", sub(hi, lo)), x.def("sc", sub(mx, lo))))
		}
	case *types.Pointer:
		v := f.val(st, in.X)
		if v.P == nil || v.P.Kind != pCell {
			x.fail("%s: slice of an array that is not a local variable", f.fn.Name())
		}
		at := u.Elem().Underlying().(*types.Array)
		if in.Low == nil && in.High == nil {
			st.regs[in] = Val{AS: v.P}
			return
		}
		lo := opt(in.Low, num(0))
		hi := opt(in.High, num(at.Len()))
		x.oblige(st, "bounds", "", "slice bounds in range", pos, and(le(num(0), lo), le(lo, hi), le(hi, num(at.Len()))), nil)
		t, err := x.materialize(st, Val{AS: v.P}, types.NewSlice(at.Elem()))
		f.chk(err, pos)
		x.trusted[x.name+": a partial slice of a local array is treated as a copy"] = true
		st.regs[in] = tv(mkSlice(slRef(t), lo, sub(hi, lo), sub(num(at.Len()), lo)))
	}
}

func (f *Frame) convert(st *State, in *ssa.Convert, pos token.Pos) {
	x := f.x
	from, to := in.X.Type(), in.Type()
	fu, tu := from.Underlying(), to.Underlying()
	if isString(to) {
		if s, ok := fu.(*types.Slice); ok {
			v := f.term(st, in.X)
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				m := x.heapGet(st, x.elemC(s.Elem()))
				f.setT(st, in, x.bstr(x.def("ba", sel(m, slRef(v))), slOff(v), slLen(v)))
				return
			}
		}
		if isString(from) {
			st.regs[in] = f.val(st, in.X)
			return
		}
		if isInt(from) {
			x.useStr["runestr"] = true
			f.setT(st, in, mk("runestr", "Str", f.term(st, in.X)))
			return
		}
	}
	if s, ok := tu.(*types.Slice); ok && isString(from) {
		v := f.term(st, in.X)
		ref := x.alloc(st, to)
		comp := x.elemC(s.Elem())
		m := x.heapGet(st, comp)
		_, as := arrayParts(m.Sort)
		arr := x.fresh("bytes", as)
		if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			x.qn++
			i := mk(sym(fmt.Sprintf("i!b%d", x.qn)), "Int")
			x.assume(st, forall([]qvar{{i.Op, "Int"}}, implies(and(le(num(0), i), lt(i, x.slen(v))), eq(sel(arr, i), x.sat(v, i))), []*Term{sel(arr, i)}))
			st.heap[comp] = x.def("M", store(m, ref, arr))
			st.regs[in] = tv(mkSlice(ref, num(0), x.slen(v), x.slen(v)))
			return
		}
		ln := x.fresh("nr", "Int")
		x.assume(st, and(le(num(0), ln), le(ln, x.slen(v))))
		st.heap[comp] = x.def("M", store(m, ref, arr))
		st.regs[in] = tv(mkSlice(ref, num(0), ln, ln))
		return
	}
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		v := f.term(st, in.X)
		switch {
		case isBV(from) && isBV(to):
			st.regs[in] = tv(v)
			return
		case isInt(from) && isInt(to):
			lo, hi, ok := intRange(to)
			flo, fhi, fok := intRange(from)
			if !ok || fok && lo <= flo && fhi <= hi {
				st.regs[in] = tv(v)
				return
			}
			f.setT(st, in, f.wrap(st, v, to))
			return
		case isInt(from) && isBV(to):
			if n, ok := isNum(v); ok {
				st.regs[in] = tv(bvConst(uint64(n)))
				return
			}
			f.setT(st, in, mk("(_ int2bv 64)", "(_ BitVec 64)", v))
			return
		case isBV(from) && isInt(to):
			f.setT(st, in, wrapInt(mk("bv2nat", "Int", v), to))
			return
		case isInt(from) && tb.Info()&types.IsFloat != 0:
			f.setT(st, in, toReal(v))
			return
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			st.regs[in] = tv(v)
			return
		case fb.Info()&types.IsFloat != 0 && isInt(to):
			r := x.fresh("trunc", "Int")
			rr := toReal(r)
			x.assume(st, ite(mk(">=", "Bool", v, mk("0.0", "Real")),
				and(mk("<=", "Bool", rr, v), mk("<", "Bool", v, mk("+", "Real", rr, mk("1.0", "Real")))),
				and(mk(">=", "Bool", rr, v), mk(">", "Bool", v, mk("-", "Real", rr, mk("1.0", "Real"))))))
			st.regs[in] = tv(r)
			return
		}
	}
	if x.sortOf(from) == x.sortOf(to) {
		st.regs[in] = f.val(st, in.X)
		return
	}
	x.fail("%s: unsupported conversion %s to %s", f.fn.Name(), from, to)
}

func (f *Frame) next(st *State, in *ssa.Next) {
	x := f.x
	c := f.iters[in.Iter]
	if in.IsString {
		s := f.val(st, in.Iter).T
		pos := st.cells[c].T
		ok := x.def("ok", lt(pos, x.slen(s)))
		r := mk("decr", "Int", s, pos)
		w := mk("decw", "Int", s, pos)
		x.useStr["dec"] = true
		x.assume(st, and(le(num(0), pos), le(pos, x.slen(s))))
		st.cells[c] = tv(x.def("pos", ite(ok, add(pos, w), pos)))
		rr := x.def("rune", r)
		st.regs[in] = Val{El: []Val{tv(ok), tv(pos), tv(rr)}}
		x.assume(st, implies(ok, and(le(num(0), rr), le(rr, num(0x10FFFF)))))
		return
	}
	rng := in.Iter.(*ssa.Range)
	mt := rng.X.Type()
	m := f.val(st, in.Iter).T
	u := mt.Underlying().(*types.Map)
	dc, vc := x.mapC(mt)
	seen := st.cells[c].T
	ok := x.fresh("ok", "Bool")
	k := x.fresh("key", x.sortOf(u.Key()))
	v := x.def("val", sel(sel(x.heapGet(st, vc), m), k))
	x.assume(st, implies(ok, and(sel(sel(x.heapGet(st, dc), m), k), not(sel(seen, k)))))
	x.wf(st, k, u.Key())
	x.wf(st, v, u.Elem())
	x.qn++
	q := mk(sym(fmt.Sprintf("k!m%d", x.qn)), k.Sort)
	d := sel(x.heapGet(st, dc), m)
	x.assume(st, implies(not(ok), forall([]qvar{{q.Op, q.Sort}}, implies(sel(d, q), sel(seen, q)), []*Term{sel(d, q)}, []*Term{sel(seen, q)})))
	st.cells[c] = tv(x.def("seen", ite(ok, store(seen, k, tTrue), seen)))
	st.regs[in] = Val{El: []Val{tv(ok), tv(k), tv(v)}}
}

func (x *Ctx) cellID() int { x.cellSeq++; return x.cellSeq }

// sortedCells and sortedRegs fix the order of merging, so that the same source always gives the same queries.
func sortedCells(m map[*Cell]Val) []*Cell {
	var cs []*Cell
	for c := range m {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	return cs
}

func sortedRegs(m map[ssa.Value]Val) []ssa.Value {
	key := func(v ssa.Value) string {
		if p := v.Parent(); p != nil {
			return p.String() + " " + v.Name()
		}
		return v.Name()
	}
	var rs []ssa.Value
	for r := range m {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return key(rs[i]) < key(rs[j]) })
	return rs
}

// arrSort reports whether sort is that of an array with elements like el; arrEls takes such a value apart.
func arrSort(el []Val, sort string) bool {
	for _, e := range el {
		if e.T == nil {
			return false
		}
	}
	return len(el) > 0 && sort == sym(fmt.Sprintf("A%d:%s", len(el), strings.Trim(el[0].T.Sort, "|")))
}

func arrEls(el []Val, t *Term) []Val {
	n := strings.Trim(t.Sort, "|")
	r := make([]Val, len(el))
	for i := range el {
		if t.Op == sym("mk"+n) {
			r[i] = tv(t.Args[i])
		} else {
			r[i] = tv(mk(sym(fmt.Sprintf("%s.%d", n, i)), el[i].T.Sort, t))
		}
	}
	return r
}

// onlyLoaded reports whether the only use of address v is to load from it.
func onlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		return false
	}
	return true
}
