package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts name local variables and number loops. The code below lets them go on speaking
// of the same things after the code was rearranged: a loop moved into a helper function, a range loop
// written with a counter, a local variable renamed. It only decides what an annotation speaks of;
// every obligation is still proved about the code as it stands.

// ---- loops moved into helpers ----

// inlinable tells a function that is new since the contracts were written, and has none.
func (x *Ctx) inlinable(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 || !x.prog.inRepo(fn) {
		return false
	}
	k := funcKey(fn)
	return x.specs.funcs[k] == nil && !x.specs.known[k]
}

// loopsIn counts the loops of fn and of what is inlined into it.
func (x *Ctx) loopsIn(fn *ssa.Function, depth int) int {
	if depth > 12 {
		return 0
	}
	n := 0
	for _, h := range fn.Blocks {
		for _, p := range h.Preds {
			if h.Dominates(p) {
				n++
				break
			}
		}
	}
	for _, c := range staticCalls(fn) {
		if g := c.Call.StaticCallee(); x.inlinable(g) && g != fn {
			n += x.loopsIn(g, depth+1)
		}
	}
	return n
}

func staticCalls(fn *ssa.Function) []*ssa.Call {
	var cs []*ssa.Call
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
				cs = append(cs, c)
			}
		}
	}
	return cs
}

// countInlined numbers the loops of inlined functions among those of f, when f had more
// loops as its contract was written and the numbers then agree.
func (f *Frame) countInlined() {
	if f.con == nil {
		return
	}
	was := len(f.x.specs.loops[funcKey(f.fn)])
	if was > len(f.loops) && f.x.loopsIn(f.fn, 0) == was {
		f.number(0)
	}
}

func (f *Frame) number(base int) {
	type slot struct {
		pos token.Pos
		l   *Loop
		n   int
	}
	var ss []slot
	for _, l := range f.loops {
		ss = append(ss, slot{l.pos, l, 1})
	}
	for _, c := range staticCalls(f.fn) {
		if g := c.Call.StaticCallee(); f.x.inlinable(g) && g != f.fn {
			if n := f.x.loopsIn(g, 0); n > 0 {
				ss = append(ss, slot{c.Pos(), nil, n})
			}
		}
	}
	sort.Slice(ss, func(i, j int) bool {
		if ss[i].pos != ss[j].pos {
			return ss[i].pos < ss[j].pos
		}
		return ss[i].l != nil && (ss[j].l == nil || ss[i].l.n < ss[j].l.n)
	})
	f.slots = map[token.Pos]int{}
	for _, s := range ss {
		if s.l != nil {
			s.l.n = base + 1
		} else {
			f.slots[s.pos] = base
		}
		base += s.n
	}
}

// hostLoops makes the contract f works under speak of the loops of nf, inlined at pos.
func (f *Frame) hostLoops(nf *Frame, base int, pos token.Pos) {
	nf.host, nf.hostL = f, nil
	if f.host != nil {
		nf.host, nf.hostL = f.host, f.hostL
	} else {
		for _, l := range f.loops {
			if l.stmt != nil && l.stmt.Pos() <= pos && pos < l.stmt.End() && (nf.hostL == nil || nf.hostL.stmt.Pos() < l.stmt.Pos()) {
				nf.hostL = l
			}
		}
	}
	nf.heads, nf.iterAt = nf.host.heads, nf.host.iterAt
	nf.number(base)
}

// hostHead is a block inside the body of the loop of the host around the call.
func (f *Frame) hostHead() *ssa.BasicBlock {
	if f.hostL == nil {
		return nil
	}
	return f.hostL.head
}

// ---- loops in another order ----

// loopSigs tells, for each loop in order, which variables it sets.
func loopSigs(f *Frame) []string {
	r := make([]string, len(f.loops))
	for _, l := range f.loops {
		set := map[string]bool{}
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if a, ok := st.Addr.(*ssa.Alloc); ok && a.Comment != "" {
						set[a.Comment] = true
					}
				}
			}
		}
		r[l.n-1] = strings.Join(sortedKeys(set), " ")
	}
	return r
}

// reorder numbers loops as the contract does when statements with loops changed places.
func (f *Frame) reorder() {
	if f.con == nil {
		return
	}
	base := f.x.specs.loops[funcKey(f.fn)]
	cur := loopSigs(f)
	if len(base) != len(cur) || strings.Join(base, ";") == strings.Join(cur, ";") {
		return
	}
	used := make([]bool, len(base))
	to := make([]int, len(cur))
	for i, s := range cur {
		to[i] = -1
		for j, b := range base {
			if !used[j] && b == s {
				used[j], to[i] = true, j
				break
			}
		}
		if to[i] < 0 {
			return
		}
	}
	for _, l := range f.loops {
		l.n = to[l.n-1] + 1
	}
}

// ---- loops with a counter ----

type counter struct {
	name  string
	limit ast.Expr // the loop runs while name < limit
	less  bool
	init  ast.Expr
	fixed bool // only the loop's post statement changes it
}

// counterOf recognizes "for i := a; i < b; i++" and loops that count up in their body.
func counterOf(l *Loop) *counter {
	fs, ok := l.stmt.(*ast.ForStmt)
	if !ok || fs.Cond == nil {
		return nil
	}
	cond := fs.Cond
	for {
		if p, ok := cond.(*ast.ParenExpr); ok {
			cond = p.X
			continue
		}
		if b, ok := cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
			cond = b.X
			continue
		}
		break
	}
	b, ok := cond.(*ast.BinaryExpr)
	if !ok {
		return nil
	}
	c := &counter{}
	switch b.Op {
	case token.LSS:
		id, ok := b.X.(*ast.Ident)
		if !ok {
			return nil
		}
		c.name, c.limit, c.less = id.Name, b.Y, true
	case token.GTR:
		id, ok := b.Y.(*ast.Ident)
		if !ok {
			return nil
		}
		c.name, c.limit, c.less = id.Name, b.X, true
	default:
		return nil
	}
	if as, ok := fs.Init.(*ast.AssignStmt); ok && len(as.Lhs) == 1 && len(as.Rhs) == 1 {
		if id, ok := as.Lhs[0].(*ast.Ident); ok && id.Name == c.name {
			c.init = as.Rhs[0]
		}
	}
	c.fixed = true
	ast.Inspect(fs.Body, func(n ast.Node) bool {
		set := func(e ast.Expr) {
			if id, ok := e.(*ast.Ident); ok && id.Name == c.name {
				c.fixed = false
			}
		}
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, e := range n.Lhs {
				set(e)
			}
		case *ast.IncDecStmt:
			set(n.X)
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				set(n.X)
			}
		}
		return true
	})
	return c
}

type counted struct {
	inv []*Clause
	dec []*Expr
}

// counter supplies the measure, and the range of the counter, of a loop whose contract was written
// for a range loop, or that has none.
func (f *Frame) counter(l *Loop, spec *LoopSpec) *counted {
	if len(spec.Dec) > 0 || spec.NoDec != "" || spec.Unroll > 0 {
		return nil
	}
	c := counterOf(l)
	if c == nil {
		return nil
	}
	r := &counted{}
	limit := exprText(c.limit)
	if e, err := parseExpr(limit + " - " + c.name); err == nil {
		r.dec = []*Expr{e}
	}
	add := func(label, src string) {
		if e, err := parseExpr(src); err == nil {
			r.inv = append(r.inv, &Clause{E: e, Src: src, Label: label})
		}
	}
	if c.fixed || len(spec.Inv) > 0 {
		add("from", c.name+" >= pre("+c.name+")")
		if c.init != nil && exprText(c.init) == "0" && !strings.ContainsAny(limit, "+-*/") {
			add("to", c.name+" <= "+limit)
		} else {
			add("to", c.name+" <= "+limit+" || "+c.name+" == pre("+c.name+")")
		}
	}
	return r
}

func exprText(e ast.Expr) string {
	var b bytes.Buffer
	printer.Fprint(&b, token.NewFileSet(), e)
	return b.String()
}

// ---- renamed locals ----

// localNames lists the named variables of fn in source order, with their types.
func localNames(fn *ssa.Function) [][2]string {
	var as []*ssa.Alloc
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Pos().IsValid() && token.IsIdentifier(a.Comment) && a.Comment != "rangeindex" && a.Comment != "complit" && a.Comment != "varargs" && a.Comment != "slicelit" && a.Comment != "makeslice" {
				as = append(as, a)
			}
		}
	}
	sort.SliceStable(as, func(i, j int) bool { return as[i].Pos() < as[j].Pos() })
	var r [][2]string
	for _, a := range as {
		r = append(r, [2]string{a.Comment, types.TypeString(derefT(a.Type()), func(p *types.Package) string { return shortPkg(p.Path()) })})
	}
	return r
}

// rename maps names of locals the contract was written for, and that are gone, to new ones of the
// same type, in order.
func (f *Frame) rename() {
	if f.con == nil {
		return
	}
	base := f.x.specs.locals[funcKey(f.fn)]
	if base == nil {
		return
	}
	cur := localNames(f.fn)
	missing := func(a, b [][2]string) map[string][]string {
		in := map[string]bool{}
		for _, v := range b {
			in[v[0]] = true
		}
		r := map[string][]string{}
		for _, v := range a {
			if !in[v[0]] {
				in[v[0]] = true
				r[v[1]] = append(r[v[1]], v[0])
			}
		}
		return r
	}
	gone, new := missing(base, cur), missing(cur, base)
	for t, ns := range gone {
		if len(new[t]) == len(ns) {
			for i, n := range ns {
				f.alias[n] = new[t][i]
			}
		}
	}
}

const localsFile = "locals.txt"

// loadLocals reads the names of locals as they were when the contracts were written.
func (s *Specs) loadLocals(dir string) {
	s.locals, s.loops, s.known = map[string][][2]string{}, map[string][]string{}, map[string]bool{}
	b, err := os.ReadFile(filepath.Join(dir, localsFile))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		w := strings.Split(l, "\t")
		if w[0] == "known" {
			for _, k := range w[1:] {
				s.known[k] = true
			}
			continue
		}
		if w[0] == "loops" && len(w) > 1 {
			s.loops[w[1]] = w[2:]
			continue
		}
		for i := 1; i+1 < len(w); i += 2 {
			s.locals[w[0]] = append(s.locals[w[0]], [2]string{w[i], w[i+1]})
		}
	}
}

func printLocals(p *Prog, s *Specs) {
	fs := p.allFuncs()
	fmt.Println("known\t" + strings.Join(sortedKeys(fs), "\t"))
	for _, k := range sortedKeys(s.funcs) {
		if c, fn := s.funcs[k], fs[k]; c.Kind == "func" && fn != nil {
			fmt.Print(k)
			for _, v := range localNames(fn) {
				fmt.Print("\t", v[0], "\t", v[1])
			}
			fmt.Println()
			if sg := loopSigs(newCtx(p, s, "").newFrame(fn, nil)); len(sg) > 0 {
				fmt.Println("loops\t" + k + "\t" + strings.Join(sg, "\t"))
			}
		}
	}
}
