package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type axiomText struct{ key, text string }

// Obl is a proof obligation.
type Obl struct {
	Name  string // stable name: function, kind, label/ordinal
	Func  string
	Kind  string
	Pos   string
	Src   string // source text of the clause
	Props []string
	upto  int // lines [0,upto) are visible
	goal  *Term
	guard *Term
	ctx   *Ctx
	lean  bool    // leave out facts other properties need
	hide  [2]int  // lines not used
	cand  *Clause // Houdini candidate this obligation belongs to
	// result
	Status string // proved, failed, unknown
	Solver string
	Time   float64
	Out    string
}

type Ctx struct {
	prog  *Prog
	specs *Specs
	name  string // unit under verification
	fn    *ssa.Function
	con   *Contract

	n, qn     int
	inQuant   int
	pure      int
	lines     []string
	track     []types.Type     // types whose objects are enumerated by invariants
	factProps map[int][]string // properties a fact is about, by line
	obls      []*Obl
	dts       map[string]bool
	dtDecls   []string
	comps     map[string]string
	entryHeap map[string]*Term
	globals   map[string]bool
	ghost     func(st *State, ref *Term, t types.Type)

	logicUsed  map[string]bool
	logicDecls []string
	defAxioms  []axiomText
	lits       map[string]*Term
	litOrder   []string
	useStr     map[string]bool
	tags       map[string]int
	eqDone     map[string]bool

	entry      *State
	next0      *Term
	mods       map[string][]*Term // comp -> refs that may be written; nil term = any
	modAll     map[string]bool
	frames     int
	scopes     [][2]int // ranges of lines that only matter while they are being produced
	known      map[string]*Term
	trusted    map[string]bool // extern contracts and assumptions used
	oblN       map[string]int
	effects    *Effects
	errs       []string
	inlined    map[string]bool
	called     map[string]bool
	recGroup   map[string]bool
	decEntry   []*Term
	defs       map[string]*Term
	ptrCells   map[string]*Cell
	cellSeq    int
	callDepth  int
	litFacts   map[string]bool
	axioms     []axiomInst
	entryFacts []axiomText
}

func newCtx(p *Prog, s *Specs, name string) *Ctx {
	return &Ctx{prog: p, specs: s, name: name, dts: map[string]bool{}, comps: map[string]string{}, entryHeap: map[string]*Term{},
		globals: map[string]bool{}, logicUsed: map[string]bool{}, lits: map[string]*Term{}, useStr: map[string]bool{}, tags: map[string]int{},
		eqDone: map[string]bool{}, mods: map[string][]*Term{}, modAll: map[string]bool{}, known: map[string]*Term{}, trusted: map[string]bool{}, oblN: map[string]int{},
		inlined: map[string]bool{}, called: map[string]bool{}, defs: map[string]*Term{}, ptrCells: map[string]*Cell{}, litFacts: map[string]bool{}}
}

type execError struct{ msg string }

func (x *Ctx) fail(f string, a ...interface{}) {
	panic(execError{fmt.Sprintf(f, a...)})
}

func (x *Ctx) fresh(hint, sort string) *Term {
	x.n++
	s := sym(fmt.Sprintf("%s!%d", strings.Trim(hint, "|"), x.n))
	x.lines = append(x.lines, fmt.Sprintf("(declare-const %s %s)", s, sort))
	return mk(s, sort)
}

func (x *Ctx) fact(t *Term) {
	if isTrue(t) || x.pure > 0 || x.inQuant > 0 {
		return
	}
	x.lines = append(x.lines, "(assert "+t.String()+")")
}

// def names a large term.
func (x *Ctx) def(hint string, t *Term) *Term {
	if t.size <= 7 && !(t.Op == "ite" && t.Sort != "Bool" && t.Sort != "Int") || x.pure > 0 || x.inQuant > 0 {
		return t
	}
	key := t.String()
	if d, ok := x.defs[key]; ok {
		return d
	}
	c := x.fresh(hint, t.Sort)
	x.lines = append(x.lines, "(assert (= "+c.String()+" "+key+"))")
	x.defs[key] = c
	return c
}

func (x *Ctx) oblige(st *State, kind, label, src string, pos token.Pos, goal *Term, props []string) {
	if x.pure > 0 || x.inQuant > 0 {
		return
	}
	if isFalse(st.pc) {
		return
	}
	if gs := conjuncts(goal); len(gs) > 1 {
		for _, g := range gs {
			x.oblige(st, kind, label, src, pos, g, props)
		}
		return
	}
	key := kind
	if label != "" {
		key += ":" + label
	}
	x.oblN[key]++
	name := fmt.Sprintf("%s/%s#%d", x.name, key, x.oblN[key])
	o := &Obl{Name: name, Func: x.name, Kind: kind, Src: src, Props: props, upto: len(x.lines), goal: goal, guard: st.pc, ctx: x}
	if pos.IsValid() {
		p := x.prog.fset.Position(pos)
		o.Pos = strings.TrimPrefix(p.String(), x.prog.repo+"/")
	}
	if isTrue(goal) {
		o.Status, o.Solver = "proved", "simplifier"
	} else if st.via != nil {
		x.oblN[key]++
		o2 := *o
		o2.Name = fmt.Sprintf("%s/%s#%d", x.name, key, x.oblN[key])
		o2.guard = and(st.pc, not(st.via.pc))
		o.guard = and(st.pc, st.via.pc)
		o.hide = [2]int{st.via.from, st.via.to}
		x.obls = append(x.obls, &o2)
	}
	x.obls = append(x.obls, o)
	x.assumeFor(st, goal, props)
}

// conjuncts splits a goal into independently provable parts.
func conjuncts(t *Term) []*Term {
	switch t.Op {
	case "and":
		var out []*Term
		for _, a := range t.Args {
			out = append(out, conjuncts(a)...)
		}
		return out
	case "=>":
		if len(t.Args) == 2 {
			if cs := conjuncts(t.Args[1]); len(cs) > 1 {
				for i := range cs {
					cs[i] = implies(t.Args[0], cs[i])
				}
				return cs
			}
		}
	}
	return []*Term{t}
}

func (x *Ctx) assume(st *State, t *Term) { x.fact(implies(st.pc, t)) }

// assumeFor records a fact that only some properties need.
func (x *Ctx) assumeFor(st *State, t *Term, props []string) {
	n := len(x.lines)
	x.assume(st, t)
	if len(props) > 0 && len(x.lines) == n+1 {
		if x.factProps == nil {
			x.factProps = map[int][]string{}
		}
		x.factProps[n] = props
	}
}

// aside reports whether o can probably do without line i.
func (o *Obl) aside(i int) bool {
	ps := o.ctx.factProps[i]
	if len(ps) == 0 {
		return false
	}
	for _, p := range ps {
		for _, q := range o.Props {
			if p == q {
				return false
			}
		}
	}
	return true
}

// ---- strings ----

func (x *Ctx) strLit(s string) *Term {
	if t, ok := x.lits[s]; ok {
		return t
	}
	if s == "" {
		return mk("str!empty", "Str")
	}
	t := mk(fmt.Sprintf("str!%d", len(x.lits)), "Str")
	x.lits[s] = t
	x.litOrder = append(x.litOrder, s)
	return t
}

func (x *Ctx) litOf(t *Term) (string, bool) {
	if t.Sort != "Str" || len(t.Args) > 0 || !strings.HasPrefix(t.Op, "str!") {
		return "", false
	}
	if t.Op == "str!empty" {
		return "", true
	}
	var n int
	fmt.Sscanf(t.Op, "str!%d", &n)
	return x.litOrder[n], true
}

func (x *Ctx) slen(t *Term) *Term {
	if s, ok := x.litOf(t); ok {
		return num(int64(len(s)))
	}
	if t.Op == "bstr" {
		return t.Args[2]
	}
	return mk("slen", "Int", t)
}

func (x *Ctx) sat(t, i *Term) *Term {
	if s, ok := x.litOf(t); ok {
		if n, ok := isNum(i); ok && n >= 0 && int(n) < len(s) {
			return num(int64(s[n]))
		}
	}
	if t.Op == "bstr" {
		return at(t.Args[0], t.Args[1], i)
	}
	return mk("sat", "Int", t, i)
}

func (x *Ctx) ssub(t, lo, hi *Term) *Term {
	if s, ok := x.litOf(t); ok {
		if a, ok := isNum(lo); ok {
			if b, ok := isNum(hi); ok && 0 <= a && a <= b && int(b) <= len(s) {
				return x.strLit(s[a:b])
			}
		}
	}
	if n, ok := isNum(lo); ok && n == 0 && same(hi, x.slen(t)) {
		return t
	}
	if t.Op == "ssub" && x.inQuant == 0 {
		// valid when bounds hold; checked at the program point that built it
	}
	return mk("ssub", "Str", t, lo, hi)
}

func (x *Ctx) scat(a, b *Term) *Term {
	s, ok1 := x.litOf(a)
	u, ok2 := x.litOf(b)
	if ok1 && ok2 {
		return x.strLit(s + u)
	}
	if ok1 && s == "" {
		return b
	}
	if ok2 && u == "" {
		return a
	}
	return mk("scat", "Str", a, b)
}

func (x *Ctx) bstr(arr, off, ln *Term) *Term { return mk("bstr", "Str", arr, off, ln) }

// equal builds a == b, adding extensionality instances for strings.
func (x *Ctx) equal(a, b *Term) *Term {
	t := eq(a, b)
	if a.Sort != "Str" || isTrue(t) {
		return t
	}
	sa, oka := x.litOf(a)
	sb, okb := x.litOf(b)
	if oka && okb {
		if sa == sb {
			return tTrue
		}
		return tFalse
	}
	if oka {
		a, b, sb, okb = b, a, sa, true
		t = eq(a, b)
	}
	key := t.String()
	if okb {
		// a == literal: expand
		var cs []*Term
		cs = append(cs, eq(x.slen(a), num(int64(len(sb)))))
		for i := 0; i < len(sb); i++ {
			cs = append(cs, eq(x.sat(a, num(int64(i))), num(int64(sb[i]))))
		}
		if x.inQuant > 0 || x.pure > 0 {
			// inside a quantifier use both forms: equality and its expansion are equivalent
			return and(cs...)
		}
		if !x.eqDone[key] {
			x.eqDone[key] = true
			x.fact(eq(t, and(cs...)))
		}
		return t
	}
	if x.inQuant > 0 || x.pure > 0 {
		return t
	}
	if !x.eqDone[key] {
		x.eqDone[key] = true
		k := x.fresh("ext", "Int")
		x.fact(or(t, not(eq(x.slen(a), x.slen(b))), and(le(num(0), k), lt(k, x.slen(a)), not(eq(x.sat(a, k), x.sat(b, k))))))
	}
	return t
}

func (x *Ctx) typeTag(t types.Type) *Term {
	k := typeKey(t)
	if _, ok := x.tags[k]; !ok {
		x.tags[k] = len(x.tags) + 1
	}
	return num(int64(x.tags[k]))
}

// ---- globals with literal data ----

// globalVal returns the value of package-level variable name in state st.
func (x *Ctx) globalVal(st *State, name string, t types.Type) *Term {
	comp := "G:" + name
	x.comps[comp] = x.sortOf(t)
	v := x.heapGet(st, comp)
	x.globalFacts(name, t)
	return v
}

// globalFacts asserts, once, what the initializer of a never-reassigned
// package-level variable says about its entry value.
func (x *Ctx) globalFacts(name string, t types.Type) {
	if x.globals[name] {
		return
	}
	x.globals[name] = true
	i := strings.IndexByte(name, '.')
	sp := x.prog.pkgs[name[:i]]
	if sp == nil {
		return
	}
	v, ok := sp.Pkg.Scope().Lookup(name[i+1:]).(*types.Var)
	if !ok {
		return
	}
	init := x.prog.lits[v]
	info := x.prog.litIn[v]
	e := x.entryComp("G:" + name)
	// well-formedness relative to entry
	savePure, saveQ := x.pure, x.inQuant
	x.pure, x.inQuant = 0, 0
	defer func() { x.pure, x.inQuant = savePure, saveQ }()
	x.fact(x.wfTerm(e, t, x.next0))
	if init == nil || x.prog.reassigned(v) {
		return
	}
	if p, ok := t.Underlying().(*types.Pointer); ok && isStructT(p.Elem()) || isOpaquePtr(t) {
		// e.g. new(Scanner), regexp.MustCompile: non-nil
		x.fact(lt(num(0), e))
	}
	if c, ok := init.(*ast.CallExpr); ok && len(c.Args) == 1 {
		if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "MustCompile" && strings.HasSuffix(t.String(), "regexp.Regexp") {
			if tv := info.Types[c.Args[0]]; tv.Value != nil && tv.Value.Kind() == constant.String {
				x.fact(eq(mk("relit", "Str", e), x.strLit(constant.StringVal(tv.Value))))
			}
		}
	}
	if c, ok := init.(*ast.CallExpr); ok && strings.HasSuffix(t.String(), "strings.Replacer") {
		// strings.NewReplacer of constants
		if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "NewReplacer" && !c.Ellipsis.IsValid() {
			fs := []*Term{eq(mk("repn", "Int", e), num(int64(len(c.Args))))}
			for i, a := range c.Args {
				tv := info.Types[a]
				if tv.Value == nil || tv.Value.Kind() != constant.String {
					return
				}
				fs = append(fs, eq(mk("replit", "Str", e, num(int64(i))), x.strLit(constant.StringVal(tv.Value))))
			}
			x.fact(and(fs...))
		}
	}
	switch t.Underlying().(type) {
	case *types.Slice:
		x.sliceLit(e, t, init, info)
	case *types.Array, *types.Struct:
		if v := x.constLit(t, init, info); v != nil {
			x.fact(eq(e, v))
		}
	}
}

// constLit is the value of an array or struct literal made of constants, or nil.
func (x *Ctx) constLit(t types.Type, e ast.Expr, info *types.Info) *Term {
	cl, ok := e.(*ast.CompositeLit)
	if !ok {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		if u.Len() > 64 || int64(len(cl.Elts)) > u.Len() {
			return nil
		}
		el := make([]*Term, u.Len())
		for i := range el {
			el[i] = x.zero(u.Elem())
		}
		for i, f := range cl.Elts {
			tv := info.Types[f]
			if tv.Value == nil {
				return nil
			}
			el[i] = x.constTerm(tv.Value, u.Elem())
		}
		return x.mkArr(t, el)
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = x.zero(u.Field(i).Type())
		}
		for i, f := range cl.Elts {
			if kv, ok := f.(*ast.KeyValueExpr); ok {
				id, ok := kv.Key.(*ast.Ident)
				if !ok {
					return nil
				}
				i, f = fieldIndex(u, id.Name), kv.Value
			}
			tv := info.Types[f]
			if i < 0 || tv.Value == nil {
				return nil
			}
			fs[i] = x.constTerm(tv.Value, u.Field(i).Type())
		}
		return x.mkStruct(t, fs)
	}
	return nil
}

// knownOr replaces a term by the literal value it is known to have.
func (x *Ctx) knownOr(t *Term) *Term {
	if len(x.known) > 0 && t.size <= 40 {
		if k, ok := x.known[t.String()]; ok {
			return k
		}
	}
	return t
}

func isOpaquePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && specialSort(p.Elem()) != ""
}

func (x *Ctx) sliceLit(v *Term, t types.Type, init ast.Expr, info *types.Info) {
	el := t.Underlying().(*types.Slice).Elem()
	// []byte("...")
	if c, ok := init.(*ast.CallExpr); ok && len(c.Args) == 1 {
		if tv, ok := info.Types[c.Args[0]]; ok && tv.Value != nil && tv.Value.Kind() == constant.String {
			s := constant.StringVal(tv.Value)
			m := sel(x.entryComp(x.elemC(el)), slRef(v))
			fs := []*Term{eq(slLen(v), num(int64(len(s)))), lt(num(0), slRef(v))}
			for i := 0; i < len(s); i++ {
				fs = append(fs, eq(at(m, slOff(v), num(int64(i))), num(int64(s[i]))))
			}
			x.fact(and(fs...))
		}
		return
	}
	cl, ok := init.(*ast.CompositeLit)
	if !ok {
		return
	}
	if len(cl.Elts) > 64 {
		x.fact(eq(slLen(v), num(int64(len(cl.Elts)))))
		return
	}
	m := sel(x.entryComp(x.elemC(el)), slRef(v))
	fs := []*Term{eq(slLen(v), num(int64(len(cl.Elts))))}
	x.known[slLen(v).String()] = num(int64(len(cl.Elts)))
	if len(cl.Elts) > 0 {
		fs = append(fs, lt(num(0), slRef(v)))
	}
	for i, e := range cl.Elts {
		at := at(m, slOff(v), num(int64(i)))
		if tv := info.Types[e]; tv.Value != nil {
			fs = append(fs, eq(at, x.constTerm(tv.Value, el)))
			x.known[at.String()] = x.constTerm(tv.Value, el)
			continue
		}
		if c2, ok := e.(*ast.CompositeLit); ok && isStructT(el) {
			st := el.Underlying().(*types.Struct)
			vals := make([]*Term, st.NumFields())
			for k := range vals {
				vals[k] = x.zero(st.Field(k).Type())
			}
			good := true
			for k, f := range c2.Elts {
				idx := k
				fe := f
				if kv, ok := f.(*ast.KeyValueExpr); ok {
					idx = fieldIndex(st, kv.Key.(*ast.Ident).Name)
					fe = kv.Value
				}
				tv := info.Types[fe]
				if tv.Value == nil {
					good = false
					break
				}
				vals[idx] = x.constTerm(tv.Value, st.Field(idx).Type())
			}
			if good {
				fs = append(fs, eq(at, x.mkStruct(el, vals)))
				x.known[at.String()] = x.mkStruct(el, vals)
			}
		}
	}
	x.fact(and(fs...))
}

// reassigned reports whether a package-level variable is ever stored to outside init.
func (p *Prog) reassigned(v *types.Var) bool {
	for _, f := range p.allFuncs() {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Object() == v {
						if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						switch a := in.(type) {
						case *ssa.IndexAddr:
							if a.X == *op && onlyLoaded(a) {
								continue
							}
						case *ssa.FieldAddr:
							if onlyLoaded(a) {
								continue
							}
						case *ssa.DebugRef:
							continue
						}
						return true
					}
				}
			}
		}
	}
	return false
}

// ---- heap ----

type Cell struct {
	name  string
	typ   types.Type
	alloc *ssa.Alloc
	id    int
}

type Ptr struct {
	Kind int // 0 cell, 1 slice element, 2 heap object, 3 global
	Cell *Cell
	Ref  *Term
	Off  *Term
	Idx  *Term
	Typ  types.Type // type of the base object
	Glob string
	Path []int
	Sel  *Term // array element at a computed index: only ever loaded
}

const (
	pCell = iota
	pElem
	pObj
	pGlob
)

type Closure struct {
	fn   *ssa.Function
	bind []Val
}

type Val struct {
	T   *Term
	P   *Ptr
	C   *Closure
	El  []Val
	AS  *Ptr // slice of a local array
	Bad string
}

func tv(t *Term) Val { return Val{T: t} }

type State struct {
	pc    *Term
	cells map[*Cell]Val
	heap  map[string]*Term
	next  *Term
	regs  map[ssa.Value]Val
	via   *forgot // the state may have come through this point
}

// forgot marks an exit after which the lines in between are not looked at any more.
type forgot struct {
	from, to int
	pc       *Term
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, next: s.next, via: s.via, cells: make(map[*Cell]Val, len(s.cells)), heap: make(map[string]*Term, len(s.heap)), regs: make(map[ssa.Value]Val, len(s.regs))}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.regs {
		n.regs[k] = v
	}
	return n
}

func (x *Ctx) entryComp(comp string) *Term {
	if t, ok := x.entryHeap[comp]; ok {
		return t
	}
	t := mk(sym("H0:"+comp), x.compSort(comp))
	x.entryHeap[comp] = t
	if strings.HasPrefix(comp, "D:") {
		x.entryFacts = append(x.entryFacts, axiomText{t.Op, x.nilMapFact(t).String()})
	}
	return t
}

// nilMapFact: the nil map is empty.
func (x *Ctx) nilMapFact(d *Term) *Term {
	_, ds := arrayParts(d.Sort)
	return eq(sel(d, num(0)), mk("((as const "+ds+") false)", ds))
}

// freshComp makes an arbitrary value for a heap component.
func (x *Ctx) freshComp(name string) *Term {
	n := x.fresh(name, x.compSort(name))
	if strings.HasPrefix(name, "D:") {
		x.fact(x.nilMapFact(n))
	}
	return n
}

func (x *Ctx) heapGet(st *State, comp string) *Term {
	if st == nil {
		panic(evalError{"heap access in a pure context"})
	}
	if t, ok := st.heap[comp]; ok {
		return t
	}
	return x.entryComp(comp)
}

// wfTerm is the well-formedness of value v of type t with allocation bound next.
func (x *Ctx) wfTerm(v *Term, t types.Type, next *Term) *Term {
	if specialSort(t) != "" {
		return tTrue
	}
	if el, ok := isSeq(t); ok {
		_ = el
		return le(num(0), seqLen(v))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(t); ok {
			if _, isn := isNum(v); isn {
				return tTrue
			}
			return and(le(num(lo), v), le(v, num(hi)))
		}
	case *types.Slice:
		if v.Op == "mkslice" {
			if n, ok := isNum(slRef(v)); ok && n == 0 {
				return tTrue
			}
		}
		return and(le(num(0), slRef(v)), lt(slRef(v), next), le(num(0), slOff(v)), le(num(0), slLen(v)), le(slLen(v), slCap(v)),
			implies(eq(slRef(v), num(0)), eq(slCap(v), num(0))))
	case *types.Pointer:
		if isStructT(u.Elem()) {
			return and(le(num(0), v), lt(v, next), implies(not(eq(v, num(0))), eq(mk("rtype", "Int", v), x.typeTag(u.Elem()))))
		}
		return and(le(num(0), v), lt(v, next))
	case *types.Map:
		return and(le(num(0), v), lt(v, next))
	case *types.Struct:
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, x.wfTerm(x.getField(t, v, i), u.Field(i).Type(), next))
		}
		return and(cs...)
	case *types.Array:
		var cs []*Term
		for i := 0; i < int(u.Len()); i++ {
			cs = append(cs, x.wfTerm(x.arrSel(t, v, i), u.Elem(), next))
		}
		return and(cs...)
	}
	return tTrue
}

func (x *Ctx) wf(st *State, v *Term, t types.Type) {
	if x.pure > 0 || x.inQuant > 0 {
		return
	}
	w := x.wfTerm(v, t, st.next)
	if isTrue(w) {
		return
	}
	key := "wf:" + st.next.String() + ":" + v.String() + ":" + st.pc.String()
	if x.eqDone[key] {
		return
	}
	x.eqDone[key] = true
	x.assume(st, w)
}

// ---- loads and stores ----

// pathType returns the type reached by following path from t.
func pathType(t types.Type, path []int) types.Type {
	for _, i := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(i).Type()
		case *types.Array:
			t = u.Elem()
		}
	}
	return t
}

func (x *Ctx) readPath(v Val, t types.Type, path []int) (Val, types.Type, error) {
	for _, i := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if v.El != nil {
				v = v.El[i]
			} else if v.T != nil {
				v = tv(x.getField(t, v.T, i))
			} else {
				return v, t, fmt.Errorf("bad struct value %s", v.Bad)
			}
			t = u.Field(i).Type()
		case *types.Array:
			if v.El != nil {
				v = v.El[i]
			} else if v.T != nil {
				v = tv(x.arrSel(t, v.T, i))
			} else {
				return v, t, fmt.Errorf("bad array value %s", v.Bad)
			}
			t = u.Elem()
		}
	}
	return v, t, nil
}

func (x *Ctx) writePath(st *State, v Val, t types.Type, path []int, nv Val) (Val, error) {
	if len(path) == 0 {
		return nv, nil
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		ft := u.Field(path[0]).Type()
		if v.T == nil {
			return v, fmt.Errorf("bad struct value")
		}
		sub, err := x.writePath(st, tv(x.getField(t, v.T, path[0])), ft, path[1:], nv)
		if err != nil {
			return v, err
		}
		sterm, err := x.termOf(st, sub, ft)
		if err != nil {
			return v, err
		}
		return tv(x.setField(t, v.T, path[0], sterm)), nil
	case *types.Array:
		n := int(u.Len())
		el := make([]Val, n)
		for i := range el {
			if v.El != nil {
				el[i] = v.El[i]
			} else {
				el[i] = tv(x.arrSel(t, v.T, i))
			}
		}
		sub, err := x.writePath(st, el[path[0]], u.Elem(), path[1:], nv)
		if err != nil {
			return v, err
		}
		el[path[0]] = sub
		return Val{El: el}, nil
	}
	return v, fmt.Errorf("bad path")
}

// load reads through p. It never emits obligations.
func (x *Ctx) load(st *State, p *Ptr) (Val, types.Type, error) {
	if p.Sel != nil {
		q := *p
		q.Sel = nil
		v, t, err := x.load(st, &q)
		if err != nil {
			return Val{}, nil, err
		}
		a, ok := t.Underlying().(*types.Array)
		if !ok {
			return Val{}, nil, fmt.Errorf("bad array element")
		}
		var r *Term
		for i := int(a.Len()) - 1; i >= 0; i-- {
			e, _, err := x.readPath(v, t, []int{i})
			if err != nil {
				return Val{}, nil, err
			}
			et, err := x.termOf(st, e, a.Elem())
			if err != nil {
				return Val{}, nil, err
			}
			if r == nil {
				r = et
			} else {
				r = ite(eq(p.Sel, num(int64(i))), et, r)
			}
		}
		return tv(r), a.Elem(), nil
	}
	switch p.Kind {
	case pCell:
		v, ok := st.cells[p.Cell]
		if !ok {
			return Val{}, nil, fmt.Errorf("variable %s has no value here", p.Cell.name)
		}
		return x.readPath(v, p.Cell.typ, p.Path)
	case pElem:
		m := x.heapGet(st, x.elemC(p.Typ))
		return x.readPath(tv(x.knownOr(at(sel(m, p.Ref), p.Off, p.Idx))), p.Typ, p.Path)
	case pObj:
		if len(p.Path) == 0 {
			u := p.Typ.Underlying().(*types.Struct)
			var fs []*Term
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, sel(x.heapGet(st, x.fieldC(p.Typ, i)), p.Ref))
			}
			return tv(x.mkStruct(p.Typ, fs)), p.Typ, nil
		}
		u := p.Typ.Underlying().(*types.Struct)
		f := tv(sel(x.heapGet(st, x.fieldC(p.Typ, p.Path[0])), p.Ref))
		return x.readPath(f, u.Field(p.Path[0]).Type(), p.Path[1:])
	case pGlob:
		v := tv(x.globalVal(st, p.Glob, p.Typ))
		return x.readPath(v, p.Typ, p.Path)
	}
	return Val{}, nil, fmt.Errorf("bad pointer")
}

// ptrOf views a value of pointer-to-t type as a Ptr.
func (x *Ctx) ptrOf(v Val, t types.Type) (*Ptr, error) {
	if v.P != nil {
		return v.P, nil
	}
	if v.T != nil {
		if isStructT(t) {
			return &Ptr{Kind: pObj, Ref: v.T, Typ: t}, nil
		}
		return nil, fmt.Errorf("pointer to %s is not supported", t)
	}
	return nil, fmt.Errorf("unusable pointer value %s", v.Bad)
}

func (x *Ctx) loadVal(st *State, v Val, t types.Type) (Val, error) {
	p, err := x.ptrOf(v, t)
	if err != nil {
		return Val{}, err
	}
	r, _, err := x.load(st, p)
	return r, err
}

func (x *Ctx) loadField(st *State, v Val, t types.Type, i int) (Val, error) {
	p, err := x.ptrOf(v, t)
	if err != nil {
		return Val{}, err
	}
	q := *p
	q.Path = append(append([]int{}, p.Path...), i)
	r, _, err := x.load(st, &q)
	return r, err
}

// termOf turns a value into an SMT term of type t (allocating for array slices).
func (x *Ctx) termOf(st *State, v Val, t types.Type) (*Term, error) {
	switch {
	case v.T != nil:
		return v.T, nil
	case v.El != nil:
		if a, ok := t.Underlying().(*types.Array); ok {
			var el []*Term
			for _, e := range v.El {
				et, err := x.termOf(st, e, a.Elem())
				if err != nil {
					return nil, err
				}
				el = append(el, et)
			}
			return x.mkArr(t, el), nil
		}
	case v.P != nil:
		if v.P.Kind == pObj && len(v.P.Path) == 0 {
			return v.P.Ref, nil
		}
		return nil, fmt.Errorf("interior pointer used as a value")
	case v.AS != nil:
		return x.materialize(st, v, t)
	case v.C != nil:
		return num(1), nil
	}
	return nil, fmt.Errorf("no term for value (%s)", v.Bad)
}

// materialize allocates the backing array of a slice literal.
func (x *Ctx) materialize(st *State, v Val, t types.Type) (*Term, error) {
	el := t.Underlying().(*types.Slice).Elem()
	av, _, err := x.load(st, v.AS)
	if err != nil {
		return nil, err
	}
	n := len(av.El)
	if n == 0 && av.T != nil {
		at := pathType(v.AS.Cell.typ, v.AS.Path)
		n = int(at.Underlying().(*types.Array).Len())
		for i := 0; i < n; i++ {
			av.El = append(av.El, tv(x.arrSel(at, av.T, i)))
		}
	}
	ref := x.alloc(st, t)
	comp := x.elemC(el)
	m := x.heapGet(st, comp)
	arr := sel(m, ref)
	for i, e := range av.El {
		et, err := x.termOf(st, e, el)
		if err != nil {
			return nil, err
		}
		arr = store(arr, num(int64(i)), et)
	}
	st.heap[comp] = x.def("M", store(m, ref, arr))
	return mkSlice(ref, num(0), num(int64(n)), num(int64(n))), nil
}

func (x *Ctx) alloc(st *State, t types.Type) *Term {
	r := st.next
	st.next = x.def("next", add(st.next, num(1)))
	if len(x.track) > 0 {
		if _, ok := t.Underlying().(*types.Struct); !ok {
			x.assume(st, eq(mk("rtype", "Int", r), x.typeTag(t)))
		}
	}
	return r
}

// moreAlloc raises the allocation bound after code with effects eff.
func (x *Ctx) moreAlloc(st *State, eff *Eff) {
	n := x.fresh("next", "Int")
	x.assume(st, le(st.next, n))
	for _, t := range x.track {
		if !eff.allocT[typeKey(t)] {
			x.qn++
			r := mk(sym(fmt.Sprintf("r!t%d", x.qn)), "Int")
			ty := mk("rtype", "Int", r)
			x.assume(st, forall([]qvar{{r.Op, "Int"}}, implies(and(le(st.next, r), lt(r, n)), not(eq(ty, x.typeTag(t)))), []*Term{ty}))
		}
	}
	st.next = n
}

// checkWrite emits the frame obligation for writing comp at ref.
func (x *Ctx) checkWrite(st *State, comp string, ref *Term, pos token.Pos) {
	if x.modAll[comp] {
		return
	}
	cs := []*Term{}
	if ref != nil {
		cs = append(cs, ge(ref, x.next0), eq(ref, num(0)))
	}
	for _, m := range x.mods[comp] {
		if m == nil {
			return
		}
		if ref != nil {
			cs = append(cs, eq(ref, m))
		}
	}
	x.oblige(st, "frame", comp, "write to "+comp+" only where the contract allows", pos, or(cs...), []string{"C06"})
}

func (x *Ctx) storeTo(st *State, p *Ptr, nv Val, pos token.Pos) error {
	switch p.Kind {
	case pCell:
		old := st.cells[p.Cell]
		if len(p.Path) == 0 {
			st.cells[p.Cell] = nv
			return nil
		}
		v, err := x.writePath(st, old, p.Cell.typ, p.Path, nv)
		if err != nil {
			return err
		}
		if v.T != nil {
			v.T = x.def(p.Cell.name, v.T)
		}
		st.cells[p.Cell] = v
		return nil
	case pElem:
		comp := x.elemC(p.Typ)
		m := x.heapGet(st, comp)
		x.checkWrite(st, comp, p.Ref, pos)
		arr := sel(m, p.Ref)
		v, err := x.writePath(st, tv(at(arr, p.Off, p.Idx)), p.Typ, p.Path, nv)
		if err != nil {
			return err
		}
		t, err := x.termOf(st, v, p.Typ)
		if err != nil {
			return err
		}
		m = x.heapGet(st, comp)
		st.heap[comp] = x.def("M", store(m, p.Ref, store(arr, add(p.Off, p.Idx), t)))
		return nil
	case pObj:
		u := p.Typ.Underlying().(*types.Struct)
		if len(p.Path) == 0 {
			t, err := x.termOf(st, nv, p.Typ)
			if err != nil {
				return err
			}
			for i := 0; i < u.NumFields(); i++ {
				comp := x.fieldC(p.Typ, i)
				x.checkWrite(st, comp, p.Ref, pos)
				st.heap[comp] = x.def("F", store(x.heapGet(st, comp), p.Ref, x.getField(p.Typ, t, i)))
			}
			return nil
		}
		i := p.Path[0]
		comp := x.fieldC(p.Typ, i)
		x.checkWrite(st, comp, p.Ref, pos)
		f := x.heapGet(st, comp)
		v, err := x.writePath(st, tv(sel(f, p.Ref)), u.Field(i).Type(), p.Path[1:], nv)
		if err != nil {
			return err
		}
		t, err := x.termOf(st, v, u.Field(i).Type())
		if err != nil {
			return err
		}
		f = x.heapGet(st, comp)
		st.heap[comp] = x.def("F", store(f, p.Ref, t))
		return nil
	case pGlob:
		comp := "G:" + p.Glob
		x.globalVal(st, p.Glob, p.Typ)
		x.checkWrite(st, comp, nil, pos)
		v, err := x.writePath(st, tv(x.heapGet(st, comp)), p.Typ, p.Path, nv)
		if err != nil {
			return err
		}
		t, err := x.termOf(st, v, p.Typ)
		if err != nil {
			return err
		}
		st.heap[comp] = t
		return nil
	}
	return fmt.Errorf("bad store")
}
