package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Eff is the set of things a piece of code may write.
type Eff struct {
	comps  map[string]effDesc  // heap components
	cells  map[*ssa.Alloc]bool // local variables (of any frame on the lexical chain)
	ptrs   map[string]bool     // typeKeys T of non-heap objects written through a *T from outside
	free   map[*ssa.FreeVar]bool
	alloc  bool
	allocT map[string]bool // struct types allocated
	unk    []string        // calls with unknown effect on memory (treated as having none; recorded as assumptions)
}

type effDesc struct {
	kind byte // F M D G
	t    types.Type
	i    int
	g    string
}

func newEff() *Eff {
	return &Eff{comps: map[string]effDesc{}, cells: map[*ssa.Alloc]bool{}, ptrs: map[string]bool{}, free: map[*ssa.FreeVar]bool{}, allocT: map[string]bool{}}
}

func (e *Eff) merge(o *Eff, withLocals bool) {
	for k, v := range o.comps {
		e.comps[k] = v
	}
	for k := range o.ptrs {
		e.ptrs[k] = true
	}
	if withLocals {
		for k := range o.cells {
			e.cells[k] = true
		}
		for k := range o.free {
			e.free[k] = true
		}
	}
	e.alloc = e.alloc || o.alloc
	for k := range o.allocT {
		e.allocT[k] = true
	}
}

func (e *Eff) addField(t types.Type, i int) { e.comps[fieldComp(t, i)] = effDesc{'F', t, i, ""} }
func (e *Eff) addElem(t types.Type)         { e.comps[elemComp(t)] = effDesc{'M', t, 0, ""} }
func (e *Eff) addMap(t types.Type) {
	e.comps[mapDom(t)] = effDesc{'D', t, 0, ""}
	e.comps[mapVal(t)] = effDesc{'D', t, 0, ""}
}
func (e *Eff) addAllFields(t types.Type) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			e.addField(t, i)
		}
	}
}

// reg makes sure the component is known to x.
func (x *Ctx) reg(name string, d effDesc) string {
	switch d.kind {
	case 'F':
		return x.fieldC(d.t, d.i)
	case 'M':
		return x.elemC(d.t)
	case 'D':
		x.mapC(d.t)
	case 'G':
		x.comps[name] = x.sortOf(d.t)
	}
	return name
}

type Effects struct {
	p     *Prog
	specs *Specs
	memo  map[*ssa.Function]*Eff
	esc   map[*ssa.Alloc]int
}

func newEffects(p *Prog, s *Specs) *Effects {
	ef := &Effects{p: p, specs: s, memo: map[*ssa.Function]*Eff{}, esc: map[*ssa.Alloc]int{}}
	ef.solve()
	return ef
}

// heapObj reports whether an alloc of struct type is modelled as a heap object
// (its address escapes) rather than as a local variable.
func (ef *Effects) heapObj(a *ssa.Alloc) bool {
	t := derefT(a.Type())
	if !isStructT(t) {
		return false
	}
	if v, ok := ef.esc[a]; ok {
		return v == 1
	}
	r := 0
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if u.Val == v {
					return true
				}
			case *ssa.FieldAddr:
				if walkSub(u) {
					return true
				}
			case *ssa.MakeClosure:
				// captured by a closure: stays a variable
			default:
				return true
			}
		}
		return false
	}
	if walk(a) {
		r = 1
	}
	ef.esc[a] = r
	return r == 1
}

// walkSub reports whether the address of a field (or deeper) escapes.
func walkSub(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if u.Val == v {
				return true
			}
		case *ssa.FieldAddr:
			if walkSub(u) {
				return true
			}
		case *ssa.IndexAddr:
			if walkSub(u) {
				return true
			}
		case *ssa.Call:
			// method call on an embedded special object, e.g. re.once.Do
			continue
		default:
			return true
		}
	}
	return false
}

// root walks an address expression to its base.
func addrRoot(v ssa.Value) (base ssa.Value, path []ssa.Value) {
	for {
		switch u := v.(type) {
		case *ssa.FieldAddr:
			path = append([]ssa.Value{u}, path...)
			v = u.X
			continue
		case *ssa.IndexAddr:
			if _, ok := u.X.Type().Underlying().(*types.Pointer); ok {
				path = append([]ssa.Value{u}, path...)
				v = u.X
				continue
			}
			return u, path
		}
		return v, path
	}
}

func (ef *Effects) storeEff(e *Eff, addr ssa.Value) {
	base, path := addrRoot(addr)
	switch b := base.(type) {
	case *ssa.Alloc:
		if ef.heapObj(b) {
			t := derefT(b.Type())
			if len(path) > 0 {
				e.addField(t, path[0].(*ssa.FieldAddr).Field)
			} else {
				e.addAllFields(t)
			}
		} else {
			e.cells[b] = true
		}
	case *ssa.IndexAddr: // slice element
		e.addElem(b.X.Type().Underlying().(*types.Slice).Elem())
	case *ssa.Global:
		e.comps["G:"+globName(b)] = effDesc{'G', derefT(b.Type()), 0, ""}
	case *ssa.FreeVar:
		e.free[b] = true
	default:
		t := derefT(base.Type())
		if isStructT(t) {
			// a heap object, or an element/variable reached by a local pointer
			if len(path) > 0 {
				if fa, ok := path[0].(*ssa.FieldAddr); ok {
					e.addField(t, fa.Field)
				}
			} else {
				e.addAllFields(t)
			}
			// it may also be a pointer to a slice element kept in a local (p := &s[i])
			if ef.elemPtr(base) {
				e.addElem(t)
			}
			e.ptrs[typeKey(t)] = true
		} else {
			e.ptrs[typeKey(t)] = true
			if ef.elemPtr(base) {
				e.addElem(t)
			}
		}
	}
}

// elemPtr reports whether v may be a pointer to a slice element: it is loaded
// from a local variable into which an element address is stored.
func (ef *Effects) elemPtr(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			if ia, ok := s.Val.(*ssa.IndexAddr); ok {
				if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
					return true
				}
			}
		}
	}
	return false
}

func globName(g *ssa.Global) string {
	p := g.Pkg.Pkg.Path()
	if s := shortPkg(p); s != "" {
		p = s
	}
	return p + "." + g.Name()
}

// solve computes the effects of every function by a global fixpoint.
func (ef *Effects) solve() {
	fs := ef.p.allFuncs()
	keys := sortedKeys(fs)
	for _, k := range keys {
		ef.memo[fs[k]] = newEff()
	}
	size := func(e *Eff) int {
		n := len(e.comps) + len(e.cells) + len(e.ptrs) + len(e.free) + len(e.allocT)
		if e.alloc {
			n++
		}
		return n
	}
	for changed := true; changed; {
		changed = false
		for _, k := range keys {
			f := fs[k]
			n := newEff()
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ef.instr(n, in)
				}
			}
			if size(n) != size(ef.memo[f]) {
				changed = true
			}
			ef.memo[f] = n
		}
	}
}

// ofFunc returns the effects of a function on memory outside it.
func (ef *Effects) ofFunc(f *ssa.Function) *Eff {
	if e, ok := ef.memo[f]; ok {
		return e
	}
	return newEff()
}

func (p *Prog) inRepo(f *ssa.Function) bool {
	return f != nil && f.Pkg != nil && shortPkg(f.Pkg.Pkg.Path()) != "" && len(f.Blocks) > 0
}

func (ef *Effects) instr(e *Eff, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		if ef.heapObj(in) {
			e.alloc = true
			e.allocT[typeKey(derefT(in.Type()))] = true
			e.addAllFields(derefT(in.Type()))
		} else {
			e.cells[in] = true
		}
	case *ssa.Store:
		ef.storeEff(e, in.Addr)
	case *ssa.MapUpdate:
		e.addMap(in.Map.Type())
	case *ssa.MakeMap:
		e.alloc = true
		e.addMap(in.Type())
	case *ssa.MakeSlice:
		e.alloc = true
		e.addElem(in.Type().Underlying().(*types.Slice).Elem())
	case *ssa.Slice:
		// slicing a local array may materialize it
		if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				e.alloc = true
				e.addElem(a.Elem())
			}
		}
	case *ssa.Convert:
		if s, ok := in.Type().Underlying().(*types.Slice); ok {
			e.alloc = true
			e.addElem(s.Elem())
		}
	case *ssa.Range, *ssa.Next:
	case *ssa.Call:
		ef.call(e, &in.Call)
	case *ssa.Defer:
		ef.call(e, &in.Call)
	case *ssa.Go:
		ef.call(e, &in.Call)
	}
}

// callees resolves the possible repo functions of a call; ok is false for
// builtins and external functions.
func (ef *Effects) callee(c *ssa.CallCommon) *ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return f
	}
	// call of a local function variable assigned once
	if u, ok := c.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
		var refs *[]ssa.Instruction
		switch a := u.X.(type) {
		case *ssa.Alloc:
			refs = a.Referrers()
		case *ssa.FreeVar:
			return nil
		default:
			return nil
		}
		var fn *ssa.Function
		n := 0
		for _, r := range *refs {
			if s, ok := r.(*ssa.Store); ok {
				n++
				if m, ok := s.Val.(*ssa.MakeClosure); ok {
					fn, _ = m.Fn.(*ssa.Function)
				} else if f, ok := s.Val.(*ssa.Function); ok {
					fn = f
				}
			}
		}
		if n == 1 {
			return fn
		}
	}
	return nil
}

func (ef *Effects) call(e *Eff, c *ssa.CallCommon) {
	// pointers to local variables passed to anything: conservatively written
	for _, a := range c.Args {
		ef.argEff(e, a)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			e.alloc = true
			e.addElem(c.Args[0].Type().Underlying().(*types.Slice).Elem())
		case "copy":
			e.addElem(c.Args[0].Type().Underlying().(*types.Slice).Elem())
			if base, _ := addrRoot(sliceBase(c.Args[0])); base != nil {
				if a, ok := base.(*ssa.Alloc); ok {
					e.cells[a] = true
				}
			}
		case "delete":
			e.addMap(c.Args[0].Type())
		}
		return
	}
	f := ef.callee(c)
	if f == nil {
		// unknown function value: assume it may run any closure created here
		if c.IsInvoke() {
			return
		}
		for _, fn := range ef.closuresIn(c.Value.Parent()) {
			ef.closureEff(e, fn)
		}
		return
	}
	key := funcKey(f)
	if con := ef.specs.funcs[key]; con != nil && con.Kind == "extern" {
		for _, m := range con.ModSrc {
			ef.externMod(e, m, f)
		}
		if con.Options["alloc"] != "" {
			e.alloc = true
		}
		for _, r := range []int{0} {
			_ = r
			res := f.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				if s, ok := res.At(i).Type().Underlying().(*types.Slice); ok {
					e.alloc = true
					e.addElem(s.Elem())
				}
			}
		}
		return
	}
	if ef.p.inRepo(f) {
		if f.Parent() != nil {
			ef.closureEff(e, f)
			return
		}
		e.merge(ef.ofFunc(f), false)
		// functions passed as arguments may be called
		for _, a := range c.Args {
			if m, ok := a.(*ssa.MakeClosure); ok {
				ef.closureEff(e, m.Fn.(*ssa.Function))
			}
		}
		return
	}
	// external without contract: may run closures passed to it, may write slices passed to it
	for _, a := range c.Args {
		if m, ok := a.(*ssa.MakeClosure); ok {
			ef.closureEff(e, m.Fn.(*ssa.Function))
		}
	}
	switch key {
	case "sort.Slice", "sort.SliceStable":
		if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
			if s, ok := mi.X.Type().Underlying().(*types.Slice); ok {
				e.addElem(s.Elem())
			}
		}
	case "sort.Ints":
		e.addElem(types.Typ[types.Int])
	case "sort.Strings":
		e.addElem(types.Typ[types.String])
	case "sort.Sort", "sort.Stable":
		if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
			if s, ok := mi.X.Type().Underlying().(*types.Slice); ok {
				e.addElem(s.Elem())
			}
		}
	case "unicode/utf8.EncodeRune", "encoding/binary.bigEndian.PutUint32", "encoding/binary.littleEndian.PutUint32",
		"encoding/binary.bigEndian.PutUint16", "encoding/binary.bigEndian.PutUint64":
		e.addElem(types.Typ[types.Uint8])
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if s, ok := res.At(i).Type().Underlying().(*types.Slice); ok {
			e.alloc = true
			e.addElem(s.Elem())
		}
	}
}

func (ef *Effects) externMod(e *Eff, m string, f *ssa.Function) {
	m = strings.TrimSpace(m)
	if strings.HasPrefix(m, "elems(") {
		// elems(p): elements of slice parameter p
		name := strings.TrimSuffix(strings.TrimPrefix(m, "elems("), ")")
		con := ef.specs.funcs[funcKey(f)]
		for i, pn := range con.Params {
			if pn == name {
				sig := f.Signature
				k := i
				if sig.Recv() != nil {
					k--
				}
				if k >= 0 && k < sig.Params().Len() {
					if s, ok := sig.Params().At(k).Type().Underlying().(*types.Slice); ok {
						e.addElem(s.Elem())
					}
				}
			}
		}
	}
}

func sliceBase(v ssa.Value) ssa.Value {
	if s, ok := v.(*ssa.Slice); ok {
		return s.X
	}
	return v
}

// argEff marks local variables whose address is passed to a call as written.
func (ef *Effects) argEff(e *Eff, a ssa.Value) {
	if mi, ok := a.(*ssa.MakeInterface); ok {
		a = mi.X
	}
	if s, ok := a.(*ssa.Slice); ok {
		// varargs: look at what was stored into the array
		if al, ok := s.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
							if st.Val != a {
								ef.argEff(e, st.Val)
							}
						}
					}
				}
			}
		}
		return
	}
	if _, ok := a.Type().Underlying().(*types.Pointer); !ok {
		return
	}
	base, _ := addrRoot(a)
	switch b := base.(type) {
	case *ssa.Alloc:
		if !ef.heapObj(b) {
			e.cells[b] = true
		}
	case *ssa.FreeVar:
		e.free[b] = true
	case *ssa.IndexAddr:
		e.addElem(b.X.Type().Underlying().(*types.Slice).Elem())
	case *ssa.UnOp:
		// pointer variable (e.g. a *T parameter passed on)
		if t := derefT(a.Type()); !isStructT(t) {
			e.ptrs[typeKey(t)] = true
			// a field holding a special object (re.once): no modelled state
		}
	}
}

func (ef *Effects) closuresIn(f *ssa.Function) []*ssa.Function {
	if f == nil {
		return nil
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	var out []*ssa.Function
	var rec func(g *ssa.Function)
	rec = func(g *ssa.Function) {
		for _, a := range g.AnonFuncs {
			out = append(out, a)
			rec(a)
		}
	}
	rec(f)
	return out
}

// closureEff adds the effects of running closure fn: heap effects, and writes
// to captured variables mapped back to the variables of the enclosing function.
func (ef *Effects) closureEff(e *Eff, fn *ssa.Function) {
	ce := ef.ofFunc(fn)
	e.merge(ce, false)
	for fv := range ce.free {
		ef.bindFree(e, fn, fv)
	}
}

func (ef *Effects) bindFree(e *Eff, fn *ssa.Function, fv *ssa.FreeVar) {
	idx := -1
	for i, v := range fn.FreeVars {
		if v == fv {
			idx = i
		}
	}
	if idx < 0 || fn.Parent() == nil {
		return
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == fn {
				switch bv := m.Bindings[idx].(type) {
				case *ssa.Alloc:
					e.cells[bv] = true
				case *ssa.FreeVar:
					e.free[bv] = true
				}
			}
		}
	}
}

// ofBlocks returns the effects of a set of blocks.
func (ef *Effects) ofBlocks(bs map[*ssa.BasicBlock]bool) *Eff {
	e := newEff()
	for b := range bs {
		for _, in := range b.Instrs {
			ef.instr(e, in)
		}
	}
	return e
}

// scc groups: functions reachable from each other through static calls.
func (ef *Effects) recursive(f *ssa.Function) map[*ssa.Function]bool {
	reach := func(from *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		var rec func(g *ssa.Function)
		rec = func(g *ssa.Function) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					var c *ssa.CallCommon
					switch in := in.(type) {
					case *ssa.Call:
						c = &in.Call
					case *ssa.MakeClosure:
						h := in.Fn.(*ssa.Function)
						if !seen[h] {
							seen[h] = true
							rec(h)
						}
						continue
					default:
						continue
					}
					h := ef.callee(c)
					if h != nil && ef.p.inRepo(h) && !seen[h] {
						seen[h] = true
						rec(h)
					}
				}
			}
		}
		rec(from)
		return seen
	}
	out := map[*ssa.Function]bool{}
	r := reach(f)
	for g := range r {
		if g == f || reach(g)[f] {
			out[g] = true
		}
	}
	return out
}
