package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (f *Frame) call(st *State, in *ssa.Call, pos token.Pos) {
	x := f.x
	c := &in.Call
	if b, ok := c.Value.(*ssa.Builtin); ok {
		st.regs[in] = f.builtin(st, b.Name(), in, pos)
		return
	}
	if c.IsInvoke() {
		f.invoke(st, in, pos)
		return
	}
	var clo *Closure
	fn := c.StaticCallee()
	if fn == nil {
		v := f.val(st, c.Value)
		if v.C == nil {
			x.fail("%s: call of unknown function value", f.fn.Name())
		}
		clo = v.C
		fn = v.C.fn
	} else if m, ok := c.Value.(*ssa.MakeClosure); ok {
		clo = f.val(st, m).C
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, f.val(st, a))
	}
	r := f.invokeFn(st, fn, clo, args, c.Args, pos)
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
	case 1:
		st.regs[in] = r[0]
	default:
		st.regs[in] = Val{El: r}
	}
}

func (f *Frame) invoke(st *State, in *ssa.Call, pos token.Pos) {
	x := f.x
	sig := in.Call.Signature()
	x.trusted["interface method "+in.Call.Method.FullName()+": arbitrary result, no effect"] = true
	var vs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := x.fresh("iv", x.sortOf(t))
		x.wf(st, v, t)
		vs = append(vs, tv(v))
	}
	if len(vs) == 1 {
		st.regs[in] = vs[0]
	} else if len(vs) > 1 {
		st.regs[in] = Val{El: vs}
	}
}

// invokeFn performs a call of fn; it returns the results.
func (f *Frame) invokeFn(st *State, fn *ssa.Function, clo *Closure, args []Val, argVals []ssa.Value, pos token.Pos) []Val {
	x := f.x
	key := funcKey(fn)
	if r, ok := f.native(st, key, fn, args, argVals, pos); ok {
		return r
	}
	con := x.specs.funcs[key]
	if con != nil && (con.Kind == "func" || con.Kind == "extern") {
		return f.applyContract(st, con, fn, args, pos)
	}
	if x.prog.inRepo(fn) {
		return f.inline(st, con, fn, clo, args, pos)
	}
	if con == nil {
		for _, t := range paramTypes(fn) {
			switch t.Underlying().(type) {
			case *types.Slice, *types.Map, *types.Pointer, *types.Signature, *types.Chan:
				x.fail("call of %s: no contract, and it could write what it is given", key)
			}
		}
		x.trusted["external function "+key+": arbitrary result, no effect on modelled memory"] = true
	}
	f.escapeArgs(st, args)
	return x.havocResults(st, fn.Signature, key)
}

// escapeArgs forgets local variables whose address is passed to unknown code.
func (f *Frame) escapeArgs(st *State, args []Val) {
	var rec func(v Val)
	rec = func(v Val) {
		if v.P != nil && v.P.Kind == pCell {
			st.cells[v.P.Cell] = f.x.havocVal(st, v.P.Cell.typ, v.P.Cell.name, st.cells[v.P.Cell])
		}
		if v.AS != nil {
			if av, _, err := f.x.load(st, v.AS); err == nil {
				for _, e := range av.El {
					rec(e)
				}
			}
		}
		if v.T != nil && v.P == nil {
			for _, e := range v.El {
				rec(e)
			}
		}
	}
	for _, a := range args {
		rec(a)
	}
}

func (x *Ctx) havocResults(st *State, sig *types.Signature, key string) []Val {
	var vs []Val
	hasSlice := false
	for i := 0; i < sig.Results().Len(); i++ {
		if x.sortOf(sig.Results().At(i).Type()) == "Slice" {
			hasSlice = true
		}
	}
	if hasSlice {
		x.moreAlloc(st, newEff())
	}
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if p, ok := t.Underlying().(*types.Pointer); ok && !isStructT(p.Elem()) && specialSort(p.Elem()) == "" {
			vs = append(vs, Val{Bad: "result of " + key})
			continue
		}
		v := x.fresh("ret", x.sortOf(t))
		x.wf(st, v, t)
		vs = append(vs, tv(v))
	}
	return vs
}

// ---- inlining ----

func (f *Frame) inline(st *State, con *Contract, fn *ssa.Function, clo *Closure, args []Val, pos token.Pos) []Val {
	x := f.x
	d := 0
	for g := f; g != nil; g = g.caller {
		if g.fn == fn {
			x.fail("recursive call of %s, which has no contract", fn.Name())
		}
		d++
	}
	if d > 12 {
		x.fail("inlining too deep at %s", fn.Name())
	}
	x.inlined[funcKey(fn)] = true
	nf := x.newFrame(fn, con)
	nf.caller = f
	nf.depth = f.depth + 1
	if n, ok := f.slots[pos]; ok {
		f.hostLoops(nf, n, pos)
	}
	in := st.clone()
	nf.entry = in.clone()
	for i, p := range fn.Params {
		v := args[i]
		if v.AS != nil {
			t, err := x.materialize(in, v, p.Type())
			f.chk(err, pos)
			v = tv(t)
		}
		in.regs[p] = v
		name := p.Name()
		nf.params[name] = SVal{v, p.Type()}
		if con != nil && i < len(con.Params) {
			nf.params[con.Params[i]] = SVal{v, p.Type()}
			nf.alias[con.Params[i]] = name
		}
	}
	if clo != nil {
		for i, fv := range fn.FreeVars {
			nf.free[fv] = clo.bind[i]
		}
	}
	nf.run(nil, fn.Blocks[0], in)
	if len(nf.rets) == 0 {
		st.pc = tFalse
		return x.havocResults(&State{pc: tFalse, next: st.next}, fn.Signature, "")
	}
	var sts []*State
	for _, r := range nf.rets {
		sts = append(sts, r.st)
	}
	nres := fn.Signature.Results().Len()
	// carry results in a pseudo register merge
	var res []Val
	var lastLive = -1
	for i, r := range nf.rets {
		if !isFalse(r.st.pc) {
			lastLive = i
		}
	}
	if lastLive < 0 {
		st.pc = tFalse
		return x.havocResults(&State{pc: tFalse, next: st.next}, fn.Signature, "")
	}
	for k := 0; k < nres; k++ {
		v := nf.rets[lastLive].vals[k]
		for i := lastLive - 1; i >= 0; i-- {
			r := nf.rets[i]
			if isFalse(r.st.pc) {
				continue
			}
			v = x.mergeVal(r.st.pc, r.vals[k], v, "ret")
		}
		res = append(res, v)
	}
	m := x.merge(sts)
	// drop callee-local registers and variables
	m2 := m.clone()
	for v := range m2.regs {
		if in, ok := v.(ssa.Instruction); ok && in.Parent() == fn {
			delete(m2.regs, v)
		}
	}
	for _, c := range nf.cells {
		if !cellEscapes(res, c) {
			delete(m2.cells, c)
		}
	}
	*st = *m2
	return res
}

func cellEscapes(vs []Val, c *Cell) bool {
	for _, v := range vs {
		if v.P != nil && v.P.Cell == c || v.AS != nil && v.AS.Cell == c || cellEscapes(v.El, c) {
			return true
		}
		if v.C != nil && cellEscapes(v.C.bind, c) {
			return true
		}
	}
	return false
}

// ---- contracts ----

type modTarget struct {
	comp string
	ref  *Term // nil: the whole component
}

// modTargets evaluates a modifies clause in env (the pre-state).
func (x *Ctx) modTargets(env *Env, e *Expr) (out []modTarget, err error) {
	pure, inQuant := x.pure, x.inQuant
	defer func() {
		if r := recover(); r != nil {
			x.pure, x.inQuant = pure, inQuant
			if ee, ok := r.(evalError); ok {
				err = fmt.Errorf("%s", ee.msg)
				return
			}
			panic(r)
		}
	}()
	if e.Kind == "star" {
		return nil, nil // variable behind a pointer parameter: tracked separately
	}
	if e.Kind == "field" {
		v := env.eval(e.A[0])
		p, ok := v.Typ.Underlying().(*types.Pointer)
		if !ok {
			return nil, fmt.Errorf("modifies: %s is not a pointer", e.A[0].S)
		}
		i := fieldIndex(p.Elem().Underlying().(*types.Struct), e.S)
		if i < 0 {
			return nil, fmt.Errorf("modifies: no field %s", e.S)
		}
		return []modTarget{{x.fieldC(p.Elem(), i), env.term(v)}}, nil
	}
	if e.Kind == "call" && e.A[0].Kind == "id" {
		a := e.A[1]
		switch e.A[0].S {
		case "when": // when(cond, target): written only if cond holds
			c := env.term(env.eval(a))
			ts, err := x.modTargets(env, e.A[2])
			if err != nil {
				return nil, err
			}
			for _, t := range ts {
				if t.ref == nil {
					return nil, fmt.Errorf("when needs an object")
				}
				out = append(out, modTarget{t.comp, ite(c, t.ref, num(0))})
			}
			return out, nil
		case "all":
			v := env.eval(a)
			p := v.Typ.Underlying().(*types.Pointer)
			st := p.Elem().Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				out = append(out, modTarget{x.fieldC(p.Elem(), i), env.term(v)})
			}
			return out, nil
		case "elems":
			v := env.eval(a)
			return []modTarget{{x.elemC(v.Typ.Underlying().(*types.Slice).Elem()), slRef(env.term(v))}}, nil
		case "map":
			v := env.eval(a)
			d, vv := x.mapC(v.Typ)
			t := env.term(v)
			return []modTarget{{d, t}, {vv, t}}, nil
		case "global":
			n := exprType(a)
			if !strings.Contains(n, ".") {
				n = env.pkg + "." + n
			}
			i := strings.IndexByte(n, '.')
			o, ok := x.prog.pkgs[n[:i]].Pkg.Scope().Lookup(n[i+1:]).(*types.Var)
			if !ok {
				return nil, fmt.Errorf("no variable %s", n)
			}
			x.comps["G:"+n] = x.sortOf(o.Type())
			return []modTarget{{"G:" + n, nil}}, nil
		case "any": // any(T.f) or anyelems([]T)
			n := exprType(a)
			i := strings.LastIndexByte(n, '.')
			t, err := x.resolveType(n[:i], env.pkg)
			if err != nil {
				return nil, err
			}
			k := fieldIndex(t.Underlying().(*types.Struct), n[i+1:])
			return []modTarget{{x.fieldC(t, k), nil}}, nil
		case "anyelems":
			t, err := x.resolveType(exprType(a), env.pkg)
			if err != nil {
				return nil, err
			}
			return []modTarget{{x.elemC(t), nil}}, nil
		}
	}
	return nil, fmt.Errorf("bad modifies clause")
}

func resultNames(con *Contract, n int) []string {
	if len(con.Results) == n {
		return con.Results
	}
	var out []string
	for i := 0; i < n; i++ {
		if n == 1 {
			out = append(out, "result")
		} else {
			out = append(out, fmt.Sprintf("r%d", i))
		}
	}
	return out
}

func paramTypes(fn *ssa.Function) []types.Type {
	var out []types.Type
	if r := fn.Signature.Recv(); r != nil {
		out = append(out, r.Type())
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		out = append(out, fn.Signature.Params().At(i).Type())
	}
	return out
}

func (f *Frame) applyContract(st *State, con *Contract, fn *ssa.Function, args []Val, pos token.Pos) []Val {
	x := f.x
	x.called[con.Key] = true
	if con.Kind == "extern" {
		x.trusted["assumed contract: "+con.Key] = true
	}
	pts := paramTypes(fn)
	if len(fn.Params) > 0 && fn.Parent() != nil {
		pts = nil
		for _, p := range fn.Params {
			pts = append(pts, p.Type())
		}
	}
	pkg := con.Pkg
	if len(con.Params) != len(pts) {
		x.fail("contract of %s has %d parameters, the function has %d", con.Key, len(con.Params), len(pts))
	}
	names := map[string]SVal{}
	for i, p := range con.Params {
		v := args[i]
		if v.AS != nil {
			t, err := x.materialize(st, v, pts[i])
			f.chk(err, pos)
			v = tv(t)
		}
		if v.C == nil && v.T == nil && v.El == nil && v.P != nil && isStructT(derefT(pts[i])) {
			// pointer to a struct: must be a heap object
			if !(v.P.Kind == pObj && len(v.P.Path) == 0) {
				x.fail("%s: interior pointer passed to %s", f.fn.Name(), con.Key)
			}
			v = tv(v.P.Ref)
		}
		if v.El != nil && v.T == nil {
			if t, err := x.termOf(st, v, pts[i]); err == nil {
				v = tv(t)
			}
		}
		names[p] = SVal{v, pts[i]}
	}
	pre := st.clone()
	env := &Env{x: x, pkg: pkg, names: names, st: pre, old: pre, next0: pre.next}
	short := con.Key[strings.LastIndexByte(con.Key, '/')+1:]
	for _, r := range con.Requires {
		t, err := env.evalBool(r.E)
		lab := short
		if r.Label != "" {
			lab += "." + r.Label
		}
		if err != nil {
			x.oblige(st, "contract", lab, r.Src+": "+err.Error(), pos, tFalse, nil)
			continue
		}
		x.oblige(st, "requires", lab, r.Src, pos, t, r.Props)
	}
	// recursion
	if x.recGroup[con.Key] && len(x.decEntry) > 0 {
		var d []*Term
		for _, e := range con.Dec {
			t, _, err := env.evalTerm(e)
			if err != nil {
				x.oblige(st, "contract", short, "decreases: "+err.Error(), pos, tFalse, nil)
				t = num(0)
			}
			d = append(d, t)
		}
		if len(d) == len(x.decEntry) {
			x.oblige(st, "decreases", "call-"+short, "recursion measure decreases", pos, lexLess(d, x.decEntry), nil)
		}
	}
	// effects
	mods := map[string][]*Term{}
	all := map[string]bool{}
	for _, m := range con.Modifies {
		if con.Kind == "extern" && m.Kind == "star" {
			continue
		}
		ts, err := x.modTargets(env, m)
		if err != nil {
			x.oblige(st, "contract", short, "modifies: "+err.Error(), pos, tFalse, nil)
			continue
		}
		for _, t := range ts {
			if t.ref == nil {
				all[t.comp] = true
			} else {
				mods[t.comp] = append(mods[t.comp], t.ref)
			}
		}
	}
	var eff *Eff
	if con.Kind == "extern" {
		eff = newEff()
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if s, ok := fn.Signature.Results().At(i).Type().Underlying().(*types.Slice); ok {
				eff.alloc = true
				eff.addElem(s.Elem())
			}
		}
		for c := range mods {
			eff.comps[c] = effDesc{'X', nil, 0, ""}
		}
		if con.Options["alloc"] != "" {
			eff.alloc = true
		}
	} else {
		eff = x.effects.ofFunc(fn)
	}
	if eff.alloc {
		x.moreAlloc(st, eff)
	}
	comps := map[string]bool{}
	for _, name := range sortedKeys(eff.comps) {
		d := eff.comps[name]
		if d.kind != 'X' {
			name = x.reg(name, d)
		}
		comps[name] = true
	}
	for c := range all {
		comps[c] = true
	}
	for c := range mods {
		comps[c] = true
	}
	for _, name := range sortedKeys(comps) {
		if strings.HasPrefix(name, "G:") && !all[name] {
			continue // the callee's frame obligations show it is not written
		}
		if all[name] {
			x.checkWrite(st, name, nil, pos)
			n := x.freshComp(name)
			st.heap[name] = n
			continue
		}
		for _, r := range mods[name] {
			x.checkWrite(st, name, r, pos)
		}
		// What the callee puts into memory it allocates is what that memory
		// held all along: nothing is known about it before.
		h := x.heapGet(pre, name)
		_, vs := arrayParts(x.compSort(name))
		for _, r := range mods[name] {
			h = store(h, r, x.fresh("upd", vs))
		}
		if len(mods[name]) > 0 {
			h = x.def("H", h)
		}
		st.heap[name] = h
	}
	// variables behind pointer parameters
	for i, v := range args {
		if v.P == nil {
			continue
		}
		tk := typeKey(derefT(pts[i]))
		written := eff.ptrs[tk]
		if con.Kind == "extern" {
			written = false
			for _, m := range con.Modifies {
				if m.Kind == "star" && m.A[0].S == con.Params[i] {
					written = true
				}
			}
		}
		if !written {
			continue
		}
		switch v.P.Kind {
		case pCell:
			if len(v.P.Path) == 0 {
				st.cells[v.P.Cell] = x.havocVal(st, v.P.Cell.typ, v.P.Cell.name, st.cells[v.P.Cell])
			} else {
				nv := x.fresh("upd", x.sortOf(derefT(pts[i])))
				f.chk(x.storeTo(st, v.P, tv(nv), pos), pos)
			}
		case pObj:
			if len(v.P.Path) > 0 {
				nv := x.fresh("upd", x.sortOf(derefT(pts[i])))
				f.chk(x.storeTo(st, v.P, tv(nv), pos), pos)
			}
		default:
			nv := x.fresh("upd", x.sortOf(derefT(pts[i])))
			f.chk(x.storeTo(st, v.P, tv(nv), pos), pos)
		}
	}
	// results
	res := fn.Signature.Results()
	var out []Val
	rn := resultNames(con, res.Len())
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		v := x.fresh("ret_"+fn.Name(), x.sortOf(t))
		x.wf(st, v, t)
		if _, ok := t.Underlying().(*types.Slice); ok {
			v = mkSlice(mk("sref", "Int", v), mk("soff", "Int", v), mk("slcn", "Int", v), mk("scap", "Int", v))
		}
		out = append(out, tv(v))
		names[rn[i]] = SVal{tv(v), t}
	}
	post := &Env{x: x, pkg: pkg, names: names, st: st, old: pre, next0: pre.next}
	for _, e := range con.Ensures {
		t, err := post.evalBool(e.E)
		if err != nil {
			x.oblige(st, "contract", short, e.Src+": "+err.Error(), pos, tFalse, e.Props)
			continue
		}
		x.assumeFor(st, t, e.Props)
	}
	if con.Options["noreturn"] != "" {
		st.pc = tFalse
	}
	return out
}

// ---- builtins ----

func (f *Frame) builtin(st *State, name string, in *ssa.Call, pos token.Pos) Val {
	x := f.x
	a := in.Call.Args
	switch name {
	case "len":
		v := f.val(st, a[0])
		switch u := a[0].Type().Underlying().(type) {
		case *types.Basic:
			t := f.term(st, a[0])
			x.slenFact(st, t)
			return tv(x.slen(t))
		case *types.Slice:
			if v.AS != nil {
				at := pathType(v.AS.Cell.typ, v.AS.Path).Underlying().(*types.Array)
				return tv(num(at.Len()))
			}
			return tv(x.knownOr(slLen(f.term(st, a[0]))))
		case *types.Array:
			return tv(num(u.Len()))
		case *types.Pointer:
			return tv(num(u.Elem().Underlying().(*types.Array).Len()))
		case *types.Map:
			dc, _ := x.mapC(a[0].Type())
			d := sel(x.heapGet(st, dc), f.term(st, a[0]))
			fn := sym("mlen:" + d.Sort)
			if !x.logicUsed[fn] {
				x.logicUsed[fn] = true
				x.logicDecls = append(x.logicDecls, "(declare-fun "+fn+" ("+d.Sort+") Int)")
			}
			t := x.def("mlen", mk(fn, "Int", d))
			x.assume(st, le(num(0), t))
			return tv(t)
		}
	case "cap":
		return tv(slCap(f.term(st, a[0])))
	case "append":
		return tv(f.appendOp(st, in, pos))
	case "copy":
		return tv(f.copyOp(st, in, pos))
	case "delete":
		m, k := f.term(st, a[0]), f.term(st, a[1])
		dc, _ := x.mapC(a[0].Type())
		x.checkWrite(st, dc, m, pos)
		d := x.heapGet(st, dc)
		st.heap[dc] = x.def("D", store(d, m, store(sel(d, m), k, tFalse)))
		return Val{Bad: "delete"}
	case "print", "println":
		return Val{Bad: name}
	case "min", "max":
		r := f.term(st, a[0])
		for _, b := range a[1:] {
			t := f.term(st, b)
			if name == "min" {
				r = ite(le(r, t), r, t)
			} else {
				r = ite(le(t, r), r, t)
			}
		}
		return tv(x.def(name, r))
	case "ssa:deferstack":
		return Val{Bad: "defer stack"}
	case "ssa:wrapnilchk":
		return f.val(st, a[0])
	}
	x.fail("%s: unsupported builtin %s", f.fn.Name(), name)
	return Val{}
}

func (x *Ctx) slenFact(st *State, t *Term) {}

func (f *Frame) qv(hint string) *Term {
	f.x.qn++
	return mk(sym(fmt.Sprintf("%s!a%d", hint, f.x.qn)), "Int")
}

func (f *Frame) appendOp(st *State, in *ssa.Call, pos token.Pos) *Term {
	x := f.x
	a := in.Call.Args
	el := in.Type().Underlying().(*types.Slice).Elem()
	s := f.term(st, a[0])
	comp := x.elemC(el)
	ref, off, ln, cp := x.def("ar", slRef(s)), slOff(s), slLen(s), slCap(s)
	bv := f.val(st, a[1])
	m := x.heapGet(st, comp)
	arr := sel(m, ref)
	var n *Term
	var arr2 *Term
	switch {
	case bv.AS != nil:
		av, _, err := x.load(st, bv.AS)
		f.chk(err, pos)
		if av.El == nil && av.T != nil {
			at := pathType(bv.AS.Cell.typ, bv.AS.Path)
			for i := 0; i < int(at.Underlying().(*types.Array).Len()); i++ {
				av.El = append(av.El, tv(x.arrSel(at, av.T, i)))
			}
		}
		n = num(int64(len(av.El)))
		if len(av.El) > 64 {
			x.fail("append of many elements")
		}
		for i, e := range av.El {
			et, err := x.termOf(st, e, el)
			f.chk(err, pos)
			arr = store(arr, add(add(off, ln), num(int64(i))), et)
		}
		m = x.heapGet(st, comp)
		arr2 = arr
	case isString(a[1].Type()):
		t := f.term(st, a[1])
		n = x.slen(t)
		if lit, ok := x.litOf(t); ok && len(lit) <= 32 {
			arr2 = arr
			for i := 0; i < len(lit); i++ {
				arr2 = store(arr2, add(add(off, ln), num(int64(i))), num(int64(lit[i])))
			}
			break
		}
		_, as := arrayParts(m.Sort)
		arr2 = x.fresh("app", as)
		i := f.qv("i")
		x.appendFacts(st, arr2, arr, off, ln, n, func(k *Term) *Term { return x.sat(t, k) }, i)
	default:
		t := f.term(st, a[1])
		n = slLen(t)
		if k, ok := isNum(n); ok && k <= 8 {
			src := sel(m, slRef(t))
			arr2 = arr
			for i := int64(0); i < k; i++ {
				arr2 = store(arr2, add(add(off, ln), num(i)), at(src, slOff(t), num(i)))
			}
			break
		}
		_, as := arrayParts(m.Sort)
		arr2 = x.fresh("app", as)
		i := f.qv("i")
		src := x.def("src", sel(m, slRef(t)))
		srcAt := func(k *Term) *Term { return at(src, slOff(t), k) }
		x.appendFacts(st, arr2, arr, off, ln, n, srcAt, i)
		j := f.qv("j")
		x.assume(st, forall([]qvar{{j.Op, "Int"}}, implies(and(le(num(0), j), lt(j, n)), eq(at(arr2, off, add(ln, j)), srcAt(j))), []*Term{srcAt(j)}))
	}
	nl := x.def("nl", add(ln, n))
	x.assumeSmall(st, nl)
	fits := x.def("fits", le(nl, cp))
	x.checkWrite(&State{pc: and(st.pc, fits, lt(num(0), n)), cells: st.cells, heap: st.heap, next: st.next, regs: st.regs}, comp, ref, pos)
	nr := x.alloc(st, a[0].Type())
	tgt := x.def("tgt", ite(fits, ref, nr))
	nc := x.fresh("cap", "Int")
	x.assume(st, ite(fits, eq(nc, cp), ge(nc, nl)))
	st.heap[comp] = x.def("M", store(m, tgt, arr2))
	return mkSlice(tgt, off, nl, nc)
}

// assumeSmall is the effect of option small on a slice of n elements.
func (x *Ctx) assumeSmall(st *State, n *Term) {
	if x.con != nil && x.con.Options["small"] != "" {
		x.assume(st, lt(n, num(2147483647)))
		x.trusted[x.name+": slices built there have fewer than 2^31-1 elements ("+x.con.Options["small"]+")"] = true
	}
}

// appendFacts states the contents of arr2: arr with n elements written at off+ln.
func (x *Ctx) appendFacts(st *State, arr2, arr, off, ln, n *Term, src func(*Term) *Term, i *Term) {
	q := []qvar{{i.Op, "Int"}}
	x.assume(st, forall(q, eq(at(arr2, off, i), ite(and(le(ln, i), lt(i, add(ln, n))), src(sub(i, ln)), at(arr, off, i))), []*Term{at(arr2, off, i)}))
	x.assume(st, forall(q, implies(or(lt(i, add(off, ln)), le(add(add(off, ln), n), i)), eq(sel(arr2, i), sel(arr, i))), []*Term{sel(arr2, i)}))
}

func (f *Frame) copyOp(st *State, in *ssa.Call, pos token.Pos) *Term {
	x := f.x
	a := in.Call.Args
	dt := a[0].Type().Underlying().(*types.Slice)
	dv := f.val(st, a[0])
	comp := x.elemC(dt.Elem())
	m := x.heapGet(st, comp)
	var sn *Term
	var srcAt func(i *Term) *Term
	if isString(a[1].Type()) {
		t := f.term(st, a[1])
		sn = x.slen(t)
		srcAt = func(i *Term) *Term { return x.sat(t, i) }
	} else {
		t := f.term(st, a[1])
		sn = slLen(t)
		m = x.heapGet(st, comp)
		src := x.def("src", sel(m, slRef(t)))
		srcAt = func(i *Term) *Term { return at(src, slOff(t), i) }
	}
	if dv.AS != nil {
		av, _, err := x.load(st, dv.AS)
		f.chk(err, pos)
		el := make([]Val, len(av.El))
		for i := range el {
			o, err := x.termOf(st, av.El[i], dt.Elem())
			f.chk(err, pos)
			el[i] = tv(x.def("cp", ite(lt(num(int64(i)), sn), srcAt(num(int64(i))), o)))
		}
		f.chk(x.storeTo(st, dv.AS, Val{El: el}, pos), pos)
		k := num(int64(len(el)))
		return x.def("n", ite(le(sn, k), sn, k))
	}
	d := f.term(st, a[0])
	n := x.def("n", ite(le(sn, slLen(d)), sn, slLen(d)))
	x.checkWrite(&State{pc: and(st.pc, lt(num(0), n)), cells: st.cells, heap: st.heap, next: st.next, regs: st.regs}, comp, slRef(d), pos)
	arr := sel(m, slRef(d))
	_, as := arrayParts(m.Sort)
	arr2 := x.fresh("cpy", as)
	i := f.qv("i")
	x.assume(st, forall([]qvar{{i.Op, "Int"}}, eq(at(arr2, slOff(d), i), ite(and(le(num(0), i), lt(i, n)), srcAt(i), at(arr, slOff(d), i))), []*Term{at(arr2, slOff(d), i)}))
	x.assume(st, forall([]qvar{{i.Op, "Int"}}, implies(or(lt(i, slOff(d)), le(add(slOff(d), n), i)), eq(sel(arr2, i), sel(arr, i))), []*Term{sel(arr2, i)}))
	st.heap[comp] = x.def("M", store(m, slRef(d), arr2))
	return n
}

// ---- native models of library functions ----

func (f *Frame) native(st *State, key string, fn *ssa.Function, args []Val, av []ssa.Value, pos token.Pos) ([]Val, bool) {
	x := f.x
	pts := paramTypes(fn)
	term := func(i int) *Term {
		t, err := x.termOf(st, args[i], pts[i])
		f.chk(err, pos)
		return t
	}
	builder := func() (*Term, bool) {
		v, err := x.loadVal(st, args[0], derefT(pts[0]))
		if err != nil || v.T == nil {
			return nil, false
		}
		return v.T, true
	}
	setb := func(t *Term) {
		p, err := x.ptrOf(args[0], derefT(pts[0]))
		f.chk(err, pos)
		f.chk(x.storeTo(st, p, tv(x.def("b", t)), pos), pos)
	}
	switch key {
	case "strings.Builder.WriteString":
		b, ok := builder()
		if !ok {
			return nil, false
		}
		s := term(1)
		setb(x.scat(b, s))
		return []Val{tv(x.slen(s)), tv(num(0))}, true
	case "strings.Builder.WriteByte":
		b, ok := builder()
		if !ok {
			return nil, false
		}
		if n, ok := isNum(term(1)); ok && 0 <= n && n < 128 {
			// a byte of ASCII is also a character
			x.useStr["runestr"] = true
			setb(x.scat(b, mk("runestr", "Str", term(1))))
			return []Val{tv(num(0))}, true
		}
		x.useStr["bytestr"] = true
		setb(x.scat(b, mk("bytestr", "Str", term(1))))
		return []Val{tv(num(0))}, true
	case "strings.Builder.WriteRune":
		b, ok := builder()
		if !ok {
			return nil, false
		}
		x.useStr["runestr"] = true
		r := mk("runestr", "Str", term(1))
		setb(x.scat(b, r))
		return []Val{tv(x.slen(r)), tv(num(0))}, true
	case "strings.Builder.String":
		b, ok := builder()
		if !ok {
			return nil, false
		}
		return []Val{tv(b)}, true
	case "strings.Builder.Len":
		b, ok := builder()
		if !ok {
			return nil, false
		}
		return []Val{tv(x.slen(b))}, true
	case "strings.Builder.Reset":
		setb(x.strLit(""))
		return nil, true
	case "strings.Builder.Grow":
		return nil, true
	case "sort.Slice", "sort.SliceStable":
		return f.sortSlice(st, args, pos)
	case "sync.Once.Do":
		return f.onceDo(st, args, pos)
	}
	return nil, false
}

// onceDo models once.Do(g): afterwards g's contract holds (it ran now or earlier
// and nothing has undone its effect: assumed).
func (f *Frame) onceDo(st *State, args []Val, pos token.Pos) ([]Val, bool) {
	x := f.x
	if len(args) < 2 || args[1].C == nil {
		return nil, false
	}
	g := args[1].C.fn
	key := funcKey(g)
	con := x.specs.funcs[key]
	bind := args[1].C.bind
	if strings.HasSuffix(g.Name(), "$bound") && con == nil {
		// method value re.compile
		if len(g.FreeVars) == 1 {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok {
						if h := c.Call.StaticCallee(); h != nil {
							if hc := x.specs.funcs[funcKey(h)]; hc != nil && hc.Kind == "func" {
								x.trusted["sync.Once: after Do, the contract of "+hc.Key+" holds"] = true
								f.applyContract(st, hc, h, bind, pos)
								return nil, true
							}
						}
					}
				}
			}
		}
		return nil, false
	}
	if con == nil || con.Kind != "func" {
		x.fail("sync.Once.Do of a function without contract: %s", key)
	}
	x.trusted["sync.Once: after Do, the contract of "+key+" holds (proved for the first run; later calls rely on nothing undoing it)"] = true
	f.applyContract(st, con, g, nil, pos)
	return nil, true
}

func (f *Frame) sortSlice(st *State, args []Val, pos token.Pos) ([]Val, bool) {
	x := f.x
	if len(args) != 2 || args[1].C == nil || len(args[0].El) != 1 {
		return nil, false
	}
	inner := args[0].El[0]
	less := args[1].C
	// find the slice's type from the closure's captured variable or the value itself
	var s *Term
	if inner.T != nil {
		s = inner.T
	} else if inner.AS != nil {
		x.fail("sort of an array slice")
	}
	if s == nil || s.Sort != "Slice" {
		return nil, false
	}
	el := f.sortElem(less.fn)
	if el == nil {
		x.fail("sort.Slice: cannot determine the element type")
	}
	comp := x.elemC(el)
	m := x.heapGet(st, comp)
	ref, off, ln := slRef(s), slOff(s), slLen(s)
	x.checkWrite(&State{pc: and(st.pc, lt(num(1), ln)), cells: st.cells, heap: st.heap, next: st.next, regs: st.regs}, comp, ref, pos)
	_, as := arrayParts(m.Sort)
	old := x.def("old", sel(m, ref))
	arr := x.fresh("sorted", as)
	x.n++
	pf, qf := sym(fmt.Sprintf("perm!%d", x.n)), sym(fmt.Sprintf("perminv!%d", x.n))
	x.lines = append(x.lines, "(declare-fun "+pf+" (Int) Int)", "(declare-fun "+qf+" (Int) Int)")
	i, j := f.qv("i"), f.qv("j")
	in := func(k *Term) *Term { return and(le(num(0), k), lt(k, ln)) }
	P := func(k *Term) *Term { return mk(pf, "Int", k) }
	Q := func(k *Term) *Term { return mk(qf, "Int", k) }
	vi := []qvar{{i.Op, "Int"}}
	x.assume(st, forall(vi, implies(in(i), and(in(P(i)), eq(Q(P(i)), i), eq(at(arr, off, i), at(old, off, P(i))))), []*Term{P(i)}, []*Term{at(arr, off, i)}))
	x.assume(st, forall(vi, implies(in(i), and(in(Q(i)), eq(P(Q(i)), i), eq(at(arr, off, Q(i)), at(old, off, i)))), []*Term{Q(i)}, []*Term{at(old, off, i)}))
	x.assume(st, forall(vi, implies(or(lt(i, off), le(add(off, ln), i)), eq(sel(arr, i), sel(old, i))), []*Term{sel(arr, i)}))
	st.heap[comp] = x.def("M", store(m, ref, arr))
	// sortedness: no later element is less than an earlier one
	x.pure++
	ps := st.clone()
	ps.pc = tTrue
	x.inQuant++
	lt1 := f.pureCall(ps, less, []Val{tv(j), tv(i)})
	x.inQuant--
	x.pure--
	if lt1 == nil {
		x.fail("sort.Slice: comparison is not a pure expression")
	}
	x.assume(st, forall([]qvar{{i.Op, "Int"}, {j.Op, "Int"}}, implies(and(le(num(0), i), lt(i, j), lt(j, ln)), not(lt1)), []*Term{at(arr, off, i), at(arr, off, j)}))
	x.trusted["sort.Slice: sorts by the given strict weak ordering, permuting the elements"] = true
	return nil, true
}

// sortElem finds the element type indexed inside a less function.
func (f *Frame) sortElem(fn *ssa.Function) types.Type {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok {
				if s, ok := ia.X.Type().Underlying().(*types.Slice); ok {
					return s.Elem()
				}
			}
		}
	}
	return nil
}

// pureCall evaluates a closure to a term without emitting facts.
func (f *Frame) pureCall(st *State, c *Closure, args []Val) (t *Term) {
	pure, inQuant := f.x.pure, f.x.inQuant
	defer func() {
		if r := recover(); r != nil {
			f.x.pure, f.x.inQuant = pure, inQuant
			if _, ok := r.(execError); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	r := f.inline(st, nil, c.fn, c, args, token.NoPos)
	if len(r) != 1 || r[0].T == nil {
		return nil
	}
	return r[0].T
}

// ---- verification of one function ----

func (x *Ctx) symbolicParam(st *State, name string, t types.Type) Val {
	if p, ok := t.Underlying().(*types.Pointer); ok && (!isStructT(p.Elem())) {
		if specialSort(p.Elem()) == "" || specialSort(p.Elem()) == "Str" {
			c := &Cell{name: name, typ: p.Elem(), id: x.cellID()}
			v := x.fresh(name+"_target", x.sortOf(p.Elem()))
			x.wf(st, v, p.Elem())
			st.cells[c] = tv(v)
			x.ptrCells[name] = c
			return Val{P: &Ptr{Kind: pCell, Cell: c, Typ: p.Elem()}}
		}
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		return Val{Bad: "function parameter"}
	}
	v := x.fresh(name, x.sortOf(t))
	x.wf(st, v, t)
	if _, ok := t.Underlying().(*types.Slice); ok {
		return tv(mkSlice(x.def(name+".ref", mk("sref", "Int", v)), mk("soff", "Int", v), mk("slcn", "Int", v), mk("scap", "Int", v)))
	}
	return tv(v)
}

// verify generates the obligations of fn against con.
func (x *Ctx) verify(fn *ssa.Function, con *Contract) {
	x.fn, x.con = fn, con
	x.next0 = x.fresh("next0", "Int")
	x.fact(ge(x.next0, num(1)))
	st := x.newState()
	st.next = x.next0
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch e := r.(type) {
			case execError:
				msg = e.msg
			case evalError:
				msg = e.msg
			default:
				panic(r)
			}
			o := &Obl{Name: x.name + "/unsupported#1", Func: x.name, Kind: "unsupported", Src: msg, goal: tFalse, guard: tTrue, ctx: x, Status: "failed", Out: msg}
			x.obls = append(x.obls, o)
			x.errs = append(x.errs, msg)
		}
	}()
	for _, c := range append(append([]*Clause{}, con.Requires...), con.Ensures...) {
		if strings.Contains(c.Src, "treeInv()") && x.track == nil {
			t, err := x.resolveType("reSyntax", "match")
			if err != nil {
				x.fail("%v", err)
			}
			x.track = []types.Type{t}
		}
	}
	f := x.newFrame(fn, con)
	f.top = true
	if len(con.Params) != len(fn.Params) {
		x.fail("contract of %s has %d parameters, the function has %d", con.Key, len(con.Params), len(fn.Params))
	}
	for i, p := range fn.Params {
		v := x.symbolicParam(st, p.Name(), p.Type())
		st.regs[p] = v
		f.params[con.Params[i]] = SVal{v, p.Type()}
		if con.Params[i] != p.Name() {
			f.alias[con.Params[i]] = p.Name()
		}
	}
	for _, fv := range fn.FreeVars {
		t := derefT(fv.Type())
		c := &Cell{name: fv.Name(), typ: t, id: x.cellID()}
		v := x.fresh(fv.Name(), x.sortOf(t))
		x.wf(st, v, t)
		st.cells[c] = tv(v)
		f.free[fv] = Val{P: &Ptr{Kind: pCell, Cell: c, Typ: t}}
	}
	f.entry = st.clone()
	x.entry = f.entry
	env := &Env{x: x, pkg: con.Pkg, names: f.params, st: f.entry, old: f.entry, next0: x.next0}
	for _, m := range con.Modifies {
		ts, err := x.modTargets(env, m)
		if err != nil {
			x.fail("modifies: %v", err)
		}
		for _, t := range ts {
			if t.ref == nil {
				x.modAll[t.comp] = true
			} else {
				x.mods[t.comp] = append(x.mods[t.comp], t.ref)
			}
		}
	}
	for _, r := range con.Requires {
		t, err := env.evalBool(r.E)
		if err != nil {
			x.fail("requires %s: %v", r.Src, err)
		}
		x.assume(st, t)
	}
	for _, r := range con.Assumes {
		t, err := env.evalBool(r.E)
		if err != nil {
			x.fail("assumes %s: %v", r.Src, err)
		}
		x.assume(st, t)
		x.trusted["assumed on entry of "+x.name+": "+r.Src] = true
	}
	x.cover(st, "cover", "requires", fn.Pos())
	if len(con.Ghosts) > 0 {
		x.ghost = func(st *State, ref *Term, t types.Type) {
			for _, g := range con.Ghosts {
				gt, err := x.resolveType(g[0], con.Pkg)
				if err != nil {
					x.fail("ghost: %v", err)
				}
				if !types.Identical(gt, t) {
					continue
				}
				e, err := parseExpr(g[1] + "(ghostRef) == " + g[2])
				if err != nil {
					x.fail("ghost: %v", err)
				}
				names := map[string]SVal{"ghostRef": sv(ref, tInt)}
				for k, v := range f.params {
					names[k] = v
				}
				genv := &Env{x: x, pkg: con.Pkg, names: names, st: st, old: f.entry, next0: x.next0}
				b, err := genv.evalBool(e)
				if err != nil {
					x.fail("ghost: %v", err)
				}
				x.assume(st, b)
			}
		}
	}
	for _, e := range con.Dec {
		t, _, err := env.evalTerm(e)
		if err != nil {
			x.fail("decreases: %v", err)
		}
		x.decEntry = append(x.decEntry, x.def("dec", t))
	}
	x.recGroup = map[string]bool{}
	if rg := x.effects.recursive(fn); len(rg) > 0 {
		for g := range rg {
			x.recGroup[funcKey(g)] = true
		}
		if len(con.Dec) == 0 {
			if con.NoDec != "" {
				x.trusted["termination of recursion in "+x.name+" is not proved: "+con.NoDec] = true
			} else {
				x.oblige(st, "decreases", "recursion", "no measure for this recursive function", fn.Pos(), tFalse, nil)
			}
		}
	}
	f.run(nil, fn.Blocks[0], st)
	sort.SliceStable(f.rets, func(i, j int) bool { return f.rets[i].pos < f.rets[j].pos })
	rn := resultNames(con, fn.Signature.Results().Len())
	for ri, r := range f.rets {
		names := map[string]SVal{}
		for k, v := range f.params {
			names[k] = v
		}
		for i, v := range r.vals {
			names[rn[i]] = SVal{v, fn.Signature.Results().At(i).Type()}
		}
		env := &Env{x: x, pkg: con.Pkg, names: names, st: r.st, old: f.entry, next0: x.next0}
		x.cover(r.st, "cover", fmt.Sprintf("return%d", ri+1), r.pos)
		do := func(cs []*Clause, kind string) {
			for _, c := range cs {
				lab := c.Label
				t, err := env.evalBool(c.E)
				if err != nil && kind == "assert" {
					// an assertion may name local variables
					loc := f.loopEnv(r.st, nil, nil)
					loc.names = names
					t, err = loc.evalBool(c.E)
				}
				if err != nil {
					x.oblige(r.st, "contract", lab, c.Src+": "+err.Error(), r.pos, tFalse, c.Props)
					continue
				}
				x.oblige(r.st, kind, lab, c.Src, r.pos, t, c.Props)
			}
		}
		do(con.Asserts, "assert")
		do(con.Ensures, "ensures")
		env = f.loopEnv(r.st, nil, nil)
		env.names = names
		do(con.Posts, "ensures")
	}
	if x.pure != 0 || x.inQuant != 0 {
		panic("verifier: obligations suppressed at the end of " + x.name)
	}
	if len(f.rets) == 0 && con.Options["noreturn"] == "" {
		x.oblige(st, "return", "", "the function can return", fn.Pos(), tFalse, nil)
	}
}
