package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
)

// Sorts and heap components for Go types.

const opaqueNote = "opaque"

// Special struct types mapped to simple sorts.
func specialSort(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "strings.Builder":
			return "Str"
		case "sync.Once", "regexp.Regexp", "strings.Replacer", "bytes.Buffer":
			return "Int"
		}
	}
	return ""
}

func isSeq(t types.Type) (types.Type, bool) {
	if c, ok := t.(*types.Chan); ok && c.Dir() == types.SendRecv {
		return c.Elem(), true
	}
	return nil, false
}

// isSmap: the content of a map as a value (spec type smap[K]V).
func isSmap(t types.Type) (*types.Map, bool) {
	if c, ok := t.(*types.Chan); ok && c.Dir() == types.SendOnly {
		return c.Elem().(*types.Map), true
	}
	return nil, false
}

func smapOf(k, v types.Type) types.Type { return types.NewChan(types.SendOnly, types.NewMap(k, v)) }

func (x *Ctx) smapSort(m *types.Map) string {
	return "(Mp " + x.sortOf(m.Key()) + " " + x.sortOf(m.Elem()) + ")"
}

func seqOf(t types.Type) types.Type { return types.NewChan(types.SendRecv, t) }

// isUnsigned64 reports whether t is modelled as a 64-bit vector.
func isBV(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind() == types.Uint || b.Kind() == types.Uint64 || b.Kind() == types.Uintptr
	}
	return false
}

func (x *Ctx) sortOf(t types.Type) string {
	if s := specialSort(t); s != "" {
		return s
	}
	if e, ok := isSeq(t); ok {
		return "(Sq " + x.sortOf(e) + ")"
	}
	if m, ok := isSmap(t); ok {
		return x.smapSort(m)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return "Int"
		case isBV(t):
			return "(_ BitVec 64)"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&types.IsFloat != 0:
			return "Real"
		}
	case *types.Slice:
		return "Slice"
	case *types.Pointer, *types.Map, *types.Interface, *types.Signature:
		return "Int"
	case *types.Struct:
		return x.structSort(t, u)
	case *types.Array:
		return x.arraySortOf(u)
	case *types.Tuple:
		return "Tuple"
	}
	return "Int"
}

func typeKey(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string {
		if k := shortPkg(p.Path()); k != "" {
			return k
		}
		return p.Path()
	})
	// byte and rune are other names of uint8 and int32: one key for both
	return aliasRe.ReplaceAllStringFunc(s, func(w string) string {
		if w == "byte" {
			return "uint8"
		}
		return "int32"
	})
}

var aliasRe = regexp.MustCompile(`\b(byte|rune)\b`)

func (x *Ctx) structSort(t types.Type, u *types.Struct) string {
	key := typeKey(t)
	name := sym("S:" + key)
	if x.dts[name] {
		return name
	}
	x.dts[name] = true
	var b strings.Builder
	fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", name, sym("mk:"+key))
	for i := 0; i < u.NumFields(); i++ {
		fmt.Fprintf(&b, " (%s %s)", x.fieldSel(t, i), x.sortOf(u.Field(i).Type()))
	}
	b.WriteString("))))")
	x.dtDecls = append(x.dtDecls, b.String())
	return name
}

func (x *Ctx) fieldSel(t types.Type, i int) string {
	u := t.Underlying().(*types.Struct)
	return sym("f:" + typeKey(t) + "." + u.Field(i).Name())
}

func (x *Ctx) arraySortOf(u *types.Array) string {
	es := x.sortOf(u.Elem())
	n := int(u.Len())
	name := sym(fmt.Sprintf("A%d:%s", n, strings.Trim(es, "|")))
	if x.dts[name] {
		return name
	}
	x.dts[name] = true
	var b strings.Builder
	fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", name, sym("mk"+strings.Trim(name, "|")))
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, " (%s %s)", sym(fmt.Sprintf("%s.%d", strings.Trim(name, "|"), i)), es)
	}
	b.WriteString("))))")
	x.dtDecls = append(x.dtDecls, b.String())
	return name
}

func (x *Ctx) mkArr(t types.Type, el []*Term) *Term {
	s := x.sortOf(t)
	return mk(sym("mk"+strings.Trim(s, "|")), s, el...)
}

func (x *Ctx) arrSel(t types.Type, v *Term, i int) *Term {
	s := strings.Trim(x.sortOf(t), "|")
	if v.Op == sym("mk"+s) {
		return v.Args[i]
	}
	return mk(sym(fmt.Sprintf("%s.%d", s, i)), x.sortOf(t.Underlying().(*types.Array).Elem()), v)
}

func (x *Ctx) mkStruct(t types.Type, fs []*Term) *Term {
	s := x.sortOf(t)
	if len(fs) == 0 {
		return mk(sym("mk:"+typeKey(t)), s)
	}
	return mk(sym("mk:"+typeKey(t)), s, fs...)
}

func (x *Ctx) getField(t types.Type, v *Term, i int) *Term {
	if v.Op == sym("mk:"+typeKey(t)) {
		return v.Args[i]
	}
	u := t.Underlying().(*types.Struct)
	x.sortOf(t)
	return mk(x.fieldSel(t, i), x.sortOf(u.Field(i).Type()), v)
}

func (x *Ctx) setField(t types.Type, v *Term, i int, nv *Term) *Term {
	u := t.Underlying().(*types.Struct)
	var fs []*Term
	for k := 0; k < u.NumFields(); k++ {
		if k == i {
			fs = append(fs, nv)
		} else {
			fs = append(fs, x.getField(t, v, k))
		}
	}
	return x.mkStruct(t, fs)
}

// slices
func mkSlice(ref, off, ln, cp *Term) *Term { return mk("mkslice", "Slice", ref, off, ln, cp) }
func slPart(v *Term, i int, name string) *Term {
	if v.Op == "mkslice" {
		return v.Args[i]
	}
	if v.Op == "ite" && v.Args[1].Op == "mkslice" && v.Args[2].Op == "mkslice" {
		return ite(v.Args[0], v.Args[1].Args[i], v.Args[2].Args[i])
	}
	return mk(name, "Int", v)
}
func slRef(v *Term) *Term { return slPart(v, 0, "sref") }
func slOff(v *Term) *Term { return slPart(v, 1, "soff") }
func slLen(v *Term) *Term { return slPart(v, 2, "slcn") }
func slCap(v *Term) *Term { return slPart(v, 3, "scap") }

var nilSlice = mkSlice(num(0), num(0), num(0), num(0))

func mkSeq(arr, off, ln *Term) *Term {
	_, v := arrayParts(arr.Sort)
	return mk("mkseq", "(Sq "+v+")", arr, off, ln)
}
func seqElemSort(s string) string { return s[len("(Sq ") : len(s)-1] }
func seqArr(v *Term) *Term {
	if v.Op == "mkseq" {
		return v.Args[0]
	}
	return mk("qarr", arraySort("Int", seqElemSort(v.Sort)), v)
}
func seqOff(v *Term) *Term {
	if v.Op == "mkseq" {
		return v.Args[1]
	}
	return mk("qoff", "Int", v)
}
func seqLen(v *Term) *Term {
	if v.Op == "mkseq" {
		return v.Args[2]
	}
	return mk("qlen", "Int", v)
}

// heap component names
func fieldComp(t types.Type, i int) string {
	return "F:" + typeKey(t) + "." + t.Underlying().(*types.Struct).Field(i).Name()
}
func elemComp(t types.Type) string { return "M:" + typeKey(t) }
func mapDom(t types.Type) string {
	m := t.Underlying().(*types.Map)
	return "D:" + typeKey(m.Key()) + "," + typeKey(m.Elem())
}
func mapVal(t types.Type) string {
	m := t.Underlying().(*types.Map)
	return "V:" + typeKey(m.Key()) + "," + typeKey(m.Elem())
}

func (x *Ctx) compSort(name string) string {
	if s, ok := x.comps[name]; ok {
		return s
	}
	panic("unknown heap component " + name)
}

func (x *Ctx) fieldC(t types.Type, i int) string {
	n := fieldComp(t, i)
	if _, ok := x.comps[n]; !ok {
		x.comps[n] = arraySort("Int", x.sortOf(t.Underlying().(*types.Struct).Field(i).Type()))
	}
	return n
}
func (x *Ctx) elemC(t types.Type) string {
	n := elemComp(t)
	if _, ok := x.comps[n]; !ok {
		x.comps[n] = arraySort("Int", arraySort("Int", x.sortOf(t)))
	}
	return n
}
func (x *Ctx) mapC(t types.Type) (string, string) {
	m := t.Underlying().(*types.Map)
	d, v := mapDom(t), mapVal(t)
	if _, ok := x.comps[d]; !ok {
		x.comps[d] = arraySort("Int", arraySort(x.sortOf(m.Key()), "Bool"))
		x.comps[v] = arraySort("Int", arraySort(x.sortOf(m.Key()), x.sortOf(m.Elem())))
	}
	return d, v
}

// intRange returns the value range of a sized integer type modelled as Int;
// ok is false for int/int64 (treated as mathematical) and non-integers.
func intRange(t types.Type) (lo, hi int64, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return -1 << 7, 1<<7 - 1, true
	case types.Int16:
		return -1 << 15, 1<<15 - 1, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	case types.Uint8:
		return 0, 1<<8 - 1, true
	case types.Uint16:
		return 0, 1<<16 - 1, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	}
	return
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && !isBV(t)
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// zero returns the zero value of t.
func (x *Ctx) zero(t types.Type) *Term {
	s := x.sortOf(t)
	if sp := specialSort(t); sp == "Str" {
		return x.strLit("")
	} else if sp != "" {
		return num(0)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.zero(u.Field(i).Type()))
		}
		return x.mkStruct(t, fs)
	case *types.Array:
		var el []*Term
		for i := 0; i < int(u.Len()); i++ {
			el = append(el, x.zero(u.Elem()))
		}
		return x.mkArr(t, el)
	}
	switch s {
	case "Int":
		return num(0)
	case "Bool":
		return tFalse
	case "Str":
		return x.strLit("")
	case "Real":
		return mk("0.0", "Real")
	case "Slice":
		return nilSlice
	case "(_ BitVec 64)":
		return mk("#x0000000000000000", s)
	}
	panic("zero of " + s)
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isStructT(t types.Type) bool {
	if specialSort(t) != "" {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func smapParts(c *Ctx, t *Term, m *types.Map) (dom, val *Term) {
	if t.Op == "mkmp" {
		return t.Args[0], t.Args[1]
	}
	k, v := c.sortOf(m.Key()), c.sortOf(m.Elem())
	return mk("mpdom", arraySort(k, "Bool"), t), mk("mpval", arraySort(k, v), t)
}
