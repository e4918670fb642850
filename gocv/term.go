package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is an SMT term. Terms are immutable and shared.
type Term struct {
	Op   string // operator or leaf text
	Args []*Term
	Sort string
	size int
	s    string
}

func (t *Term) String() string {
	if t.s != "" {
		return t.s
	}
	var b strings.Builder
	t.write(&b)
	t.s = b.String()
	return t.s
}

func (t *Term) write(b *strings.Builder) {
	if t.s != "" {
		b.WriteString(t.s)
		return
	}
	if len(t.Args) == 0 {
		b.WriteString(t.Op)
		return
	}
	b.WriteByte('(')
	b.WriteString(t.Op)
	for _, a := range t.Args {
		b.WriteByte(' ')
		a.write(b)
	}
	b.WriteByte(')')
}

func mk(op, sort string, args ...*Term) *Term {
	n := 1
	for _, a := range args {
		if a == nil {
			panic("nil term arg to " + op)
		}
		n += a.size
	}
	return &Term{Op: op, Args: args, Sort: sort, size: n}
}

var tTrue = mk("true", "Bool")
var tFalse = mk("false", "Bool")

func isTrue(t *Term) bool  { return t.Op == "true" }
func isFalse(t *Term) bool { return t.Op == "false" }

func num(n int64) *Term {
	if n < 0 {
		return &Term{Op: "-", Args: []*Term{mk(fmt.Sprint(-n), "Int")}, Sort: "Int", size: 2}
	}
	return mk(fmt.Sprint(n), "Int")
}

func bignum(n *big.Int) *Term {
	if n.Sign() < 0 {
		return &Term{Op: "-", Args: []*Term{mk(new(big.Int).Neg(n).String(), "Int")}, Sort: "Int", size: 2}
	}
	return mk(n.String(), "Int")
}

// isNum reports whether t is an integer literal and its value.
func isNum(t *Term) (int64, bool) {
	if t.Sort != "Int" {
		return 0, false
	}
	var n int64
	if len(t.Args) == 0 {
		if t.Op[0] < '0' || t.Op[0] > '9' {
			return 0, false
		}
		if _, err := fmt.Sscan(t.Op, &n); err == nil {
			return n, true
		}
		return 0, false
	}
	if t.Op == "-" && len(t.Args) == 1 {
		if m, ok := isNum(t.Args[0]); ok {
			return -m, true
		}
	}
	return 0, false
}

func same(a, b *Term) bool {
	return a == b || (a.size == b.size && a.Op == b.Op && a.String() == b.String())
}

func not(t *Term) *Term {
	switch {
	case isTrue(t):
		return tFalse
	case isFalse(t):
		return tTrue
	case t.Op == "not":
		return t.Args[0]
	}
	return mk("not", "Bool", t)
}

func and(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if isTrue(t) {
			continue
		}
		if isFalse(t) {
			return tFalse
		}
		if t.Op == "and" {
			out = append(out, t.Args...)
		} else {
			out = append(out, t)
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "Bool", out...)
}

func or(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if isFalse(t) {
			continue
		}
		if isTrue(t) {
			return tTrue
		}
		if t.Op == "or" {
			out = append(out, t.Args...)
		} else {
			out = append(out, t)
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "Bool", out...)
}

func implies(a, b *Term) *Term {
	if isTrue(a) {
		return b
	}
	if isFalse(a) || isTrue(b) {
		return tTrue
	}
	if isFalse(b) {
		return not(a)
	}
	return mk("=>", "Bool", a, b)
}

func eq(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sort mismatch: %s : %s vs %s : %s", a, a.Sort, b, b.Sort))
	}
	if same(a, b) {
		return tTrue
	}
	if x, ok := isNum(a); ok {
		if y, ok := isNum(b); ok {
			if x == y {
				return tTrue
			}
			return tFalse
		}
	}
	if a.Sort == "Bool" {
		if isTrue(a) {
			return b
		}
		if isTrue(b) {
			return a
		}
		if isFalse(a) {
			return not(b)
		}
		if isFalse(b) {
			return not(a)
		}
	}
	return mk("=", "Bool", a, b)
}

func ite(c, a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sort mismatch: %s : %s vs %s : %s", a, a.Sort, b, b.Sort))
	}
	if isTrue(c) || same(a, b) {
		return a
	}
	if isFalse(c) {
		return b
	}
	if a.Sort == "Bool" {
		if isTrue(a) && isFalse(b) {
			return c
		}
		if isFalse(a) && isTrue(b) {
			return not(c)
		}
	}
	return mk("ite", a.Sort, c, a, b)
}

// linear normal form helpers: add folds constants.
func add(a, b *Term) *Term {
	if a.Sort == "Real" {
		return mk("+", "Real", a, b)
	}
	x, xok := isNum(a)
	y, yok := isNum(b)
	switch {
	case xok && yok:
		return num(x + y)
	case xok && x == 0:
		return b
	case yok && y == 0:
		return a
	case xok:
		return add(b, a)
	case yok:
		if a.Op == "+" && len(a.Args) == 2 {
			if z, ok := isNum(a.Args[1]); ok {
				return add(a.Args[0], num(z+y))
			}
		}
		if a.Op == "-" && len(a.Args) == 2 {
			if z, ok := isNum(a.Args[1]); ok {
				return add(a.Args[0], num(y-z))
			}
		}
		if y < 0 {
			return mk("-", "Int", a, num(-y))
		}
	}
	if b.Op == "-" && len(b.Args) == 2 && same(b.Args[1], a) {
		return b.Args[0]
	}
	if a.Op == "-" && len(a.Args) == 2 && same(a.Args[1], b) {
		return a.Args[0]
	}
	return mk("+", "Int", a, b)
}

func sub(a, b *Term) *Term {
	if a.Sort == "Real" {
		return mk("-", "Real", a, b)
	}
	if same(a, b) {
		return num(0)
	}
	if y, ok := isNum(b); ok {
		return add(a, num(-y))
	}
	if a.Op == "+" && len(a.Args) == 2 {
		if same(a.Args[0], b) {
			return a.Args[1]
		}
		if same(a.Args[1], b) {
			return a.Args[0]
		}
	}
	return mk("-", "Int", a, b)
}

func mul(a, b *Term) *Term {
	if a.Sort == "Int" {
		x, xok := isNum(a)
		y, yok := isNum(b)
		if xok && yok {
			return num(x * y)
		}
		if xok && x == 1 {
			return b
		}
		if yok && y == 1 {
			return a
		}
		if xok && x == 0 || yok && y == 0 {
			return num(0)
		}
	}
	return mk("*", a.Sort, a, b)
}

func le(a, b *Term) *Term {
	x, xok := isNum(a)
	y, yok := isNum(b)
	if xok && yok {
		if x <= y {
			return tTrue
		}
		return tFalse
	}
	if a.Sort == "Int" && same(a, b) {
		return tTrue
	}
	return mk("<=", "Bool", a, b)
}
func lt(a, b *Term) *Term {
	x, xok := isNum(a)
	y, yok := isNum(b)
	if xok && yok {
		if x < y {
			return tTrue
		}
		return tFalse
	}
	if a.Sort == "Int" && same(a, b) {
		return tFalse
	}
	return mk("<", "Bool", a, b)
}
func ge(a, b *Term) *Term { return le(b, a) }
func gt(a, b *Term) *Term { return lt(b, a) }

func arraySort(k, v string) string { return "(Array " + k + " " + v + ")" }

// arrayVal returns the element sort of array sort s.
func arrayParts(s string) (k, v string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	rest := s[len("(Array ") : len(s)-1]
	// first sort token
	if rest[0] != '(' {
		i := strings.IndexByte(rest, ' ')
		return rest[:i], rest[i+1:]
	}
	d := 0
	for i := 0; i < len(rest); i++ {
		switch rest[i] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return rest[:i+1], rest[i+2:]
			}
		}
	}
	panic("bad sort " + s)
}

func sel(a, i *Term) *Term {
	_, v := arrayParts(a.Sort)
	if a.Op == "store" {
		if same(a.Args[1], i) {
			return a.Args[2]
		}
		x, xok := isNum(a.Args[1])
		y, yok := isNum(i)
		if xok && yok && x != y {
			return sel(a.Args[0], i)
		}
	}
	return mk("select", v, a, i)
}

func store(a, i, v *Term) *Term {
	_, vs := arrayParts(a.Sort)
	if vs != v.Sort {
		panic("store sort mismatch: " + a.Sort + " <- " + v.Sort + " " + v.String())
	}
	return mk("store", a.Sort, a, i, v)
}

type qvar struct{ name, sort string }

func forall(vars []qvar, body *Term, pats ...[]*Term) *Term {
	return quant("forall", vars, body, pats)
}
func exists(vars []qvar, body *Term, pats ...[]*Term) *Term {
	return quant("exists", vars, body, pats)
}

func quant(q string, vars []qvar, body *Term, pats [][]*Term) *Term {
	if isTrue(body) || isFalse(body) {
		return body
	}
	var b strings.Builder
	b.WriteByte('(')
	for i, v := range vars {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "(%s %s)", v.name, v.sort)
	}
	b.WriteByte(')')
	vl := &Term{Op: b.String(), Sort: "!", size: 1}
	in := body
	if len(pats) > 0 {
		var pb strings.Builder
		pb.WriteString("(! ")
		pb.WriteString(body.String())
		for _, p := range pats {
			pb.WriteString(" :pattern (")
			for i, t := range p {
				if i > 0 {
					pb.WriteByte(' ')
				}
				pb.WriteString(t.String())
			}
			pb.WriteString(")")
		}
		pb.WriteString(")")
		in = &Term{Op: pb.String(), Sort: "Bool", size: body.size + 1}
	}
	return &Term{Op: q, Args: []*Term{vl, in}, Sort: "Bool", size: in.size + 1}
}

func sym(s string) string {
	ok := true
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$@", r)) {
			ok = false
			break
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(s) + "|"
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// atSorts records the element sorts for which at is used.
var atSorts = map[string]string{"|at:Int|": "Int"}

func atFn(vs string) string {
	n := sym("at:" + strings.ReplaceAll(vs, "|", ""))
	atSorts[n] = vs
	return n
}

// at is a[o+i], kept in a form that quantifier patterns match.
func at(a, o, i *Term) *Term {
	_, v := arrayParts(a.Sort)
	if a.Op == "store" {
		if d, ok := isNum(sub(add(o, i), a.Args[1])); ok {
			if d == 0 {
				return a.Args[2]
			}
			return at(a.Args[0], o, i)
		}
	}
	return mk(atFn(v), v, a, o, i)
}

// offp is o+d for slice offsets, kept in a form that patterns match.
func offp(o, d *Term) *Term {
	if n, ok := isNum(d); ok && n == 0 {
		return o
	}
	if _, ok := isNum(o); ok {
		if _, ok := isNum(d); ok {
			return add(o, d)
		}
	}
	return mk("offp", "Int", o, d)
}
