package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// ---- lexer ----

type tok struct {
	kind string // id, int, str, chr, op, eof
	s    string
}

func lex(src string) ([]tok, error) {
	var out []tok
	ops := []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "::", "<<", ">>", "&^"}
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '#' || c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$':
			j := i + 1
			for j < len(src) && (src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9' || src[j] == '_' || src[j] == '$') {
				j++
			}
			out = append(out, tok{"id", src[i:j]})
			i = j
		case c >= '0' && c <= '9':
			j := i + 1
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] >= 'a' && src[j] <= 'f' || src[j] >= 'A' && src[j] <= 'F' || src[j] == 'x') {
				j++
			}
			out = append(out, tok{"int", src[i:j]})
			i = j
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				return nil, err
			}
			out = append(out, tok{"str", s})
			i = j + 1
		case c == '\'':
			j := i + 1
			for j < len(src) && src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(src[i+1:j], '\'')
			if err != nil {
				return nil, err
			}
			out = append(out, tok{"int", fmt.Sprint(int(r))})
			i = j + 1
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{"op", o})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				out = append(out, tok{"op", string(c)})
				i++
			}
		}
	}
	out = append(out, tok{"eof", ""})
	return out, nil
}

// ---- AST ----

type Expr struct {
	Kind string // id int str un bin call index slice field quant cond star
	S    string // operator, identifier, literal
	A    []*Expr
	Vars []SVar
	Pats [][]*Expr
	src  string
}

type SVar struct {
	Name string
	Type string // type source text
}

type specParser struct {
	t   []tok
	pos int
}

func (p *specParser) peek() tok { return p.t[p.pos] }
func (p *specParser) next() tok { t := p.t[p.pos]; p.pos++; return t }
func (p *specParser) is(s string) bool {
	t := p.peek()
	return (t.kind == "op" || t.kind == "id") && t.s == s
}
func (p *specParser) accept(s string) bool {
	if p.is(s) {
		p.pos++
		return true
	}
	return false
}
func (p *specParser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("expected %q, found %q at token %d", s, p.peek().s, p.pos))
	}
}

func parseExpr(src string) (e *Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("parsing %q: %v", src, r)
		}
	}()
	ts, err := lex(src)
	if err != nil {
		return nil, err
	}
	p := &specParser{t: ts}
	e = p.expr(0)
	if p.peek().kind != "eof" {
		panic("trailing " + p.peek().s)
	}
	e.src = strings.Join(strings.Fields(src), " ")
	return e, nil
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5,
	"+": 6, "-": 6, "|": 6, "*": 7, "/": 7, "%": 7, "&": 7, "<<": 7, ">>": 7, "&^": 7}

func (p *specParser) expr(min int) *Expr {
	if min == 0 && (p.is("forall") || p.is("exists")) {
		return p.quant()
	}
	l := p.unary()
	for {
		t := p.peek()
		if t.kind != "op" && !(t.kind == "id" && t.s == "in") {
			break
		}
		if t.s == "?" && min == 0 {
			p.next()
			a := p.expr(0)
			p.expect(":")
			b := p.expr(0)
			return &Expr{Kind: "cond", A: []*Expr{l, a, b}}
		}
		pr, ok := prec[t.s]
		if !ok || pr < min || pr == 0 {
			break
		}
		p.next()
		var r *Expr
		if p.is("forall") || p.is("exists") {
			r = p.quant()
		} else if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		// chained comparison a <= b < c
		if pr == 5 && l.Kind == "bin" && prec[l.S] == 5 && t.s != "==" && t.s != "!=" && t.s != "in" && (l.S == "<" || l.S == "<=" || l.S == ">" || l.S == ">=") && l.src != "paren" {
			l = &Expr{Kind: "bin", S: "&&", A: []*Expr{l, {Kind: "bin", S: t.s, A: []*Expr{l.A[1], r}}}}
			continue
		}
		if l.Kind == "bin" && l.S == "&&" && pr == 5 && l.src != "paren" && min <= 5 && len(l.A) == 2 && l.A[1].Kind == "bin" && prec[l.A[1].S] == 5 {
			l = &Expr{Kind: "bin", S: "&&", A: []*Expr{l, {Kind: "bin", S: t.s, A: []*Expr{l.A[1].A[1], r}}}}
			continue
		}
		l = &Expr{Kind: "bin", S: t.s, A: []*Expr{l, r}}
	}
	return l
}

func (p *specParser) quant() *Expr {
	q := p.next().s
	e := &Expr{Kind: "quant", S: q}
	for {
		var names []string
		names = append(names, p.next().s)
		for p.accept(",") {
			names = append(names, p.next().s)
		}
		ty := "int"
		if !p.is("::") && !p.is("{") {
			ty = p.typ()
		}
		for _, n := range names {
			e.Vars = append(e.Vars, SVar{n, ty})
		}
		if p.accept(";") || p.accept(",") {
			continue
		}
		break
	}
	p.expect("::")
	for p.is("{") {
		p.next()
		var pat []*Expr
		pat = append(pat, p.expr(0))
		for p.accept(",") {
			pat = append(pat, p.expr(0))
		}
		p.expect("}")
		e.Pats = append(e.Pats, pat)
	}
	e.A = []*Expr{p.expr(0)}
	return e
}

// typ parses a type and returns its source text.
func (p *specParser) typ() string {
	switch {
	case p.accept("*"):
		return "*" + p.typ()
	case p.accept("["):
		if p.accept("]") {
			return "[]" + p.typ()
		}
		n := p.next().s
		p.expect("]")
		return "[" + n + "]" + p.typ()
	}
	id := p.next().s
	switch id {
	case "map":
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "map[" + k + "]" + p.typ()
	case "smap":
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "smap[" + k + "]" + p.typ()
	case "seq":
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "seq[" + k + "]"
	}
	if p.accept(".") {
		id += "." + p.next().s
	}
	return id
}

func (p *specParser) unary() *Expr {
	t := p.peek()
	if t.kind == "op" {
		switch t.s {
		case "!", "-", "^":
			p.next()
			return &Expr{Kind: "un", S: t.s, A: []*Expr{p.unary()}}
		case "*":
			p.next()
			return &Expr{Kind: "star", A: []*Expr{p.unary()}}
		}
	}
	return p.postfix(p.primary())
}

func (p *specParser) primary() *Expr {
	t := p.next()
	switch t.kind {
	case "int":
		return &Expr{Kind: "int", S: t.s}
	case "str":
		return &Expr{Kind: "str", S: t.s}
	case "id":
		return &Expr{Kind: "id", S: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.expect(")")
			if e.Kind == "bin" {
				e.src = "paren"
			}
			return e
		}
	}
	panic(fmt.Sprintf("unexpected %q", t.s))
}

func (p *specParser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.accept("."):
			e = &Expr{Kind: "field", S: p.next().s, A: []*Expr{e}}
		case p.accept("("):
			c := &Expr{Kind: "call", A: []*Expr{e}}
			for !p.is(")") {
				c.A = append(c.A, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		case p.accept("["):
			if p.accept(":") {
				var hi *Expr
				if !p.is("]") {
					hi = p.expr(0)
				}
				p.expect("]")
				e = &Expr{Kind: "slice", A: []*Expr{e, nil, hi}}
				continue
			}
			i := p.expr(0)
			if p.accept(":") {
				var hi *Expr
				if !p.is("]") {
					hi = p.expr(0)
				}
				p.expect("]")
				e = &Expr{Kind: "slice", A: []*Expr{e, i, hi}}
				continue
			}
			p.expect("]")
			e = &Expr{Kind: "index", A: []*Expr{e, i}}
		default:
			return e
		}
	}
}

// ---- contract files ----

type Clause struct {
	E     *Expr
	Src   string
	Label string
	Props []string
	File  string
	Line  int
}

type LoopSpec struct {
	Inv    []*Clause
	Hints  []*Clause // asserts at the end of the body
	Enter  []*Clause // asserts before the loop
	Exit   []*Clause // asserts after the loop
	Dec    []*Expr
	NoDec  string // reason
	Unroll int
	Forget int // after the loop, look only at its exit clauses and what was known at the start of the iteration of this loop
	Header []*Clause
}

type Contract struct {
	Kind     string // func extern inline lemma
	Key      string
	Pkg      string
	Params   []string
	Results  []string
	Requires []*Clause
	Ghosts   [][3]string // type, logic function, expression: value of the function for objects allocated here
	Assumes  []*Clause   // assumed in the body, never checked: listed as trusted
	Ensures  []*Clause
	Asserts  []*Clause // checked at return, then assumed, before ensures
	Posts    []*Clause // like ensures, but may name local variables; callers do not see them
	Modifies []*Expr
	ModSrc   []string
	Dec      []*Expr
	NoDec    string
	Loops    map[int]*LoopSpec
	Props    []string
	Options  map[string]string
	Notes    []string
	PTypes   []string // for logic/lemma params
	Uses     []string
	File     string
	Line     int
}

type PredDef struct {
	Name   string
	Pkg    string
	Params []SVar
	Body   *Expr
}

type LogicDef struct {
	Name   string
	Pkg    string
	Params []SVar
	Ret    string
	Def    *Expr
}

type AxiomDef struct {
	Name   string
	Pkg    string
	E      *Expr
	Src    string
	Kind   string // axiom (trusted) | lemma (proved) | data
	Reason string
	Props  []string
	// lemma only
	Params []SVar
	Req    []*Clause
	Ens    []*Clause
	Induct string // induction measure
	IndE   *Expr
	Pats   [][]*Expr
	Uses   []string
	Hints  []*Clause
	File   string
	Line   int
}

type Specs struct {
	funcs  map[string]*Contract
	preds  map[string]*PredDef
	logics map[string]*LogicDef
	axioms []*AxiomDef
	locals map[string][][2]string
	loops  map[string][]string
	known  map[string]bool
}

var keywords = map[string]bool{"package": true, "func": true, "extern": true, "inline": true, "requires": true, "assumes": true, "ensures": true, "modifies": true,
	"invariant": true, "loop": true, "decreases": true, "props": true, "pred": true, "logic": true, "axiom": true, "lemma": true, "option": true,
	"assert": true, "post": true, "ghost": true, "hint": true, "enter": true, "exit": true, "unroll": true, "forget": true, "nodecreases": true, "note": true, "trigger": true, "induction": true, "uses": true, "reason": true, "end": true}

func loadSpecs(dir string) (*Specs, error) {
	s := &Specs{funcs: map[string]*Contract{}, preds: map[string]*PredDef{}, logics: map[string]*LogicDef{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gcv"))
	sort.Strings(files)
	s.loadLocals(dir)
	for _, f := range files {
		if err := s.loadFile(f); err != nil {
			return nil, fmt.Errorf("%s: %v", filepath.Base(f), err)
		}
	}
	return s, nil
}

// unique rejects a second definition of a predicate or logic function.
func (s *Specs) unique(name string) {
	if s.preds[name] != nil || s.logics[name] != nil {
		panic("contracts define " + name + " twice")
	}
}

func (s *Specs) loadFile(file string) (err error) {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type item struct {
		kw, text string
		line     int
	}
	var items []item
	for n, l := range strings.Split(string(data), "\n") {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") || strings.HasPrefix(t, "//") {
			continue
		}
		w := t
		if i := strings.IndexAny(t, " \t"); i >= 0 {
			w = t[:i]
		}
		if keywords[w] {
			items = append(items, item{w, strings.TrimSpace(t[len(w):]), n + 1})
		} else if len(items) > 0 {
			items[len(items)-1].text += "\n" + t
		} else {
			return fmt.Errorf("line %d: stray text", n+1)
		}
	}
	pkg := ""
	var cur *Contract
	var loop *LoopSpec
	var lem *AxiomDef
	line := 0
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("line %d: %v", line, r)
		}
	}()
	ex := func(t string) *Expr {
		e, err := parseExpr(t)
		if err != nil {
			panic(err)
		}
		return e
	}
	clause := func(it item) *Clause {
		t := it.text
		c := &Clause{File: filepath.Base(file), Line: it.line}
		// optional [label] or [label: C01 C02]
		if strings.HasPrefix(t, "[") {
			i := strings.IndexByte(t, ']')
			lab := t[1:i]
			t = strings.TrimSpace(t[i+1:])
			if j := strings.IndexByte(lab, ':'); j >= 0 {
				c.Props = strings.Fields(lab[j+1:])
				lab = strings.TrimSpace(lab[:j])
			}
			c.Label = lab
		}
		c.E = ex(t)
		c.Src = strings.Join(strings.Fields(t), " ")
		return c
	}
	for _, it := range items {
		line = it.line
		switch it.kw {
		case "package":
			pkg = it.text
		case "end":
			cur, loop, lem = nil, nil, nil
		case "func", "extern", "inline":
			lem, loop = nil, nil
			cur = parseSig(it.text)
			cur.Kind = it.kw
			cur.Pkg = pkg
			cur.File, cur.Line = filepath.Base(file), it.line
			if it.kw != "extern" {
				cur.Key = pkg + "." + cur.Key
			}
			if s.funcs[cur.Key] != nil {
				panic("duplicate contract for " + cur.Key)
			}
			s.funcs[cur.Key] = cur
		case "requires":
			if lem != nil {
				lem.Req = append(lem.Req, clause(it))
			} else {
				cur.Requires = append(cur.Requires, clause(it))
			}
		case "ghost":
			g := strings.SplitN(strings.TrimSpace(it.text), " ", 3)
			if len(g) != 3 {
				panic("ghost TYPE FUNCTION EXPRESSION")
			}
			cur.Ghosts = append(cur.Ghosts, [3]string{g[0], g[1], strings.TrimSpace(g[2])})
		case "assumes":
			cur.Assumes = append(cur.Assumes, clause(it))
		case "ensures":
			if lem != nil {
				lem.Ens = append(lem.Ens, clause(it))
			} else {
				cur.Ensures = append(cur.Ensures, clause(it))
			}
		case "post":
			cur.Posts = append(cur.Posts, clause(it))
		case "assert":
			cur.Asserts = append(cur.Asserts, clause(it))
		case "modifies":
			for _, m := range splitTop(it.text) {
				cur.Modifies = append(cur.Modifies, ex(m))
				cur.ModSrc = append(cur.ModSrc, strings.TrimSpace(m))
			}
		case "loop":
			n, err := strconv.Atoi(it.text)
			if err != nil {
				panic(err)
			}
			loop = &LoopSpec{}
			cur.Loops[n] = loop
		case "invariant":
			loop.Inv = append(loop.Inv, clause(it))
		case "hint":
			if lem != nil {
				lem.Hints = append(lem.Hints, clause(it))
				continue
			}
			loop.Hints = append(loop.Hints, clause(it))
		case "enter":
			loop.Enter = append(loop.Enter, clause(it))
		case "exit":
			loop.Exit = append(loop.Exit, clause(it))
		case "forget":
			n, err := strconv.Atoi(it.text)
			if err != nil {
				panic(err)
			}
			loop.Forget = n
		case "unroll":
			n, err := strconv.Atoi(it.text)
			if err != nil {
				panic(err)
			}
			loop.Unroll = n
		case "decreases":
			var es []*Expr
			for _, m := range splitTop(it.text) {
				es = append(es, ex(m))
			}
			if loop != nil {
				loop.Dec = es
			} else {
				cur.Dec = es
			}
		case "nodecreases":
			if loop != nil {
				loop.NoDec = it.text
			} else {
				cur.NoDec = it.text
			}
		case "props":
			if lem != nil {
				lem.Props = strings.Fields(it.text)
			} else {
				cur.Props = strings.Fields(it.text)
			}
		case "option":
			f := strings.SplitN(it.text, " ", 2)
			v := "1"
			if len(f) == 2 {
				v = strings.TrimSpace(f[1])
			}
			cur.Options[f[0]] = v
		case "note":
			cur.Notes = append(cur.Notes, it.text)
		case "reason":
			lem.Reason = it.text
		case "pred":
			cur, loop, lem = nil, nil, nil
			i := strings.Index(it.text, "=")
			h, b := it.text[:i], it.text[i+1:]
			c := parseTyped(h)
			s.unique(c.Name)
			s.preds[c.Name] = &PredDef{Name: c.Name, Pkg: pkg, Params: c.Params, Body: ex(b)}
		case "logic":
			cur, loop, lem = nil, nil, nil
			h := it.text
			var def *Expr
			if i := strings.Index(h, ":="); i >= 0 {
				def = ex(h[i+2:])
				h = h[:i]
			}
			c := parseTyped(h)
			c.Pkg = pkg
			c.Def = def
			s.unique(c.Name)
			s.logics[c.Name] = c
		case "axiom", "lemma":
			cur, loop = nil, nil
			if it.kw == "axiom" {
				i := strings.Index(it.text, ":")
				lem = &AxiomDef{Name: strings.TrimSpace(it.text[:i]), Pkg: pkg, Kind: "axiom", E: ex(it.text[i+1:]), Src: strings.Join(strings.Fields(it.text[i+1:]), " ")}
			} else {
				c := parseTyped(it.text + " bool")
				lem = &AxiomDef{Name: c.Name, Pkg: pkg, Kind: "lemma", Params: c.Params, File: filepath.Base(file), Line: it.line}
			}
			s.axioms = append(s.axioms, lem)
		case "induction":
			lem.Induct, lem.IndE = it.text, ex(it.text)
		case "uses":
			if lem != nil {
				lem.Uses = append(lem.Uses, strings.Fields(it.text)...)
			} else {
				cur.Uses = append(cur.Uses, strings.Fields(it.text)...)
			}
		case "trigger":
			var pat []*Expr
			for _, m := range splitTop(it.text) {
				pat = append(pat, ex(m))
			}
			lem.Pats = append(lem.Pats, pat)
		}
	}
	return nil
}

// splitTop splits s at top-level commas.
func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

// parseSig parses "Type.Method(a, b) (r, s)".
func parseSig(h string) *Contract {
	c := &Contract{Loops: map[int]*LoopSpec{}, Options: map[string]string{}}
	i := strings.IndexByte(h, '(')
	if i < 0 {
		panic("bad signature " + h)
	}
	c.Key = strings.TrimSpace(h[:i])
	rest := h[i:]
	j := strings.IndexByte(rest, ')')
	c.Params = names(rest[1:j])
	rest = strings.TrimSpace(rest[j+1:])
	if strings.HasPrefix(rest, "(") {
		c.Results = names(rest[1:strings.IndexByte(rest, ')')])
	}
	return c
}

func names(s string) []string {
	var out []string
	for _, f := range strings.Split(s, ",") {
		if f = strings.TrimSpace(f); f != "" {
			out = append(out, f)
		}
	}
	return out
}

func parseTyped(h string) *LogicDef {
	ts, err := lex(h)
	if err != nil {
		panic(err)
	}
	p := &specParser{t: ts}
	d := &LogicDef{Name: p.next().s}
	p.expect("(")
	for !p.is(")") {
		var ns []string
		ns = append(ns, p.next().s)
		for p.accept(",") {
			ns = append(ns, p.next().s)
		}
		ty := p.typ()
		for _, n := range ns {
			d.Params = append(d.Params, SVar{n, ty})
		}
		if !p.accept(";") && !p.accept(",") {
			break
		}
	}
	p.expect(")")
	if p.peek().kind != "eof" {
		d.Ret = p.typ()
	} else {
		d.Ret = "bool"
	}
	return d
}

// ---- evaluation ----

type SVal struct {
	V   Val
	Typ types.Type
}

type Env struct {
	x     *Ctx
	pkg   string
	names map[string]SVal
	st    *State
	old   *State
	look  func(st *State, name string, old bool) (SVal, bool)
	pre   *State
	head  *State // start of the iteration
	heads map[int]*State
	next0 *Term // freshness boundary
	inOld bool
	depth int
}

type evalError struct{ msg string }

func (e *Env) fail(f string, a ...interface{}) {
	panic(evalError{fmt.Sprintf(f, a...)})
}

func (e *Env) sub() *Env {
	n := *e
	n.names = make(map[string]SVal, len(e.names)+2)
	for k, v := range e.names {
		n.names[k] = v
	}
	return &n
}

// evalBool evaluates a boolean clause; err describes unresolvable names.
func (e *Env) evalBool(x *Expr) (t *Term, err error) {
	pure, inQuant := e.x.pure, e.x.inQuant
	defer func() {
		if r := recover(); r != nil {
			e.x.pure, e.x.inQuant = pure, inQuant
			if ee, ok := r.(evalError); ok {
				err = fmt.Errorf("%s", ee.msg)
				return
			}
			panic(r)
		}
	}()
	v := e.eval(x)
	t = e.term(v)
	if t.Sort != "Bool" {
		return nil, fmt.Errorf("clause is not boolean: %s", t.Sort)
	}
	return t, nil
}

func (e *Env) evalTerm(x *Expr) (t *Term, ty types.Type, err error) {
	pure, inQuant := e.x.pure, e.x.inQuant
	defer func() {
		if r := recover(); r != nil {
			e.x.pure, e.x.inQuant = pure, inQuant
			if ee, ok := r.(evalError); ok {
				err = fmt.Errorf("%s", ee.msg)
				return
			}
			panic(r)
		}
	}()
	v := e.eval(x)
	return e.term(v), v.Typ, nil
}

func (e *Env) term(v SVal) *Term {
	if v.V.T != nil {
		return v.V.T
	}
	t, err := e.x.termOf(e.st, v.V, v.Typ)
	if err != nil {
		e.fail("%v", err)
	}
	return t
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]
var tNil = types.Typ[types.UntypedNil]

func sv(t *Term, ty types.Type) SVal { return SVal{Val{T: t}, ty} }

func (e *Env) typ(s string) types.Type {
	t, err := e.x.resolveType(s, e.pkg)
	if err != nil {
		e.fail("%v", err)
	}
	return t
}

func (x *Ctx) resolveType(s, pkg string) (types.Type, error) {
	switch {
	case strings.HasPrefix(s, "*"):
		t, err := x.resolveType(s[1:], pkg)
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	case strings.HasPrefix(s, "[]"):
		t, err := x.resolveType(s[2:], pkg)
		if err != nil {
			return nil, err
		}
		return types.NewSlice(t), nil
	case strings.HasPrefix(s, "seq["):
		t, err := x.resolveType(s[4:len(s)-1], pkg)
		if err != nil {
			return nil, err
		}
		return seqOf(t), nil
	case strings.HasPrefix(s, "smap["):
		m, err := x.resolveType(s[1:], pkg)
		if err != nil {
			return nil, err
		}
		return smapOf(m.(*types.Map).Key(), m.(*types.Map).Elem()), nil
	case strings.HasPrefix(s, "map["):
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			} else if s[i] == ']' {
				d--
				if d == 0 {
					k, err := x.resolveType(s[4:i], pkg)
					if err != nil {
						return nil, err
					}
					v, err := x.resolveType(s[i+1:], pkg)
					if err != nil {
						return nil, err
					}
					return types.NewMap(k, v), nil
				}
			}
		}
	case strings.HasPrefix(s, "["):
		i := strings.IndexByte(s, ']')
		n, err := strconv.Atoi(s[1:i])
		if err != nil {
			return nil, err
		}
		t, err := x.resolveType(s[i+1:], pkg)
		if err != nil {
			return nil, err
		}
		return types.NewArray(t, int64(n)), nil
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		return x.lookupType(s[i+1:], s[:i])
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type(), nil
		}
	}
	return x.lookupType(s, pkg)
}

func (x *Ctx) lookupType(name, pkg string) (types.Type, error) {
	if sp := x.prog.pkgs[pkg]; sp != nil {
		if o, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
			return o.Type(), nil
		}
	}
	// a type of an imported package
	for _, k := range sortedKeys(x.prog.pkgs) {
		for _, im := range x.prog.pkgs[k].Pkg.Imports() {
			if im.Path() == pkg {
				if o, ok := im.Scope().Lookup(name).(*types.TypeName); ok {
					return o.Type(), nil
				}
			}
		}
	}
	return nil, fmt.Errorf("unknown type %s.%s", pkg, name)
}

func (e *Env) eval(x *Expr) SVal {
	c := e.x
	switch x.Kind {
	case "int":
		n, err := strconv.ParseInt(x.S, 0, 64)
		if err != nil {
			e.fail("bad integer %s", x.S)
		}
		return sv(num(n), tInt)
	case "str":
		return sv(c.strLit(x.S), tString)
	case "id":
		return e.ident(x.S)
	case "un":
		v := e.eval(x.A[0])
		t := e.term(v)
		switch x.S {
		case "!":
			return sv(not(t), tBool)
		case "-":
			return sv(sub(num(0), t), v.Typ)
		case "^":
			return sv(mk("bvnot", t.Sort, t), v.Typ)
		}
	case "bin":
		return e.binary(x)
	case "cond":
		a, b := e.eval(x.A[1]), e.eval(x.A[2])
		at, bt := e.coerce(a, b)
		return sv(ite(e.term(e.eval(x.A[0])), at, bt), a.Typ)
	case "quant":
		n := e.sub()
		var qs []qvar
		for _, v := range x.Vars {
			t := e.typ(v.Type)
			c.qn++
			nm := sym(fmt.Sprintf("%s!q%d", v.Name, c.qn))
			so := c.sortOf(t)
			qs = append(qs, qvar{nm, so})
			n.names[v.Name] = sv(mk(nm, so), t)
		}
		c.inQuant++
		body := n.term(n.eval(x.A[0]))
		var pats [][]*Term
		for _, p := range x.Pats {
			var ts []*Term
			for _, pe := range p {
				ts = append(ts, n.term(n.eval(pe)))
			}
			pats = append(pats, ts)
		}
		c.inQuant--
		return sv(quant(x.S, qs, body, pats), tBool)
	case "field":
		// package-qualified global?
		if x.A[0].Kind == "id" && e.x.prog.pkgs[x.A[0].S] != nil {
			if _, ok := e.names[x.A[0].S]; !ok {
				if v, ok := e.global(x.S, x.A[0].S); ok {
					return v
				}
			}
		}
		if x.A[0].Kind == "id" {
			if v, ok := e.extGlobal(x.A[0].S, x.S); ok {
				return v
			}
		}
		return e.field(e.eval(x.A[0]), x.S)
	case "star":
		v := e.eval(x.A[0])
		pt, ok := v.Typ.Underlying().(*types.Pointer)
		if !ok {
			e.fail("* of non-pointer")
		}
		r, err := c.loadVal(e.st, v.V, pt.Elem())
		if err != nil {
			e.fail("%v", err)
		}
		return SVal{r, pt.Elem()}
	case "index":
		return e.index(e.eval(x.A[0]), e.eval(x.A[1]))
	case "slice":
		v := e.eval(x.A[0])
		t := e.term(v)
		lo := num(0)
		if x.A[1] != nil {
			lo = e.term(e.eval(x.A[1]))
		}
		var hi *Term
		if x.A[2] != nil {
			hi = e.term(e.eval(x.A[2]))
		}
		if isString(v.Typ) || t.Sort == "Str" {
			if hi == nil {
				hi = c.slen(t)
			}
			return sv(c.ssub(t, lo, hi), v.Typ)
		}
		if _, ok := isSeq(v.Typ); ok {
			if hi == nil {
				hi = seqLen(t)
			}
			return sv(mkSeq(seqArr(t), offp(seqOff(t), lo), sub(hi, lo)), v.Typ)
		}
		if hi == nil {
			hi = slLen(t)
		}
		return sv(mkSlice(slRef(t), offp(slOff(t), lo), sub(hi, lo), sub(slCap(t), lo)), v.Typ)
	case "call":
		return e.call(x)
	}
	e.fail("cannot evaluate %s %s", x.Kind, x.S)
	return SVal{}
}

func (e *Env) ident(s string) SVal {
	switch s {
	case "true":
		return sv(tTrue, tBool)
	case "false":
		return sv(tFalse, tBool)
	case "nil":
		return sv(num(0), tNil)
	}
	if v, ok := e.names[s]; ok {
		return v
	}
	if e.look != nil {
		if v, ok := e.look(e.st, s, e.inOld); ok {
			return v
		}
	}
	if v, ok := e.global(s, e.pkg); ok {
		return v
	}
	e.fail("unknown name %s", s)
	return SVal{}
}

func (e *Env) global(s, pkg string) (SVal, bool) {
	sp := e.x.prog.pkgs[pkg]
	if sp == nil {
		return SVal{}, false
	}
	switch o := sp.Pkg.Scope().Lookup(s).(type) {
	case *types.Const:
		return sv(e.x.constTerm(o.Val(), o.Type()), o.Type()), true
	case *types.Var:
		return sv(e.x.globalVal(e.st, pkg+"."+s, o.Type()), o.Type()), true
	}
	return SVal{}, false
}

// extGlobal resolves a variable of a package imported by the analysed code.
func (e *Env) extGlobal(pkg, name string) (SVal, bool) {
	if _, ok := e.names[pkg]; ok {
		return SVal{}, false
	}
	for _, k := range sortedKeys(e.x.prog.pkgs) {
		for _, im := range e.x.prog.pkgs[k].Pkg.Imports() {
			if im.Name() != pkg {
				continue
			}
			if o, ok := im.Scope().Lookup(name).(*types.Var); ok {
				return sv(e.x.globalVal(e.st, im.Path()+"."+name, o.Type()), o.Type()), true
			}
		}
	}
	return SVal{}, false
}

func (e *Env) field(v SVal, name string) SVal {
	c := e.x
	t := v.Typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		st, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			e.fail("field %s of %s", name, t)
		}
		i := fieldIndex(st, name)
		if i < 0 {
			e.fail("no field %s in %s", name, p.Elem())
		}
		fv, err := c.loadField(e.st, v.V, p.Elem(), i)
		if err != nil {
			e.fail("%v", err)
		}
		return SVal{fv, st.Field(i).Type()}
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		e.fail("field %s of %s", name, t)
	}
	i := fieldIndex(st, name)
	if i < 0 {
		e.fail("no field %s in %s", name, t)
	}
	return sv(c.getField(t, e.term(v), i), st.Field(i).Type())
}

func fieldIndex(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (e *Env) index(v, i SVal) SVal {
	c := e.x
	t := e.term(v)
	it := e.term(i)
	if t.Sort == "Str" {
		return sv(c.sat(t, it), types.Typ[types.Uint8])
	}
	if m, ok := isSmap(v.Typ); ok {
		_, val := smapParts(c, t, m)
		return sv(sel(val, it), m.Elem())
	}
	if el, ok := isSeq(v.Typ); ok {
		return sv(at(seqArr(t), seqOff(t), it), el)
	}
	switch u := v.Typ.Underlying().(type) {
	case *types.Slice:
		m := c.heapGet(e.st, c.elemC(u.Elem()))
		return sv(at(sel(m, slRef(t)), slOff(t), it), u.Elem())
	case *types.Map:
		_, vc := c.mapC(v.Typ)
		return sv(sel(sel(c.heapGet(e.st, vc), t), it), u.Elem())
	case *types.Array:
		if n, ok := isNum(it); ok {
			return sv(c.arrSel(v.Typ, t, int(n)), u.Elem())
		}
		r := c.arrSel(v.Typ, t, int(u.Len())-1)
		for k := int(u.Len()) - 2; k >= 0; k-- {
			r = ite(eq(it, num(int64(k))), c.arrSel(v.Typ, t, k), r)
		}
		return sv(r, u.Elem())
	}
	e.fail("index of %s", v.Typ)
	return SVal{}
}

// coerce adapts nil and numeric literals to the other operand's sort.
func (e *Env) coerce(a, b SVal) (*Term, *Term) {
	at, bt := e.term(a), e.term(b)
	if at.Sort == bt.Sort {
		return at, bt
	}
	if a.Typ == tNil && bt.Sort == "Slice" {
		return num(0), slRef(bt)
	}
	if b.Typ == tNil && at.Sort == "Slice" {
		return slRef(at), num(0)
	}
	if n, ok := isNum(at); ok && strings.HasPrefix(bt.Sort, "(_ BitVec") {
		return bvConst(uint64(n)), bt
	}
	if n, ok := isNum(bt); ok && strings.HasPrefix(at.Sort, "(_ BitVec") {
		return at, bvConst(uint64(n))
	}
	if at.Sort == "Real" && bt.Sort == "Int" {
		return at, toReal(bt)
	}
	if bt.Sort == "Real" && at.Sort == "Int" {
		return toReal(at), bt
	}
	e.fail("sort mismatch %s : %s vs %s : %s", at, at.Sort, bt, bt.Sort)
	return nil, nil
}

func toReal(t *Term) *Term {
	if n, ok := isNum(t); ok {
		if n < 0 {
			return mk("-", "Real", mk(fmt.Sprintf("%d.0", -n), "Real"))
		}
		return mk(fmt.Sprintf("%d.0", n), "Real")
	}
	return mk("to_real", "Real", t)
}

func bvConst(n uint64) *Term { return mk(fmt.Sprintf("#x%016x", n), "(_ BitVec 64)") }

func (e *Env) binary(x *Expr) SVal {
	c := e.x
	switch x.S {
	case "&&":
		return sv(and(e.term(e.eval(x.A[0])), e.term(e.eval(x.A[1]))), tBool)
	case "||":
		return sv(or(e.term(e.eval(x.A[0])), e.term(e.eval(x.A[1]))), tBool)
	case "==>":
		return sv(implies(e.term(e.eval(x.A[0])), e.term(e.eval(x.A[1]))), tBool)
	case "<==>":
		return sv(eq(e.term(e.eval(x.A[0])), e.term(e.eval(x.A[1]))), tBool)
	case "in":
		k, m := e.eval(x.A[0]), e.eval(x.A[1])
		if sm, ok := isSmap(m.Typ); ok {
			dom, _ := smapParts(c, e.term(m), sm)
			return sv(sel(dom, e.term(k)), tBool)
		}
		if _, ok := m.Typ.Underlying().(*types.Map); !ok {
			e.fail("in: not a map")
		}
		dc, _ := c.mapC(m.Typ)
		return sv(sel(sel(c.heapGet(e.st, dc), e.term(m)), e.term(k)), tBool)
	}
	a, b := e.eval(x.A[0]), e.eval(x.A[1])
	at, bt := e.coerce(a, b)
	bv := strings.HasPrefix(at.Sort, "(_ BitVec")
	cmp := func(op, bvop string) SVal {
		if bv {
			return sv(mk(bvop, "Bool", at, bt), tBool)
		}
		switch op {
		case "<":
			return sv(lt(at, bt), tBool)
		case "<=":
			return sv(le(at, bt), tBool)
		case ">":
			return sv(lt(bt, at), tBool)
		}
		return sv(le(bt, at), tBool)
	}
	switch x.S {
	case "==":
		return sv(c.equal(at, bt), tBool)
	case "!=":
		return sv(not(c.equal(at, bt)), tBool)
	case "<":
		return cmp("<", "bvult")
	case "<=":
		return cmp("<=", "bvule")
	case ">":
		return cmp(">", "bvugt")
	case ">=":
		return cmp(">=", "bvuge")
	case "+":
		if at.Sort == "Str" {
			return sv(c.scat(at, bt), tString)
		}
		if bv {
			return sv(mk("bvadd", at.Sort, at, bt), a.Typ)
		}
		return sv(add(at, bt), a.Typ)
	case "-":
		return sv(sub(at, bt), a.Typ)
	case "*":
		return sv(mul(at, bt), a.Typ)
	case "/":
		if at.Sort == "Real" {
			return sv(mk("/", "Real", at, bt), a.Typ)
		}
		return sv(mk("div", "Int", at, bt), a.Typ)
	case "%":
		return sv(mk("mod", "Int", at, bt), a.Typ)
	case "&":
		if bv {
			return sv(mk("bvand", at.Sort, at, bt), pickT(a, b))
		}
	case "|":
		if bv {
			return sv(mk("bvor", at.Sort, at, bt), pickT(a, b))
		}
	case "&^":
		if bv {
			return sv(mk("bvand", at.Sort, at, mk("bvnot", at.Sort, bt)), pickT(a, b))
		}
	}
	e.fail("operator %s", x.S)
	return SVal{}
}

func pickT(a, b SVal) types.Type {
	if a.Typ == tInt {
		return b.Typ
	}
	return a.Typ
}

func (e *Env) call(x *Expr) SVal {
	c := e.x
	f := x.A[0]
	args := x.A[1:]
	if f.Kind != "id" {
		e.fail("call of non-identifier")
	}
	switch f.S {
	case "old":
		n := e.sub()
		n.inOld = true
		if e.old != nil {
			n.st = e.old
		}
		// names bound to quantified variables/params stay; locals are looked up in old
		return n.materialize(n.eval(args[0]))
	case "head": // value at the start of this iteration
		h := e.head
		if len(args) > 1 && e.heads != nil {
			k, _ := strconv.Atoi(args[1].S)
			h = e.heads[k]
		}
		if h == nil {
			e.fail("head outside a loop")
		}
		n := e.sub()
		n.st = h
		n.inOld = false
		return n.materialize(n.eval(args[0]))
	case "pre": // value at loop entry
		if e.pre == nil {
			e.fail("pre outside a loop")
		}
		n := e.sub()
		n.st = e.pre
		n.inOld = false
		return n.materialize(n.eval(args[0]))
	case "len":
		v := e.eval(args[0])
		t := e.term(v)
		if t.Sort == "Str" {
			return sv(c.slen(t), tInt)
		}
		if _, ok := isSeq(v.Typ); ok {
			return sv(seqLen(t), tInt)
		}
		if a, ok := v.Typ.Underlying().(*types.Array); ok {
			return sv(num(a.Len()), tInt)
		}
		if _, ok := v.Typ.Underlying().(*types.Slice); !ok {
			e.fail("len of %s", v.Typ)
		}
		if e.st != nil && e.st.next != nil {
			c.wf(e.st, t, v.Typ)
		}
		return sv(slLen(t), tInt)
	case "cap":
		return sv(slCap(e.term(e.eval(args[0]))), tInt)
	case "ref":
		v := e.eval(args[0])
		t := e.term(v)
		if t.Sort == "Slice" {
			return sv(slRef(t), tInt)
		}
		return sv(t, tInt)
	case "off":
		return sv(slOff(e.term(e.eval(args[0]))), tInt)
	case "fresh", "alloced":
		v := e.eval(args[0])
		t := e.term(v)
		if f.S == "alloced" {
			if t.Sort == "Slice" {
				t = slRef(t)
			}
			return sv(and(le(num(0), t), lt(t, e.st.next)), tBool)
		}
		if e.next0 == nil {
			e.fail("fresh not available here")
		}
		if t.Sort == "Slice" {
			return sv(or(and(eq(slRef(t), num(0)), eq(slCap(t), num(0))), and(ge(slRef(t), e.next0), lt(slRef(t), e.st.next))), tBool)
		}
		return sv(and(ge(t, e.next0), lt(t, e.st.next)), tBool)
	case "isT": // isT(p, T): p is a non-nil allocated reference to a T
		t := e.term(e.eval(args[0]))
		ty := e.typ(exprType(args[1]))
		return sv(and(lt(num(0), t), lt(t, e.st.next), eq(mk("rtype", "Int", t), c.typeTag(ty))), tBool)
	case "smap":
		v := e.eval(args[0])
		m, ok := v.Typ.Underlying().(*types.Map)
		if !ok {
			e.fail("smap of %s", v.Typ)
		}
		dc, vc := c.mapC(v.Typ)
		t := e.term(v)
		return sv(mk("mkmp", c.smapSort(m), sel(c.heapGet(e.st, dc), t), sel(c.heapGet(e.st, vc), t)), smapOf(m.Key(), m.Elem()))
	case "seq":
		v := e.eval(args[0])
		t := e.term(v)
		switch u := v.Typ.Underlying().(type) {
		case *types.Slice:
			m := c.heapGet(e.st, c.elemC(u.Elem()))
			return sv(mkSeq(sel(m, slRef(t)), slOff(t), slLen(t)), seqOf(u.Elem()))
		}
		e.fail("seq of %s", v.Typ)
	case "arr": // backing array of slice
		v := e.eval(args[0])
		t := e.term(v)
		if u, ok := v.Typ.Underlying().(*types.Slice); ok {
			m := c.heapGet(e.st, c.elemC(u.Elem()))
			return sv(sel(m, slRef(t)), u.Elem())
		}
		e.fail("arr of %s", v.Typ)
	case "at": // at(array, base, index)
		a, b, i := e.eval(args[0]), e.eval(args[1]), e.eval(args[2])
		return sv(at(e.term(a), e.term(b), e.term(i)), a.Typ)
	case "string":
		v := e.eval(args[0])
		t := e.term(v)
		if t.Sort == "Str" {
			return sv(t, tString)
		}
		if u, ok := v.Typ.Underlying().(*types.Slice); ok {
			m := c.heapGet(e.st, c.elemC(u.Elem()))
			return sv(c.bstr(sel(m, slRef(t)), slOff(t), slLen(t)), tString)
		}
		if el, ok := isSeq(v.Typ); ok && c.sortOf(el) == "Int" {
			return sv(c.bstr(seqArr(t), seqOff(t), seqLen(t)), tString)
		}
		e.fail("string of %s", v.Typ)
	case "decr", "decw":
		a, b := e.term(e.eval(args[0])), e.term(e.eval(args[1]))
		if f.S == "decr" {
			return sv(mk("decr", "Int", a, b), types.Typ[types.Int32])
		}
		return sv(mk("decw", "Int", a, b), tInt)
	case "replit": // an argument a strings.Replacer variable was made from
		return sv(mk("replit", "Str", e.term(e.eval(args[0])), e.term(e.eval(args[1]))), tString)
	case "repn": // the number of these arguments
		return sv(mk("repn", "Int", e.term(e.eval(args[0]))), tInt)
	case "relit": // the literal a regexp variable was compiled from
		return sv(mk("relit", "Str", e.term(e.eval(args[0]))), tString)
	case "ival": // the integer held by an interface value
		return sv(mk("ival", "Int", e.term(e.eval(args[0]))), tInt)
	case "bval": // the unsigned 64-bit value held by an interface value
		return sv(mk("bval", "(_ BitVec 64)", e.term(e.eval(args[0]))), types.Typ[types.Uint])
	case "runestr":
		return sv(mk("runestr", "Str", e.term(e.eval(args[0]))), tString)
	case "streq":
		a, b := e.term(e.eval(args[0])), e.term(e.eval(args[1]))
		return sv(mk("streq", "Bool", a, b), tBool)
	case "min", "max":
		a, b := e.term(e.eval(args[0])), e.term(e.eval(args[1]))
		if f.S == "min" {
			return sv(ite(le(a, b), a, b), tInt)
		}
		return sv(ite(ge(a, b), a, b), tInt)
	case "real":
		return sv(toReal(e.term(e.eval(args[0]))), types.Typ[types.Float64])
	case "samemap": // samemap(m): content of map unchanged since old
		v := e.eval(args[0])
		dc, vc := c.mapC(v.Typ)
		t := e.term(v)
		return sv(and(eq(sel(c.heapGet(e.st, dc), t), sel(c.heapGet(e.old, dc), t)), eq(sel(c.heapGet(e.st, vc), t), sel(c.heapGet(e.old, vc), t))), tBool)
	case "mapdom":
		v := e.eval(args[0])
		dc, _ := c.mapC(v.Typ)
		return sv(sel(c.heapGet(e.st, dc), e.term(v)), nil)
	case "mapval":
		v := e.eval(args[0])
		_, vc := c.mapC(v.Typ)
		return sv(sel(c.heapGet(e.st, vc), e.term(v)), nil)
	case "mk": // mk(T, f1, f2, ...) struct value
		ty := e.typ(exprType(args[0]))
		st := ty.Underlying().(*types.Struct)
		var fs []*Term
		for i, a := range args[1:] {
			v := e.eval(a)
			t := e.term(v)
			if want := c.sortOf(st.Field(i).Type()); want != t.Sort {
				if n, ok := isNum(t); ok && strings.HasPrefix(want, "(_ Bit") {
					t = bvConst(uint64(n))
				} else {
					e.fail("mk field sort %s vs %s", want, t.Sort)
				}
			}
			fs = append(fs, t)
		}
		return sv(c.mkStruct(ty, fs), ty)
	case "mkarr": // mkarr(T, e0, e1)
		ty := e.typ(exprType(args[0]))
		var fs []*Term
		for _, a := range args[1:] {
			fs = append(fs, e.term(e.eval(a)))
		}
		return sv(c.mkArr(ty, fs), ty)
	case "let": // let(name, value, body)
		n := e.sub()
		n.names[args[0].S] = e.materialize(e.eval(args[1]))
		return n.eval(args[2])
	}
	if p := c.specs.preds[f.S]; p != nil {
		if len(args) != len(p.Params) {
			e.fail("pred %s: %d args", f.S, len(args))
		}
		if e.depth > 40 {
			e.fail("pred recursion %s", f.S)
		}
		n := &Env{x: c, pkg: p.Pkg, names: map[string]SVal{}, st: e.st, old: e.old, next0: e.next0, pre: e.pre, head: e.head, heads: e.heads, depth: e.depth + 1, inOld: e.inOld}
		for i, a := range args {
			v := e.eval(a)
			pt := n.typ(p.Params[i].Type)
			if v.Typ == tNil || c.sortOf(pt) != "" {
				v = SVal{v.V, pt}
			}
			if v.V.T != nil && v.V.T.Sort != c.sortOf(pt) {
				e.fail("pred %s arg %d: sort %s, want %s", f.S, i, v.V.T.Sort, c.sortOf(pt))
			}
			n.names[p.Params[i].Name] = v
		}
		return n.eval(p.Body)
	}
	if l := c.specs.logics[f.S]; l != nil {
		if len(args) != len(l.Params) {
			e.fail("logic %s: %d args", f.S, len(args))
		}
		var ts []*Term
		for i, a := range args {
			v := e.eval(a)
			t := e.term(v)
			pt, err := c.resolveType(l.Params[i].Type, l.Pkg)
			if err != nil {
				e.fail("%v", err)
			}
			if want := c.sortOf(pt); t.Sort != want {
				if n, ok := isNum(t); ok && strings.HasPrefix(want, "(_ Bit") {
					t = bvConst(uint64(n))
				} else {
					e.fail("logic %s arg %d: sort %s, want %s", f.S, i, t.Sort, want)
				}
			}
			ts = append(ts, t)
		}
		rt, err := c.resolveType(l.Ret, l.Pkg)
		if err != nil {
			e.fail("%v", err)
		}
		c.useLogic(l)
		if len(ts) == 0 {
			return sv(mk(sym(l.Name), c.sortOf(rt)), rt)
		}
		return sv(mk(sym(l.Name), c.sortOf(rt), ts...), rt)
	}
	e.fail("unknown spec function %s", f.S)
	return SVal{}
}

// materialize turns a value into a pure term so that it no longer depends on the state.
func (e *Env) materialize(v SVal) SVal {
	if v.V.T == nil {
		return sv(e.term(v), v.Typ)
	}
	return v
}

func exprType(x *Expr) string {
	switch x.Kind {
	case "id":
		return x.S
	case "star":
		return "*" + exprType(x.A[0])
	case "field":
		return exprType(x.A[0]) + "." + x.S
	}
	panic(evalError{"bad type expression"})
}

func (c *Ctx) useLogic(l *LogicDef) {
	if c.logicUsed[l.Name] {
		return
	}
	c.logicUsed[l.Name] = true
	var ps []string
	for _, p := range l.Params {
		t, err := c.resolveType(p.Type, l.Pkg)
		if err != nil {
			panic(evalError{err.Error()})
		}
		ps = append(ps, c.sortOf(t))
	}
	rt, err := c.resolveType(l.Ret, l.Pkg)
	if err != nil {
		panic(evalError{err.Error()})
	}
	c.logicDecls = append(c.logicDecls, fmt.Sprintf("(declare-fun %s (%s) %s)", sym(l.Name), strings.Join(ps, " "), c.sortOf(rt)))
	if l.Def != nil {
		// definitional axiom
		e := &Env{x: c, pkg: l.Pkg, names: map[string]SVal{}}
		var qs []qvar
		var as []*Term
		for _, p := range l.Params {
			t, _ := c.resolveType(p.Type, l.Pkg)
			c.qn++
			nm := sym(fmt.Sprintf("%s!d%d", p.Name, c.qn))
			qs = append(qs, qvar{nm, c.sortOf(t)})
			v := mk(nm, c.sortOf(t))
			as = append(as, v)
			e.names[p.Name] = sv(v, t)
		}
		c.inQuant++
		app := mk(sym(l.Name), c.sortOf(rt), as...)
		body := e.term(e.eval(l.Def))
		c.inQuant--
		if len(qs) == 0 {
			c.defAxioms = append(c.defAxioms, axiomText{sym(l.Name), eq(app, body).String()})
		} else {
			c.defAxioms = append(c.defAxioms, axiomText{sym(l.Name), forall(qs, eq(app, body), []*Term{app}).String()})
		}
	}
}

func (c *Ctx) constTerm(v constant.Value, t types.Type) *Term {
	switch v.Kind() {
	case constant.Bool:
		if constant.BoolVal(v) {
			return tTrue
		}
		return tFalse
	case constant.String:
		return c.strLit(constant.StringVal(v))
	case constant.Int:
		if isBV(t) {
			n, _ := constant.Uint64Val(v)
			return bvConst(n)
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			n, _ := constant.Int64Val(v)
			return toReal(num(n))
		}
		if n, ok := constant.Int64Val(v); ok {
			return num(n)
		}
		return mk(v.ExactString(), "Int")
	case constant.Float:
		f := v.ExactString()
		if i := strings.IndexByte(f, '/'); i >= 0 {
			return mk("/", "Real", mk(f[:i]+".0", "Real"), mk(f[i+1:]+".0", "Real"))
		}
		return mk(f+".0", "Real")
	}
	panic("constant " + v.String())
}
