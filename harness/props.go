package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/internal/match"
	goldlc "github.com/google/licensecheck/zzverif/gold/lc"
	gold "github.com/google/licensecheck/zzverif/gold/match"
)

// The gold packages are a frozen copy of the code as it was when the contracts
// were proved; they serve as the reference for what a contract pins down exactly.

func init() {
	props["C01"] = func(t *T) { scanLoop(t, "C01") }
	props["C02"] = func(t *T) { scanLoop(t, "C02") }
	props["C03"] = func(t *T) { mixLoop(t, "C03") }
	props["C04"] = func(t *T) { mixLoop(t, "C04") }
	props["C05"] = func(t *T) { scanLoop(t, "C05") }
	props["C06"] = pureLoop
	props["C07"] = dictLoop
	props["C08"] = func(t *T) { splitLoop(t, "C08") }
	props["C09"] = func(t *T) { splitLoop(t, "C09") }
	props["C10"] = foldLoop
	props["C11"] = func(t *T) {
		end := t.deadline
		t.deadline = timeSplit(end)
		spellLoop(t)
		t.deadline = end
		matchLoop(t, "C11", 0)
	}
	props["C12"] = parseLoop
	props["C13"] = func(t *T) { matchLoop(t, "C13", 0) }
	props["C14"] = func(t *T) { matchLoop(t, "C14", 0) }
	props["C15"] = func(t *T) { matchLoop(t, "C15", 0) }
	props["C16"] = mergeLoop
	props["C17"] = typeLoop
	props["C18"] = func(t *T) { scanLoop(t, "C18") }
}

// ---------------------------------------------------------------- C07

func dictLoop(t *T) {
	t.res.Rule = "random sequences of Insert, Lookup, Split, InsertSplit, Words against a map model"
	vocab := append([]string{"", "a", "b", "A", "copyright", "©", "the", "this", "\xff", "é", "e\u0301"}, vocabMid...)
	for !t.done() {
		n := 1 + t.Intn(30)
		var ops []string
		for i := 0; i < n; i++ {
			switch t.Intn(6) {
			case 0, 1:
				ops = append(ops, "I"+pick(t.Rand, vocab))
			case 2, 3:
				ops = append(ops, "L"+pick(t.Rand, vocab))
			case 4:
				ops = append(ops, "S"+genSplitText(t))
			case 5:
				ops = append(ops, "X"+genSplitText(t))
			}
		}
		t.try(fmt.Sprintf("%q", ops), func() bool {
			d := new(match.Dict)
			ref := map[string]int{}
			var list []string
			for _, op := range ops {
				before := append([]string(nil), d.Words()...)
				switch arg := op[1:]; op[0] {
				case 'I':
					id := d.Insert(arg)
					want, ok := ref[arg]
					if !ok {
						want = len(list)
						ref[arg] = want
						list = append(list, arg)
					}
					if int(id) != want {
						t.fail("insert", "Insert returned the wrong number", fmt.Sprintf("op %q: got %d, want %d", op, id, want))
					}
				case 'L':
					id := d.Lookup(arg)
					want, ok := ref[arg]
					if !ok {
						want = -1
					}
					if int(id) != want {
						t.fail("lookup", "Lookup returned the wrong number", fmt.Sprintf("op %q: got %d, want %d", op, id, want))
					}
				case 'S':
					d.Split(arg)
				case 'X':
					d.InsertSplit(arg)
					for _, w := range d.Words()[minInt(len(before), len(d.Words())):] {
						if _, ok := ref[w]; ok {
							t.fail("dup", "a word was inserted twice", fmt.Sprintf("op %q word %q", op, w))
						}
						ref[w] = len(list)
						list = append(list, w)
					}
				}
				if !equalStrings(d.Words(), list) {
					t.fail("words", "the word list is not the words in order of first insertion", fmt.Sprintf("after %q: %q want %q", op, d.Words(), list))
				}
				for w, id := range ref {
					if int(d.Lookup(w)) != id {
						t.fail("stable", "a word's number changed", fmt.Sprintf("after %q: %q is %d, want %d", op, w, d.Lookup(w), id))
					}
				}
			}
			return len(list) > 1
		})
	}
}

func equalStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- C08, C09

type sword struct {
	W      string
	Lo, Hi int
}

func realWords(d *match.Dict, ws []match.Word) []sword {
	var out []sword
	for _, w := range ws {
		s := "<BAD>"
		if w.ID >= 0 && int(w.ID) < len(d.Words()) {
			s = d.Words()[w.ID]
		} else if w.ID != match.BadWord {
			s = fmt.Sprintf("<ID %d>", w.ID)
		}
		out = append(out, sword{s, int(w.Lo), int(w.Hi)})
	}
	return out
}

func goldWords(d *gold.Dict, ws []gold.Word) []sword {
	var out []sword
	for _, w := range ws {
		s := "<BAD>"
		if w.ID >= 0 {
			s = d.Words()[w.ID]
		}
		out = append(out, sword{s, int(w.Lo), int(w.Hi)})
	}
	return out
}

func splitLoop(t *T, prop string) {
	t.res.Rule = "random texts of words, markup and odd bytes, split with and without insertion into fresh and filled dictionaries"
	for !t.done() {
		text := genSplitText(t)
		pre := ""
		if t.Intn(3) == 0 {
			pre = genSplitText(t)
		}
		t.try(fmt.Sprintf("%q after inserting %q", text, pre), func() bool {
			d, g := new(match.Dict), new(gold.Dict)
			d.InsertSplit(pre)
			g.InsertSplit(pre)
			before := append([]string(nil), d.Words()...)
			r0 := d.Split(text)
			w0 := realWords(d, r0)
			if !equalStrings(before, d.Words()) {
				t.fail("splitgrows", "splitting without insertion changed the dictionary", fmt.Sprintf("%q -> %q", before, d.Words()))
			}
			r1 := d.InsertSplit(text)
			w1 := realWords(d, r1)
			r2 := d.InsertSplit(text)
			w2 := realWords(d, r2)
			r3 := d.Split(text)
			w3 := realWords(d, r3)
			g0 := goldWords(g, g.Split(text))
			g1 := goldWords(g, g.InsertSplit(text))
			for i, l := range [][]sword{w0, w1, w2, w3} {
				prev := 0
				for _, w := range l {
					if w.Lo < prev || w.Hi <= w.Lo || w.Hi > len(text) {
						t.fail("order", "words are not non-empty, ordered and in bounds", fmt.Sprintf("split %d: %+v", i, l))
					}
					prev = w.Hi
				}
			}
			for _, w := range append(r1, r2...) {
				if w.ID == match.BadWord {
					t.fail("bad", "splitting with insertion yielded the not-found value", fmt.Sprintf("%+v", w1))
				}
			}
			if !reflect.DeepEqual(r1, r2) || !reflect.DeepEqual(r1, r3) {
				t.fail("again", "splitting the same text again yielded other words", fmt.Sprintf("first %+v\nagain with insertion %+v\nwithout %+v", w1, w2, w3))
			}
			if !reflect.DeepEqual(w0, g0) || !reflect.DeepEqual(w1, g1) {
				t.fail("words", "the text splits into other words than it should", fmt.Sprintf("got %+v\nand %+v with insertion\nwant %+v\nand %+v", w0, w1, g0, g1))
			}
			if prop == "C09" {
				return strings.ContainsAny(text, "<&{]")
			}
			return len(w1) > 1
		})
	}
}

// ---------------------------------------------------------------- C10

func foldLoop(t *T) {
	t.res.Rule = "every code point with case variants or accents, alone, first and last in a word; then random words"
	d := new(match.Dict)
	one := func(s string) (string, bool) {
		w := d.InsertSplit(s)
		if len(w) != 1 || w[0].ID < 0 {
			return "", false
		}
		return d.Words()[w[0].ID], true
	}
	orbit := func(r rune) []rune {
		l := []rune{r}
		for q := unicode.SimpleFold(r); q != r; q = unicode.SimpleFold(q) {
			l = append(l, q)
		}
		return l
	}
	isW := func(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) || unicode.Is(unicode.Mn, r) }
	acc := map[rune]string{}
	for _, p := range []string{"áàÁÀa", "éèÉÈe", "íìÍÌi", "óòÓÒo", "úùÚÙu"} {
		rs := []rune(p)
		for _, r := range rs[:4] {
			acc[r] = string(rs[4])
		}
	}
	for r := rune(0); r <= unicode.MaxRune && !t.done(); r++ {
		if !utf8.ValidRune(r) || !isW(r) {
			continue
		}
		o := orbit(r)
		_, accented := acc[r]
		if len(o) == 1 && !accented && r > 0x400 && r%7 != 0 && !t.thorough {
			continue
		}
		t.try(fmt.Sprintf("%q", "zq"+string(r)+"w"), func() bool {
			got, ok := one("zq" + string(r) + "w")
			if !ok {
				t.fail("word", "a word of letters and digits is not read as one word", "")
				return true
			}
			for _, q := range o[1:] {
				if !isW(q) {
					continue
				}
				if g2, ok := one("zq" + string(q) + "w"); !ok || g2 != got {
					t.fail("case", fmt.Sprintf("words that differ only in the case of %U and %U read differently", r, q), fmt.Sprintf("%q and %q", got, g2))
				}
			}
			want := ""
			switch {
			case acc[r] != "":
				want = acc[r]
			case r == 0x300 || r == 0x301:
				want = ""
			case 'A' <= r && r <= 'Z':
				want = string(r + 32)
			case r < 128:
				want = string(r)
			default:
				mn := r
				for _, q := range o {
					if q < mn {
						mn = q
					}
				}
				if 'A' <= mn && mn <= 'Z' {
					mn += 32
				}
				// any common representative of the letter's variants will do
				inner := strings.TrimSuffix(strings.TrimPrefix(got, "zq"), "w")
				ir, n := utf8.DecodeRuneInString(inner)
				okr := n == len(inner) && n > 0
				if okr {
					okr = false
					for _, q := range o {
						if q == ir || ir == mn || acc[q] == inner {
							okr = true
						}
					}
				}
				if !okr {
					t.fail("kept", "a character of a word is not kept", fmt.Sprintf("%U in the word reads as %q", r, got))
				}
				return true
			}
			if got != "zq"+want+"w" {
				t.fail("fold", "a letter reads wrong", fmt.Sprintf("%U reads as %q, want %q", r, got, "zq"+want+"w"))
			}
			return true
		})
	}
	vowels := []rune("aeiouAEIOU")
	for !t.done() {
		// a word, another spelling of it
		var a, b strings.Builder
		n := 1 + t.Intn(5)
		for i := 0; i < n; i++ {
			switch t.Intn(4) {
			case 0:
				v := vowels[t.Intn(len(vowels))]
				a.WriteRune(v)
				b.WriteRune(unicode.ToLower(v))
				b.WriteString(pick(t.Rand, []string{"\u0300", "\u0301"}))
			case 1:
				for q, s := range acc {
					a.WriteRune(q)
					b.WriteString(s)
					break
				}
			default:
				r := foldRunes[t.Intn(len(foldRunes))]
				if t.Intn(2) == 0 || !isW(r) {
					r = rune('a' + t.Intn(26))
				}
				if i == 0 && !unicode.IsLetter(r) {
					r = 'x'
				}
				o := orbit(r)
				a.WriteRune(r)
				q := o[t.Intn(len(o))]
				if !isW(q) {
					q = r
				}
				b.WriteRune(q)
			}
		}
		sa, sb := "q"+a.String(), "Q"+b.String()
		t.try(fmt.Sprintf("%q and %q", sa, sb), func() bool {
			ga, oka := one(sa)
			gb, okb := one(sb)
			if oka && okb && ga != gb {
				t.fail("same", "two spellings of a word read differently", fmt.Sprintf("%q and %q", ga, gb))
			}
			g := new(gold.Dict)
			gw := goldWords(g, g.InsertSplit(sa))
			d := new(match.Dict)
			rw := realWords(d, d.InsertSplit(sa))
			if !reflect.DeepEqual(gw, rw) {
				t.fail("canon", "a word has another canonical form than it should", fmt.Sprintf("got %+v want %+v", rw, gw))
			}
			return true
		})
	}
}

// ---------------------------------------------------------------- C11

func oneEdit(a, b string) bool {
	if len(a) > len(b) {
		a, b = b, a
	}
	if len(b)-len(a) > 1 || a == b {
		return false
	}
	i := 0
	for i < len(a) && a[i] == b[i] {
		i++
	}
	if len(a) == len(b) {
		return a[i+1:] == b[i+1:]
	}
	return a[i:] == b[i+1:]
}

func spellLoop(t *T) {
	t.res.Rule = "expected words against input words one or two edits away, joined and split words, c and copyright"
	words := []string{"abc", "abcd", "abcde", "abce", "aaaa", "aaaaa", "aaa", "abab", "copyright", "c", "license", "licence", "kllk", "xyzzy", "word", "words", "sword", "wword", "a", "ab", "a1b2", "éabc", "naïve", "tt", "ttt", "tttt"}
	g := &patGen{Rand: t.Rand, words: words}
	canon := func(s string) string {
		d := new(gold.Dict)
		w := goldWords(d, d.InsertSplit(s))
		if len(w) != 1 {
			return ""
		}
		return w[0].W
	}
	one := func(pat, text string) (bool, int) {
		d := new(match.Dict)
		re, err := match.ParseLRE(d, "x", pat)
		if err != nil {
			return false, -1
		}
		m, err := match.NewMultiLRE([]*match.LRE{re})
		if err != nil {
			return false, -1
		}
		l := m.Match(text).List
		return len(l) > 0, len(l)
	}
	ref := func(pat, text string) bool {
		d := new(gold.Dict)
		re, err := gold.ParseLRE(d, "x", pat)
		if err != nil {
			return false
		}
		m, err := gold.NewMultiLRE([]*gold.LRE{re})
		if err != nil {
			return false
		}
		return len(m.Match(text).List) > 0
	}
	check := func(want string, pat, text string, expect bool) {
		if ref(pat, text) != expect {
			// the words can be read in several ways, of which the automaton follows one
			t.res.Notes = append(t.res.Notes[:0], "some readings are decided by the order of candidates and left to the reference")
			expect = !expect
		}
		t.try(fmt.Sprintf("pattern %q text %q", pat, text), func() bool {
			got, n := one(pat, text)
			if n >= 0 && got != expect {
				t.fail("tolerance", "the automaton accepts the wrong words", fmt.Sprintf("%s: pattern %q, text %q: matched %v, want %v", want, pat, text, got, expect))
			}
			return true
		})
	}
	for !t.done() {
		w := pick(t.Rand, words)
		switch t.Intn(4) {
		case 0, 1: // misspelling
			h := w
			for k := t.Intn(3); k >= 0; k-- {
				if t.Intn(2) == 0 {
					h = g.typo(h)
				} else if t.Intn(3) == 0 {
					h = pick(t.Rand, append(words, "c", "(c)", "©", "copyright", "cc", "copyrigh"))
				}
			}
			if t.Intn(6) == 0 && len(h) > 1 {
				i := t.Intn(len(h) - 1)
				b := []byte(h)
				b[i], b[i+1] = b[i+1], b[i]
				h = string(b)
			}
			ch, cw := canon(h), canon(w)
			if ch == "" || cw == "" || ch == "qq" || cw != w {
				continue
			}
			cc := func(s string) bool { return s == "c" || s == "copyright" }
			expect := ch == cw || oneEdit(cw, ch) && (len(cw) >= 4 || len(ch) >= 4) || cc(cw) && cc(ch)
			check("one word for another", "qq pp "+w+" yy", "qq pp "+h+" yy", expect)
			check("last word", "qq pp "+w, "qq pp "+h, expect)
		case 2: // input pair joined
			h := w
			if t.Intn(3) == 0 {
				h = g.typo(h)
			}
			if len(h) < 2 {
				continue
			}
			i := 1 + t.Intn(len(h)-1)
			a, b := h[:i], h[i:]
			if canon(a) != a || canon(b) != b || a+b == "" || canon(w) != w {
				continue
			}
			// the pair is accepted as a join; or the first is a misspelling and the second stops the match
			expect := a+b == w
			check("pair for a word", "qq pp "+w+" yyy", "qq pp "+a+" "+b+" yyy", expect)
		case 3: // input word split into two expected words
			a, b := pick(t.Rand, words), pick(t.Rand, words)
			if canon(a) != a || canon(b) != b {
				continue
			}
			h := a + b
			if t.Intn(3) == 0 {
				h = g.typo(h)
			}
			if canon(h) != h || h == "" {
				continue
			}
			// accepted only as the exact concatenation
			expect := h == a+b
			check("word for a pair", "qq pp "+a+" "+b+" yyy", "qq pp "+h+" yyy", expect)
		}
	}
}

// ---------------------------------------------------------------- C12

func parseLoop(t *T) {
	t.res.Rule = "random pattern strings of operators, words, comments and newlines; accepted ones are compared by what they match"
	toks := []string{"((", "))", "||", "??", "__", "__1__", "__0__", "__5__", "__2147483648__", "__4294967297__", "__99999999999999999999__", "__-1__", "__01__", "__ 1__", "___1___", "__1_", "_",
		"//**", "**//", "//** c **//", "//** (( **//", "//**//", "\n", "\n", "\n((", "))\n", "))??\n", "?", "(", ")", "|", "a", "b", "a b", "c", "\t", " ", "\r", "\r\n", "é", "\xff", "copyright", "©", "&copy;", "<b>",
		"\n((a))\n", "\n((a || b))\n", "\n((a))??\n", "\n((\na\n||\nb\n))\n", strings.Repeat("w ", 40), "\n" + strings.Repeat("x", 80)}
	for !t.done() {
		var b strings.Builder
		if t.Intn(3) == 0 { // near-valid
			g := newPatGen(t.Rand)
			s := g.pattern(6).String()
			b.WriteString(s)
			if t.Intn(2) == 0 {
				i := t.Intn(len(s) + 1)
				b.Reset()
				b.WriteString(s[:i] + pick(t.Rand, toks) + s[i:])
			} else if t.Intn(3) == 0 && len(s) > 0 {
				i := t.Intn(len(s))
				b.Reset()
				b.WriteString(s[:i] + s[i+1:])
			}
		} else {
			for k := t.Intn(10); k >= 0; k-- {
				b.WriteString(pick(t.Rand, toks))
				if t.Intn(3) == 0 {
					b.WriteString(pick(t.Rand, []string{" ", "\n"}))
				}
			}
		}
		s := b.String()
		t.try(fmt.Sprintf("%q", s), func() bool {
			d, g := new(match.Dict), new(gold.Dict)
			re, err := match.ParseLRE(d, "x", s)
			gre, gerr := gold.ParseLRE(g, "x", s)
			if err == nil && re == nil || err != nil && re != nil {
				t.fail("result", "parsing returned neither a pattern nor an error, or both", fmt.Sprintf("%v %v", re, err))
			}
			if (err == nil) != (gerr == nil) {
				t.fail("accept", "a pattern is accepted or rejected wrongly", fmt.Sprintf("got error %v, want error %v", err, gerr))
				return true
			}
			if err != nil {
				return true
			}
			compareMatch(t, []*match.LRE{re}, []*gold.LRE{gre}, "a b a b c w w x", "a pattern was parsed into something else")
			// the sense of the counts: run the pattern behind two literal words
			p := "zz zy\n" + s
			re, err = match.ParseLRE(d, "x", p)
			gre, gerr = gold.ParseLRE(g, "x", p)
			if err == nil && gerr == nil {
				for _, n := range []int{0, 1, 2, 5, 6, 7} {
					compareMatch(t, []*match.LRE{re}, []*gold.LRE{gre}, "zz zy "+pick(t.Rand, []string{"a ", "b ", "a b ", ""})+strings.Repeat("k ", n)+pick(t.Rand, []string{"a ", "b ", "a b ", ""}), "a pattern was parsed into something else")
				}
			}
			return true
		})
	}
}

func compareMatch(t *T, l []*match.LRE, gl []*gold.LRE, text, what string) bool {
	m, err := match.NewMultiLRE(l)
	gm, gerr := gold.NewMultiLRE(gl)
	if (err == nil) != (gerr == nil) {
		t.fail("multi", "a set of patterns is accepted or rejected wrongly", fmt.Sprintf("got error %v, want error %v", err, gerr))
		return false
	}
	if err != nil {
		return false
	}
	x, y := m.Match(text), gm.Match(text)
	if a, b := fmt.Sprint(x.List), fmt.Sprint(y.List); a != b {
		t.fail("match", what, fmt.Sprintf("text %q: matches (license, first word, end word) %s, want %s", text, a, b))
	}
	return len(y.List) > 0
}

// ---------------------------------------------------------------- C03 C04 C13 C14 C15: patterns against texts

func mixLoop(t *T, prop string) {
	end := t.deadline
	t.deadline = timeSplit(end)
	matchLoop(t, prop, 0)
	t.deadline = end
	scanLoop(t, prop)
}

var seps2 = []string{" ", " ", " ", " ", ", ", "\n", "\n\n", ". ", "-"}

func joinWords(t *T, w []string) string {
	var b strings.Builder
	for _, x := range w {
		b.WriteString(x)
		b.WriteString(pick(t.Rand, seps2))
	}
	return b.String()
}

func matchLoop(t *T, prop string, n int) {
	t.res.Rule = "random sets of patterns against texts sampled from them, with small changes"
	for i := 0; !t.done(); i++ {
		g := newPatGen(t.Rand)
		if prop == "C15" {
			g.wildP = 30
			g.wild = []int{1, 2, 3, 4, 5, 6, 8}
			if t.Intn(2) == 0 {
				g.words = vocabSmall
			}
		}
		if prop == "C13" && t.Intn(2) == 0 {
			g.wildP = 20
		}
		k := 1 + t.Intn(3)
		if prop == "C15" && t.Intn(2) == 0 {
			k = 1
		}
		var nodes []*node
		var pats []string
		for j := 0; j < k; j++ {
			p := g.pattern(7)
			if prop == "C13" && t.Intn(2) == 0 {
				p = g.seq(1+t.Intn(4), 3)
			}
			nodes = append(nodes, p)
			pats = append(pats, p.String())
		}
		d, gd := new(match.Dict), new(gold.Dict)
		var list []*match.LRE
		var glist []*gold.LRE
		var m *match.MultiLRE
		var gm *gold.MultiLRE
		ok := false
		t.try(fmt.Sprintf("patterns %q", pats), func() bool {
			for j, p := range pats {
				gre, gerr := gold.ParseLRE(gd, fmt.Sprint("p", j), p)
				re, err := match.ParseLRE(d, fmt.Sprint("p", j), p)
				if (err == nil) != (gerr == nil) {
					t.fail("accept", "a pattern is accepted or rejected wrongly", fmt.Sprintf("%q: got error %v, want error %v", p, err, gerr))
					return false
				}
				if err != nil {
					return false
				}
				list, glist = append(list, re), append(glist, gre)
			}
			gmm, gerr := gold.NewMultiLRE(glist)
			mm, err := match.NewMultiLRE(list)
			if prop == "C13" {
				for _, p := range nodes {
					if bad := badOpening(p); bad != "" && err == nil {
						t.fail("opening", "a pattern is accepted although "+bad, fmt.Sprintf("%q", pats))
					}
				}
			}
			if (err == nil) != (gerr == nil) {
				t.fail("multi", "a set of patterns is accepted or rejected wrongly", fmt.Sprintf("got error %v, want error %v", err, gerr))
				return false
			}
			if err == nil {
				m, gm, ok = mm, gmm, true
			}
			return prop == "C13"
		})
		if !ok {
			continue
		}
		for j := 0; j < 6 && !t.done(); j++ {
			var w []string
			for s := t.Intn(3); s >= 0; s-- {
				for z := t.Intn(3); z > 0 && t.Intn(2) == 0; z-- {
					w = append(w, g.anyWord())
				}
				x := g.sample(nodes[t.Intn(len(nodes))], nil)
				if t.Intn(3) > 0 {
					x = g.mutate(x)
				}
				if len(x) > 400 {
					x = x[:400]
				}
				w = append(w, x...)
			}
			text := joinWords(t, w)
			t.try(fmt.Sprintf("patterns %q text %q", pats, text), func() bool {
				x, y := m.Match(text), gm.Match(text)
				if x == nil {
					t.fail("nil", "Match returned nil", "")
					return true
				}
				prev := 0
				for _, z := range x.List {
					if z.Start < prev || z.End <= z.Start || z.End > len(x.Words) || z.ID < 0 || z.ID >= len(pats) {
						t.fail("order", "matches are not ordered, disjoint and in bounds", fmt.Sprint(x.List))
					}
					prev = z.End
				}
				if a, b := fmt.Sprint(x.List), fmt.Sprint(y.List); a != b {
					t.fail("match", "wrong matches", fmt.Sprintf("matches (license, first word, end word) %s, want %s", a, b))
				}
				return len(y.List) > 0
			})
		}
	}
}

// badOpening says why a pattern must not be accepted, or "".
func badOpening(n *node) string {
	// the set of (up to) two opening items of the pattern's texts; a wildcard is one item, and may be absent
	type two [2]string
	var op func(n *node) map[two]bool
	cat := func(a, b map[two]bool) map[two]bool {
		out := map[two]bool{}
		for x := range a {
			if x[1] != "" {
				out[x] = true
				continue
			}
			for y := range b {
				z := x
				if z[0] == "" {
					z = y
				} else if z[1] == "" {
					z[1] = y[0]
				}
				out[z] = true
			}
		}
		return out
	}
	op = func(n *node) map[two]bool {
		switch n.op {
		case 'w':
			return map[two]bool{{n.w, ""}: true}
		case '_':
			if n.n == 0 {
				return map[two]bool{{"", ""}: true}
			}
			m := map[two]bool{{"", ""}: true, {"__", ""}: true}
			if n.n > 1 {
				m[two{"__", "__"}] = true
			}
			return m
		case '.':
			out := map[two]bool{{"", ""}: true}
			for _, s := range n.sub {
				out = cat(out, op(s))
			}
			return out
		case '|':
			out := map[two]bool{}
			for _, s := range n.sub {
				for x := range op(s) {
					out[x] = true
				}
			}
			return out
		case '?':
			out := op(n.sub[0])
			out[two{"", ""}] = true
			return out
		}
		return nil
	}
	for x := range op(n) {
		switch {
		case x[0] == "":
			return "it matches the empty text"
		case x[1] == "" && x[0] != "__":
			return "it matches a single word"
		case x[0] == "__":
			return "it begins with a wildcard"
		case x[1] == "__":
			return "it has a wildcard in second place"
		}
	}
	return ""
}

// ---------------------------------------------------------------- C16, C17

func mergeLoop(t *T) {
	t.res.Rule = "all pairs of values of the named bits, then random values"
	const named = lc.Unrestricted | lc.Notice | lc.ShareChanges | lc.ShareProgram | lc.ShareServer | lc.NonCommercial | lc.Discouraged
	want := func(a, b lc.Type) lc.Type {
		if a == 0 || b == 0 {
			return 0
		}
		u := a | b
		var m lc.Type
		for _, x := range []lc.Type{lc.ShareServer, lc.ShareProgram, lc.ShareChanges, lc.Notice, lc.Unrestricted} {
			if u&x != 0 {
				m = x
				break
			}
		}
		m |= u & (lc.NonCommercial | lc.Discouraged)
		if m&lc.NonCommercial != 0 {
			m &^= lc.Unrestricted
		}
		return m
	}
	check := func(a, b lc.Type) {
		t.try(fmt.Sprintf("Type(%#x).Merge(Type(%#x))", uint(a), uint(b)), func() bool {
			got, w := a.Merge(b), want(a, b)
			if got&named != w&named {
				t.fail("merge", "wrong merged type", fmt.Sprintf("got %#x, want %#x", uint(got), uint(w)))
			}
			if got&^(a|b) != 0 {
				t.fail("extra", "the merged type has a bit absent from both", fmt.Sprintf("got %#x", uint(got)))
			}
			if got != b.Merge(a) {
				t.fail("commute", "merging is not commutative", fmt.Sprintf("%#x and %#x", uint(got), uint(b.Merge(a))))
			}
			return a != b
		})
	}
	for a := lc.Type(0); a <= 2*lc.Discouraged && !t.done(); a++ {
		for b := lc.Type(0); b <= 2*lc.Discouraged; b++ {
			check(a, b)
		}
	}
	if t.thorough {
		for !t.done() {
			check(lc.Type(t.Uint64()), lc.Type(t.Uint64()))
		}
	} else {
		for i := 0; i < 200000 && !t.done(); i++ {
			check(lc.Type(t.Uint64()&t.Uint64()), lc.Type(t.Uint64()&t.Uint64()))
		}
	}
}

func typeLoop(t *T) {
	t.res.Rule = "type values of every shape through String and ParseType; random |-separated strings against a reference parser"
	names := []string{"Unknown", "Unrestricted", "Notice", "ShareChanges", "ShareProgram", "ShareServer", "NonCommercial", "Discouraged"}
	vals := []lc.Type{lc.Unknown, lc.Unrestricted, lc.Notice, lc.ShareChanges, lc.ShareProgram, lc.ShareServer, lc.NonCommercial, lc.Discouraged}
	toString := func(v lc.Type) string {
		var l []string
		for i, x := range vals {
			if x != 0 && v&x != 0 {
				l = append(l, names[i])
				v &^= x
			}
		}
		if v != 0 {
			l = append(l, fmt.Sprintf("Type(%#x)", uint(v)))
		}
		if l == nil {
			return "Unknown"
		}
		return strings.Join(l, "|")
	}
	value := func(v lc.Type) {
		t.try(fmt.Sprintf("Type(%#x)", uint(v)), func() bool {
			s := v.String()
			if w := toString(v); s != w {
				t.fail("string", "wrong text form", fmt.Sprintf("got %q, want %q", s, w))
			}
			p, err := lc.ParseType(s)
			if err != nil || p != v {
				t.fail("roundtrip", "the text form does not parse back", fmt.Sprintf("%q parses as %#x, %v", s, uint(p), err))
			}
			return true
		})
	}
	for v := lc.Type(0); v < 4096 && !t.done(); v++ {
		value(v)
	}
	for b := uint(0); b < 64; b++ {
		value(lc.Type(1) << b)
		value(lc.Type(1)<<b | lc.Notice)
		value(^lc.Type(0) >> b)
	}
	terms := append(append([]string{}, names...), "", " ", "notice", "Notice ", "NOTICE", "Type(1)", "Type(0x10)", "Type(0x400)", "Type()", "Type(0)", "Type(-1)", "Type(1", "Type1)", "type(1)", "Type(0b11)", "Type(010)", "Type(0o7)", "Type(1_0)", "Type(0x1_0)", "Type( 1)", "Type(18446744073709551615)", "Type(18446744073709551616)", "Type(0xffffffffffffffff)", "Type(+1)", "Type(1))", "Type((1)", "Type(Notice)", "Unknown", "Type(09)", "x")
	for i := 0; !t.done() && (t.thorough || i < 400000); i++ {
		if t.Intn(4) == 0 {
			value(lc.Type(t.Uint64() >> uint(t.Intn(64))))
			continue
		}
		var l []string
		for k := t.Intn(4); k >= 0; k-- {
			x := pick(t.Rand, terms)
			if t.Intn(8) == 0 {
				x = fmt.Sprintf("Type(%#x)", t.Uint64()>>uint(t.Intn(64)))
			}
			l = append(l, x)
		}
		s := strings.Join(l, "|")
		t.try(fmt.Sprintf("ParseType(%q)", s), func() bool {
			got, err := lc.ParseType(s)
			want, gerr := goldlc.ParseType(s)
			if (err == nil) != (gerr == nil) || err == nil && uint(got) != uint(want) {
				t.fail("parse", "a string parses wrong", fmt.Sprintf("got %#x, %v; want %#x, %v", uint(got), err, uint(want), gerr))
			}
			return true
		})
	}
}

// ---------------------------------------------------------------- scanning: C01 C02 C03 C04 C05 C18, and C06

type scanCase struct {
	lics []lc.License
	desc string
	gen  *patGen
	pats []*node
	urls []string
	s    *lc.Scanner
	g    *goldlc.Scanner
}

var urlPool = []string{"creativecommons.org/licenses/by/3.0", "creativecommons.org/licenses/by/3.0/us", "opensource.org/licenses/mit", "example.com/l", "a.com/b", "x.org/y/z", "x.org", "foo.com/legalcode"}

func newScanCase(t *T) *scanCase {
	c := &scanCase{gen: newPatGen(t.Rand)}
	if t.Intn(2) == 0 {
		c.gen.words = append([]string{"copyright", "http"}, c.gen.words...)
	}
	n := 1 + t.Intn(4)
	var d []string
	for i := 0; i < n; i++ {
		l := lc.License{ID: fmt.Sprint("L", i), Type: lc.Type(1) << uint(t.Intn(10))}
		k := t.Intn(4)
		if k > 0 {
			p := c.gen.pattern(6)
			c.pats = append(c.pats, p)
			l.LRE = p.String()
		}
		if k < 2 || t.Intn(4) == 0 {
			l.URL = pick(t.Rand, urlPool)
			c.urls = append(c.urls, l.URL)
		}
		if t.Intn(20) == 0 && i > 0 {
			l.ID = "L0"
		}
		c.lics = append(c.lics, l)
		d = append(d, fmt.Sprintf("{ID:%q Type:%#x LRE:%q URL:%q}", l.ID, uint(l.Type), l.LRE, l.URL))
	}
	c.desc = strings.Join(d, " ")
	return c
}

func goldLics(l []lc.License) []goldlc.License {
	var out []goldlc.License
	for _, x := range l {
		out = append(out, goldlc.License{ID: x.ID, Type: goldlc.Type(x.Type), LRE: x.LRE, URL: x.URL})
	}
	return out
}

func (c *scanCase) build(t *T) bool {
	ok := false
	t.try("licenses "+c.desc, func() bool {
		g, gerr := goldlc.NewScanner(goldLics(c.lics))
		s, err := lc.NewScanner(c.lics)
		if (err == nil) != (gerr == nil) {
			t.fail("new", "NewScanner accepts or rejects a license set wrongly", fmt.Sprintf("got error %v, want error %v", err, gerr))
			return false
		}
		if err != nil {
			return false
		}
		c.s, c.g, ok = s, g, true
		return false
	})
	return ok
}

func randCase(t *T, s string) string {
	b := []byte(s)
	for i := range b {
		if t.Intn(3) == 0 && 'a' <= b[i] && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

func genURL(t *T, urls []string) string {
	u := pick(t.Rand, append(append([]string{}, urls...), urlPool...))
	if len(urls) > 0 && t.Intn(3) > 0 {
		u = pick(t.Rand, urls)
	}
	s := pick(t.Rand, []string{"http://", "https://", "http://", "https://", "http:/", "ftp://", "http:", "", "https://http://"}) + u
	s += pick(t.Rand, []string{"", "", "", "/", "/legalcode", "/legalcode/", "/us", "/us/", "//", "/a/b", "?x=1", "#f", "/é", ".", ")", ",", "/legalcode/us", "/us/legalcode"})
	if t.Intn(3) == 0 {
		s = randCase(t, s)
	}
	return s
}

func (c *scanCase) text(t *T) string {
	var b strings.Builder
	sep := func() {
		b.WriteString(pick(t.Rand, []string{" ", " ", "\n", "\n\n", ", ", "", "\n * ", " --- ", "<br>\n", "\t"}))
	}
	for k := t.Intn(5); k >= 0; k-- {
		switch t.Intn(7) {
		case 0, 1, 2:
			if len(c.pats) == 0 {
				continue
			}
			w := c.gen.sample(c.pats[t.Intn(len(c.pats))], nil)
			if t.Intn(3) == 0 {
				w = c.gen.mutate(w)
			}
			if len(w) > 300 {
				w = w[:300]
			}
			b.WriteString(joinWords(t, w))
		case 3, 4:
			b.WriteString(genURL(t, c.urls))
		case 5:
			b.WriteString(pick(t.Rand, []string{"copyright", "Copyright (c) 2020", "© Foo", "(c)", "Copyright\n2021 Bar\nAll rights"}))
			if t.Intn(4) == 0 {
				sep()
				for j := t.Intn(60); j > 0; j-- {
					b.WriteString(pick(t.Rand, []string{"xx ", "yy ", "zz\n", "copyright "}))
				}
			}
		default:
			if t.Intn(3) == 0 {
				b.WriteString(genSplitText(t))
			} else {
				b.WriteString(c.gen.anyWord())
			}
		}
		sep()
	}
	s := b.String()
	if t.Intn(4) == 0 {
		s = strings.TrimSpace(s)
	}
	return s
}

func covString(c lc.Coverage) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%.6f%%", c.Percent)
	for _, m := range c.Match {
		fmt.Fprintf(&b, " %s/%#x[%d:%d]%v", m.ID, uint(m.Type), m.Start, m.End, m.IsURL)
	}
	return b.String()
}

func goldCov(c goldlc.Coverage) lc.Coverage {
	out := lc.Coverage{Percent: c.Percent}
	for _, m := range c.Match {
		out.Match = append(out.Match, lc.Match{ID: m.ID, Type: lc.Type(m.Type), Start: m.Start, End: m.End, IsURL: m.IsURL})
	}
	return out
}

func filter(l []lc.Match, url bool) []lc.Match {
	var out []lc.Match
	for _, m := range l {
		if m.IsURL == url {
			out = append(out, m)
		}
	}
	return out
}

func scanCheck(t *T, prop string, got, want lc.Coverage, text string) bool {
	near := func(a, b float64) bool { return a-b < 1e-9 && b-a < 1e-9 }
	detail := "got  " + covString(got) + "\nwant " + covString(want)
	switch prop {
	case "C01":
		prev := 0
		for _, m := range got.Match {
			if m.Start < prev || m.End <= m.Start || m.End > len(text) {
				t.fail("order", "matches are not non-empty, ordered, disjoint and in bounds", detail)
			}
			prev = m.End
		}
	case "C02":
		if !(got.Percent >= 0 && got.Percent <= 100) {
			t.fail("range", "Percent is outside 0..100", detail)
		}
		if len(got.Match) == 0 && got.Percent != 0 {
			t.fail("zero", "Percent is not 0 although nothing matched", detail)
		}
		if reflect.DeepEqual(got.Match, want.Match) && !near(got.Percent, want.Percent) {
			t.fail("percent", "Percent is not the share of words inside the matches", detail)
		}
	case "C03", "C04", "C18":
		a, b := filter(got.Match, false), filter(want.Match, false)
		if prop != "C18" { // which licenses, where, apart from exact byte ranges
			if len(a) != len(b) {
				t.fail("count", "wrong license matches", detail)
				break
			}
			for i := range a {
				if a[i].ID != b[i].ID || a[i].Type != b[i].Type || a[i].Start >= b[i].End || b[i].Start >= a[i].End {
					t.fail("license", "wrong license matches", detail)
				}
			}
		} else if !reflect.DeepEqual(a, b) {
			t.fail("range", "a license match has the wrong byte range", detail)
		}
	case "C05":
		if a, b := filter(got.Match, true), filter(want.Match, true); !reflect.DeepEqual(a, b) {
			t.fail("url", "wrong URL matches", detail)
		}
	}
	switch prop {
	case "C05":
		return len(filter(want.Match, true)) > 0
	case "C01", "C02":
		return len(want.Match) > 0
	}
	return len(filter(want.Match, false)) > 0
}

func scanLoop(t *T, prop string) {
	t.res.Rule = "random license sets (patterns, URLs, both) against texts of their samples, URLs, notices and markup; then the built-in set against fragments of the test texts"
	end := t.deadline
	t.deadline = timeSplit(end)
	for !t.done() {
		c := newScanCase(t)
		if !c.build(t) {
			continue
		}
		for j := 0; j < 8 && !t.done(); j++ {
			text := c.text(t)
			t.try(fmt.Sprintf("licenses %s text %q", c.desc, text), func() bool {
				got := c.s.Scan([]byte(text))
				want := goldCov(c.g.Scan([]byte(text)))
				return scanCheck(t, prop, got, want, text)
			})
		}
	}
	t.deadline = end
	if t.done() {
		return
	}
	builtinLoop(t, prop)
}

func testTexts(t *T) []string {
	files, _ := filepath.Glob(filepath.Join(t.repo, "testdata", "*"))
	sort.Strings(files)
	var out []string
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err == nil {
			out = append(out, string(data))
		}
	}
	return out
}

func builtinLoop(t *T, prop string) {
	var s *lc.Scanner
	var g *goldlc.Scanner
	t.try("the built-in license set", func() bool {
		lics := lc.BuiltinLicenses()
		var err, gerr error
		g, gerr = goldlc.NewScanner(goldLics(lics))
		s, err = lc.NewScanner(lics)
		if (err == nil) != (gerr == nil) {
			t.fail("builtin", "NewScanner(BuiltinLicenses()) fails", fmt.Sprint(err))
			s = nil
		}
		return false
	})
	if s == nil || g == nil {
		return
	}
	texts := testTexts(t)
	if len(texts) == 0 {
		return
	}
	var urls []string
	for _, l := range lc.BuiltinLicenses() {
		if l.URL != "" {
			urls = append(urls, l.URL)
		}
	}
	for !t.done() {
		var b strings.Builder
		for k := t.Intn(3); k >= 0; k-- {
			x := texts[t.Intn(len(texts))]
			if len(x) > 12000 {
				o := t.Intn(len(x) - 8000)
				x = x[o : o+8000]
			}
			if t.Intn(3) == 0 && len(x) > 10 {
				x = x[t.Intn(len(x)/4+1):]
			}
			if t.Intn(2) == 0 {
				f := strings.Fields(x)
				for z := t.Intn(4); z >= 0 && len(f) > 2; z-- {
					i := t.Intn(len(f))
					j := strings.Index(x, f[i])
					if j >= 0 {
						x = x[:j] + pick(t.Rand, []string{"", "zzz", f[i] + "x", "copyright " + f[i]}) + x[j+len(f[i]):]
					}
				}
			}
			b.WriteString(x)
			if t.Intn(2) == 0 {
				b.WriteString(pick(t.Rand, []string{"\n", " ", "\ncopyright 2020 foo\n"}) + genURL(t, urls) + pick(t.Rand, []string{"\n", " "}))
			}
		}
		text := b.String()
		t.try(fmt.Sprintf("built-in licenses, text %q", text), func() bool {
			got := s.Scan([]byte(text))
			want := goldCov(g.Scan([]byte(text)))
			return scanCheck(t, prop, got, want, text)
		})
	}
}

// ---------------------------------------------------------------- C06

func pureLoop(t *T) {
	t.res.Rule = "repeated and concurrent scans on shared scanners, with the text, the scanner's answers and the license lists checked before and after"
	end := t.deadline
	t.deadline = timeSplit(end)
	// matching leaves the dictionary as it was
	for j := 0; j < 200 && !t.done(); j++ {
		g := newPatGen(t.Rand)
		p := g.pattern(7)
		d := new(match.Dict)
		re, err := match.ParseLRE(d, "p", p.String())
		if err != nil {
			continue
		}
		m, err := match.NewMultiLRE([]*match.LRE{re})
		if err != nil {
			continue
		}
		text := joinWords(t, append(g.mutate(g.sample(p, nil)), g.anyWord(), "neverseen"))
		before := append([]string(nil), d.Words()...)
		t.try(fmt.Sprintf("pattern %q text %q", p.String(), text), func() bool {
			m.Match(text)
			if !equalStrings(before, d.Words()) {
				t.fail("dict", "matching a text changed the dictionary", fmt.Sprintf("%q -> %q", before, d.Words()))
			}
			return true
		})
	}
	for !t.done() {
		c := newScanCase(t)
		lics := append([]lc.License(nil), c.lics...)
		if !c.build(t) {
			continue
		}
		if !reflect.DeepEqual(lics, c.lics) {
			t.fail("list", "NewScanner changed the list it was given", c.desc)
		}
		// the scanner does not depend on the caller's list any more
		for i := range c.lics {
			c.lics[i] = lc.License{ID: "other", LRE: "a b", URL: "a.com/b"}
		}
		var texts []string
		for j := 0; j < 6; j++ {
			texts = append(texts, c.text(t))
		}
		t.try(fmt.Sprintf("licenses %s texts %q", c.desc, texts), func() bool {
			nt := false
			var want []string
			for _, x := range texts {
				w := covString(goldCov(c.g.Scan([]byte(x))))
				want = append(want, w)
				buf := []byte(x)
				got := c.s.Scan(buf)
				if string(buf) != x {
					t.fail("text", "Scan changed the text", fmt.Sprintf("%q -> %q", x, buf))
				}
				if covString(got) != w {
					t.fail("first", "the result depends on earlier scans", fmt.Sprintf("text %q: got %s, want %s", x, covString(got), w))
				}
				// what the caller does with a result is its own business
				for i := range got.Match {
					got.Match[i] = lc.Match{ID: "gone"}
				}
				nt = nt || len(got.Match) > 0
			}
			var wg sync.WaitGroup
			for k := 0; k < 4; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					defer func() {
						if e := recover(); e != nil {
							t.fail("panic", "a concurrent scan panicked", fmt.Sprint(e))
						}
					}()
					for j := range texts {
						i := (j*5 + k) % len(texts)
						if got := covString(c.s.Scan([]byte(texts[i]))); got != want[i] {
							t.fail("concurrent", "a concurrent or later scan gave another result", fmt.Sprintf("text %q: got %s, want %s", texts[i], got, want[i]))
						}
					}
				}(k)
			}
			wg.Wait()
			return nt
		})
	}
	t.deadline = end
	if t.done() {
		return
	}
	texts := testTexts(t)
	t.try("the built-in license list", func() bool {
		l0 := lc.BuiltinLicenses()
		keep := append([]lc.License(nil), l0...)
		s, err := lc.NewScanner(l0)
		if err != nil {
			t.fail("builtin", "NewScanner(BuiltinLicenses()) fails", fmt.Sprint(err))
			return true
		}
		for i := range l0 {
			l0[i] = lc.License{ID: "mine", LRE: "mine only"}
		}
		if !reflect.DeepEqual(lc.BuiltinLicenses(), keep) {
			t.fail("copy", "changing the list BuiltinLicenses returned changes the built-in list", "")
		}
		i := 0
		for !t.done() && i < len(texts) {
			x := []byte(texts[i])
			y := append([]byte(nil), x...)
			if len(x) > 20000 {
				i++
				continue
			}
			var got lc.Coverage
			if i == 0 { // first use of the top-level function, concurrently
				var wg sync.WaitGroup
				res := make([]string, 4)
				for k := range res {
					wg.Add(1)
					go func(k int) { defer wg.Done(); res[k] = covString(lc.Scan(x)) }(k)
				}
				wg.Wait()
				got = s.Scan(x)
				for _, r := range res {
					if r != covString(got) {
						t.fail("toplevel", "Scan and NewScanner(BuiltinLicenses()).Scan differ", fmt.Sprintf("text %q\n%s\n%s", clip(texts[i], 500), r, covString(got)))
					}
				}
			} else {
				got = s.Scan(x)
			}
			top := lc.Scan(x)
			if covString(got) != covString(top) {
				t.fail("toplevel", "Scan and NewScanner(BuiltinLicenses()).Scan differ", fmt.Sprintf("text %q\n%s\n%s", clip(texts[i], 500), covString(top), covString(got)))
			}
			if !bytes.Equal(x, y) {
				t.fail("text", "Scan changed the text", clip(texts[i], 500))
			}
			i += 1 + t.Intn(5)
		}
		return true
	})
}
