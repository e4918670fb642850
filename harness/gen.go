package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode"
)

func pick(r *rand.Rand, l []string) string { return l[r.Intn(len(l))] }

// text generation for word splitting

var foldRunes []rune // letters with unusual case behaviour, marks, other word characters

func init() {
	for r := rune(128); r <= unicode.MaxRune; r++ {
		if f := unicode.SimpleFold(r); f != r {
			if g := unicode.SimpleFold(f); g != r || f < 128 {
				foldRunes = append(foldRunes, r)
			}
		}
	}
	foldRunes = append(foldRunes, []rune("áàéèíìóòúùÁÀÉÈÍÌÓÒÚÙâêçñßŁłДд漢字٣\u0300\u0301\u0302\u0327\u093f©®µμΜ")...)
}

var splitTokens = []string{
	"a", "b", "c", "C", "the", "THE", "these", "This", "those", "them", "they", "are", "copies", "Copy", "is", "it",
	"copyright", "Copyright", "COPYRIGHT", "(c)", "(C)", "( c)", "(c )", "((c))", "©", "©1996", "(©)", "&copy;", "&copy", "&Copy;", "x©y", "©(s)", "c)", "(c", "(cc)",
	"(s)", "notice(s)", "notice(S)", "c(s)", "(c(s))", "https", "http", "HTTPS", "httpss", "https(s)", "https:", "http://a.org/b",
	"<b>", "</b>", "< b>", "<b", "<a href=\"http://x.org/\">", "<a:b>", "<a:/b>", "<http://example.com>", "<me@example.com>", "<me you@example.com>",
	"<b\n>", "<b\n\n>", "<b\n\n\n>", "<b\r\n>", "<b\r\r\r>", "<b<c>", "<1>", "<!-- x -->", "<a><b>", "<a x\ny>", "</", "<", ">", "<a/>", "</1>", "<a:", "<a@",
	"&amp;", "&#169;", "&#xA9;", "&#xa9;", "&#x;", "&#;", "&#12", "&#x12", "&lt;b&gt;", "&;", "&a", "&aZ;", "&a1;", "&#xg;", "&#xG;", "&#xFFg;", "&#x1F1;", "&#xAaFf09;", "&#:;", "&#/;", "&", "&#", "&#x", "&#1a;",
	"{#a}", "{#a b}", "{#}", "{#a", "{a}", "{#a\n}", "{#a\r}", "{#a{#b}", "{#a\tb}", "{", "}",
	"](http://x.org)", "](https://x.org/y)", "](mailto:a@b)", "](file:x)", "](#a)", "](#a b)", "](#a\t)", "](#a", "](x)", "](http:/x)", "[x](#y)z", "](#)", "]( #a)", "](#a\n)", "](ftp://a)", "](",
	"é", "e\u0301", "E\u0300x", "\u0301", "x\u0301", "x\u0302", "K", "ſ", "Å", "µ", "ß", "\xff", "a\xffb", "\xc3", "\xe2\x82", "漢字", "٣", "0", "1996", "a1", "1a", "\u00ad", "İ", "ı", "ǅ",
	"don't", "well-known", "a_b", "e.g.", "x/y", "A&B", "q,r;s",
}
var seps = []string{" ", " ", " ", "\n", "\t", "", "", ",", ". ", "\n\n", "(", ")", "-", "\r\n"}

func genSplitText(t *T) string {
	var b strings.Builder
	n := 1 + t.Intn(12)
	last := "x"
	for i := 0; i < n; i++ {
		switch k := t.Intn(24); {
		case k < 15:
			last = pick(t.Rand, splitTokens)
			b.WriteString(last)
		case k >= 23:
			// the same again
			b.WriteString(last)
		case k >= 22:
			// a random word, perhaps twice
			w := make([]byte, 1+t.Intn(12))
			for j := range w {
				w[j] = "abcdefghijklmnopqrstuvwxyz0189ABCXYZ"[t.Intn(36)]
			}
			last = string(w)
			b.WriteString(last)
			if t.Intn(2) == 0 {
				b.WriteString(" " + last)
			}
		case k >= 20:
			// a token with a byte changed
			w := []byte(pick(t.Rand, splitTokens))
			j := t.Intn(len(w))
			switch c := byte(1 + t.Intn(127)); t.Intn(3) {
			case 0:
				w[j] = c
			case 1:
				w = append(w[:j], w[j+1:]...)
			case 2:
				w = append(w[:j], append([]byte{c}, w[j:]...)...)
			}
			b.Write(w)
		case k < 17:
			for j := t.Intn(4); j >= 0; j-- {
				b.WriteRune(foldRunes[t.Intn(len(foldRunes))])
			}
		case k < 18:
			b.WriteRune(rune(t.Intn(0x30000)))
		case k < 19:
			b.WriteByte(byte(t.Intn(256)))
		default:
			const cs = "<>&#;x{}[]()/@: \r\nabc1"
			for j := t.Intn(10); j >= 0; j-- {
				b.WriteByte(cs[t.Intn(len(cs))])
			}
		}
		b.WriteString(pick(t.Rand, seps))
	}
	return b.String()
}

// patterns

type node struct {
	op  byte // w word, _ wildcard, . concat, | alternate, ? optional
	w   string
	n   int
	sub []*node
}

func (n *node) write(b *strings.Builder) {
	switch n.op {
	case 'w':
		b.WriteString(n.w + " ")
	case '_':
		fmt.Fprintf(b, "__%d__ ", n.n)
	case '.':
		for _, s := range n.sub {
			s.write(b)
		}
	case '|':
		b.WriteString("\n((")
		for i, s := range n.sub {
			if i > 0 {
				b.WriteString(" || ")
			}
			s.write(b)
		}
		b.WriteString("))\n")
	case '?':
		b.WriteString("\n((")
		n.sub[0].write(b)
		b.WriteString("))??\n")
	}
}

func (n *node) String() string {
	var b strings.Builder
	n.write(&b)
	return b.String()
}

type patGen struct {
	*rand.Rand
	words []string
	wild  []int // wildcard counts
	wildP int   // chance of a wildcard, per cent
	start bool  // leave out wildcards (opening words)
}

func (g *patGen) seq(n, depth int) *node {
	c := &node{op: '.'}
	for i := 0; i < n; i++ {
		k := g.Intn(100)
		switch {
		case k < g.wildP && len(g.wild) > 0:
			c.sub = append(c.sub, &node{op: '_', n: g.wild[g.Intn(len(g.wild))]})
		case k < g.wildP+12 && depth > 0:
			a := &node{op: '|'}
			for j := 1 + g.Intn(3); j >= 0; j-- {
				m := 1 + g.Intn(3)
				if g.Intn(8) == 0 {
					m = 0
				}
				a.sub = append(a.sub, g.seq(m, depth-1))
			}
			c.sub = append(c.sub, a)
		case k < g.wildP+24 && depth > 0:
			c.sub = append(c.sub, &node{op: '?', sub: []*node{g.seq(1+g.Intn(3), depth-1)}})
		default:
			c.sub = append(c.sub, &node{op: 'w', w: g.words[g.Intn(len(g.words))]})
		}
	}
	return c
}

// pattern: usually begins with two literal words
func (g *patGen) pattern(maxLen int) *node {
	c := g.seq(g.Intn(maxLen), 2)
	if g.Intn(12) > 0 {
		p := &node{op: '.', sub: []*node{{op: 'w', w: g.words[g.Intn(len(g.words))]}, {op: 'w', w: g.words[g.Intn(len(g.words))]}}}
		if g.Intn(5) == 0 {
			p.sub[g.Intn(2)] = &node{op: '|', sub: []*node{g.lit(1 + g.Intn(2)), g.lit(1 + g.Intn(2))}}
		}
		if g.Intn(8) == 0 {
			p.sub = append([]*node{{op: '?', sub: []*node{g.lit(1 + g.Intn(2))}}}, p.sub...)
		}
		c.sub = append(p.sub, c.sub...)
	}
	return c
}

func (g *patGen) lit(n int) *node {
	c := &node{op: '.'}
	for i := 0; i < n; i++ {
		c.sub = append(c.sub, &node{op: 'w', w: g.words[g.Intn(len(g.words))]})
	}
	return c
}

// sample appends words the pattern accepts (wildcards met by random words).
func (g *patGen) sample(n *node, out []string) []string {
	switch n.op {
	case 'w':
		return append(out, n.w)
	case '_':
		m := n.n
		if m > 12 {
			m = 12
		}
		k := g.Intn(m + 2)
		if g.Intn(4) == 0 {
			k = n.n
			if k > 60 {
				k = 60
			}
		}
		for ; k > 0; k-- {
			out = append(out, g.anyWord())
		}
		return out
	case '.':
		for _, s := range n.sub {
			out = g.sample(s, out)
		}
		return out
	case '|':
		return g.sample(n.sub[g.Intn(len(n.sub))], out)
	case '?':
		if g.Intn(2) == 0 {
			return out
		}
		return g.sample(n.sub[0], out)
	}
	return out
}

func (g *patGen) anyWord() string {
	if g.Intn(3) == 0 {
		return pick(g.Rand, []string{"zebra", "yonder", "quux", "1", "xyzzy"})
	}
	return g.words[g.Intn(len(g.words))]
}

// mutate makes small changes to a word sequence.
func (g *patGen) mutate(w []string) []string {
	w = append([]string(nil), w...)
	for k := g.Intn(3); k > 0 && len(w) > 0; k-- {
		i := g.Intn(len(w))
		switch g.Intn(8) {
		case 0:
			w = append(w[:i], w[i+1:]...)
		case 1:
			w = append(w[:i], append([]string{g.anyWord()}, w[i:]...)...)
		case 2:
			w[i] = g.anyWord()
		case 3, 4:
			w[i] = g.typo(w[i])
		case 5: // split a word
			if len(w[i]) > 1 {
				j := 1 + g.Intn(len(w[i])-1)
				w = append(w[:i], append([]string{w[i][:j], w[i][j:]}, w[i+1:]...)...)
			}
		case 6: // join two words
			if i+1 < len(w) {
				w[i] += w[i+1]
				w = append(w[:i+1], w[i+2:]...)
			}
		case 7:
			if i+1 < len(w) {
				w[i], w[i+1] = w[i+1], w[i]
			}
		}
	}
	return w
}

func (g *patGen) typo(s string) string {
	if s == "" {
		return "a"
	}
	i := g.Intn(len(s))
	c := string(rune('a' + g.Intn(26)))
	switch g.Intn(4) {
	case 0:
		return s[:i] + s[i+1:]
	case 1:
		return s[:i] + c + s[i:]
	case 2:
		return s[:i] + c + s[i+1:]
	default:
		return s + c
	}
}

var vocabSmall = []string{"a", "b", "c", "d"}
var vocabMid = []string{"alpha", "alpga", "beta", "gamma", "ray", "gammaray", "license", "licence", "copyright", "c", "notice", "the", "work", "works", "a", "all", "rights", "reserved", "under", "underthe"}

func newPatGen(r *rand.Rand) *patGen {
	g := &patGen{Rand: r, words: vocabMid, wild: []int{0, 1, 2, 3, 4, 5, 6, 10}, wildP: 12}
	switch r.Intn(4) {
	case 0:
		g.words = vocabSmall
	case 1:
		g.words = vocabSmall[:3]
		g.wildP = 25
	case 2:
		g.words = vocabMid[:5+r.Intn(len(vocabMid)-5)]
	}
	return g
}
