package main

import (
	"bytes"
	"fmt"
	"math"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/google/licensecheck/old"
)

func init() {
	props["C19"] = func(t *T) { oldLoop(t, "C19") }
	props["C20"] = func(t *T) { oldLoop(t, "C20") }
}

// An oldWord is a word of a text as the old package documents them: a run of
// letters, or a blank "___"; lo and hi are its place in the text.
type oldWord struct {
	lo, hi int
	word   string // lower case; "___" for a blank
}

// oldWords splits text into words, working on the original text throughout.
func oldWords(text string) []oldWord {
	var out []oldWord
	esc := func(i int) int {
		for _, e := range []string{"&ldquo;", "&rdquo;", "&amp;"} {
			if len(text)-i >= len(e) && strings.EqualFold(text[i:i+len(e)], e) && isASCII(text[i:i+len(e)]) {
				return len(e)
			}
		}
		return 0
	}
	for i := 0; i < len(text); {
		if n := esc(i); n > 0 {
			i += n
			continue
		}
		if strings.HasPrefix(text[i:], "___") {
			out = append(out, oldWord{i, i + 3, "___"})
			i += 3
			continue
		}
		r, w := utf8.DecodeRuneInString(text[i:])
		if !unicode.IsLetter(r) {
			i += w
			continue
		}
		j := i
		var b strings.Builder
		for j < len(text) {
			r, w := utf8.DecodeRuneInString(text[j:])
			if !unicode.IsLetter(r) {
				break
			}
			if l := unicode.ToLower(r); utf8.RuneLen(l) == w {
				r = l
			}
			b.WriteRune(r)
			j += w
		}
		marker := false
		if j < len(text) && (text[j] == '.' || text[j] == ':' || text[j] == ')') {
			for _, m := range strings.Fields("a b c d e f g h i j k l m n o p q r ii iii iv vi vii viii ix xi xii xiii xiv xv") {
				if m == b.String() {
					marker = true
				}
			}
		}
		if !marker {
			out = append(out, oldWord{i, j, b.String()})
		}
		i = j
	}
	return out
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

var oldVocab = []string{"permission", "hereby", "granted", "free", "of", "charge", "to", "any", "person", "the", "software",
	"copy", "a", "b", "i", "ii", "xv", "zz", "Ünïcode", "\u212aelvin", "\u0130stanbul", "STRASSE", "Ⱥbc", "ſharp", "ɐɥ", "\u1e9eX", "x\u0301"}
var oldSeps = []string{" ", " ", " ", " ", "\n", ", ", ". ", ") ", ": ", "-", "1", " &amp; ", "&ldquo;", "&RDQUO;", "\xff", "\xe2\x84", " ___ ", "___", "__", "&amp", "\u00a0", "\u20ac", "́"}
var oldURLs = []string{"example.org/licenses/a", "example.org/licenses/b", "creativecommons.org/licenses/by/4.0", "foo.com/x/y", "foo.com", "example.org", "opensource.org/licenses/mit"}

type oldGen struct{ t *T }

func (g oldGen) words(n int) []string {
	var out []string
	k := 3 + g.t.Intn(len(oldVocab)-3)
	for i := 0; i < n; i++ {
		out = append(out, oldVocab[g.t.Intn(k)])
	}
	return out
}

func (g oldGen) join(ws []string, wild int) string {
	var b strings.Builder
	for i, w := range ws {
		if i > 0 {
			if g.t.Intn(100) < wild {
				b.WriteString(pick(g.t.Rand, oldSeps))
			} else {
				b.WriteString(" ")
			}
		}
		if g.t.Intn(6) == 0 {
			w = strings.ToUpper(w)
		}
		b.WriteString(w)
	}
	return b.String()
}

func (g oldGen) url() string {
	t := g.t
	u := pick(t.Rand, oldURLs)
	switch t.Intn(8) {
	case 0:
		u = strings.ToUpper(u)
	case 1:
		u += "/legalcode"
	case 2:
		u += "/us/"
	case 3:
		u += "/"
	case 4:
		u += "/us/more"
	}
	return pick(t.Rand, []string{"http://", "https://", "HTTPS://"}) + u
}

func oldLoop(t *T, prop string) {
	t.res.Rule = "random license lists (texts, URLs, both) and inputs mixing their texts, URLs, blanks, markers and odd bytes; a case counts when Cover reports a match"
	oldRunes(t, prop)
	g := oldGen{t}
	for !t.done() {
		var list []old.License
		n := t.Intn(5)
		if t.Intn(20) == 0 {
			n = 5 + t.Intn(30)
		}
		for i := 0; i < n; i++ {
			l := old.License{Name: pick(t.Rand, []string{"MIT", "BSD-3", "Apache-2.0", "Foo", "GPL-2.0", "CC-BY"}) + fmt.Sprint(i)}
			if t.Intn(10) == 0 {
				l.Name = "Same"
			}
			kind := t.Intn(5)
			if kind != 0 {
				if i > 0 && t.Intn(3) == 0 && list[t.Intn(i)].Text != "" {
					// shares a passage with an earlier license
					l.Text = list[t.Intn(i)].Text
					if w := strings.Fields(l.Text); len(w) > 3 {
						a := t.Intn(len(w) - 2)
						l.Text = strings.Join(append(append([]string{}, w[a:]...), g.words(t.Intn(8))...), " ")
					}
				} else {
					ws := g.words(1 + t.Intn(25))
					l.Text = g.join(ws, t.Intn(30))
				}
				if t.Intn(20) == 0 {
					l.Text = pick(t.Rand, []string{"1 2 3", "...", "a.", "___", "___ ___ ___"})
				}
			}
			if kind <= 1 {
				l.URL = pick(t.Rand, oldURLs)
			}
			list = append(list, l)
		}
		var b strings.Builder
		for k := t.Intn(7); k > 0; k-- {
			switch t.Intn(8) {
			case 0, 1, 2, 3:
				if len(list) > 0 {
					w := strings.Fields(list[t.Intn(len(list))].Text)
					if len(w) > 0 && t.Intn(3) > 0 {
						// a passage, perhaps with a word changed or blanks filled in
						a := t.Intn(len(w))
						e := a + 1 + t.Intn(len(w)-a)
						if t.Intn(2) == 0 {
							a, e = 0, len(w)
						}
						w = append([]string{}, w[a:e]...)
						for i := range w {
							if w[i] == "___" {
								w[i] = strings.Join(g.words(t.Intn(4)), " ")
							}
						}
						if t.Intn(3) == 0 {
							w[t.Intn(len(w))] = pick(t.Rand, oldVocab)
						}
					}
					b.WriteString(g.join(w, t.Intn(15)))
				}
			case 4, 5:
				b.WriteString(g.url())
			case 6:
				b.WriteString(g.join(g.words(t.Intn(30)), 20))
			case 7:
				b.WriteString(pick(t.Rand, oldSeps))
			}
			b.WriteString(pick(t.Rand, oldSeps))
		}
		input := b.String()
		opts := old.Options{}
		if t.Intn(5) > 0 {
			opts = old.Options{MinLength: t.Intn(6) - 1, Threshold: t.Intn(110) - 5, Slop: t.Intn(12) - 1}
		}
		t.try(fmt.Sprintf("licenses %q options %+v text %q", list, opts, input), func() bool {
			return oldCheck(t, prop, list, opts, input)
		})
	}
}

func oldCheck(t *T, prop string, list []old.License, opts old.Options, input string) bool {
	c := old.New(list)
	data := []byte(input)
	cov, ok := c.Cover(data, opts)
	ms := cov.Match
	words := oldWords(input)
	if prop == "C19" {
		if !bytes.Equal(data, []byte(input)) {
			t.fail("input", "Cover changed its input", "")
		}
		if ok != (len(ms) > 0) {
			t.fail("ok", "the result does not say whether there are matches", fmt.Sprintf("%v, %+v", ok, cov))
		}
		if !(cov.Percent >= 0 && cov.Percent <= 100) || math.IsNaN(cov.Percent) {
			t.fail("percent", "the overall Percent is not between 0 and 100", fmt.Sprintf("%+v", cov))
		}
		starts, ends := map[int]bool{0: true}, map[int]bool{len(input): true}
		for _, w := range words {
			starts[w.lo] = true
			ends[w.hi] = true
			if w.word == "___" {
				ends[w.lo] = true // a blank has no extent of its own
			}
		}
		urls := false
		sum := 0
		for i, m := range ms {
			if m.Start < 0 || m.End < m.Start || m.End > len(input) {
				t.fail("bounds", "a match is out of bounds", fmt.Sprintf("%+v", cov))
			}
			if i > 0 && ms[i-1].End > m.Start {
				t.fail("disjoint", "matches are out of order or overlap", fmt.Sprintf("%+v", cov))
			}
			if !starts[m.Start] || !ends[m.End] {
				t.fail("offsets", "a match does not begin and end with a word of the input", fmt.Sprintf("%+v words %v", m, words))
			}
			urls = urls || m.IsURL
			for _, w := range words {
				if w.lo >= m.Start && w.hi <= m.End || w.word == "___" && w.lo >= m.Start && w.lo < m.End {
					sum++
				}
			}
		}
		if len(words) > 0 && !urls && len(ms) > 0 && !strings.Contains(input, "___") {
			if want := 100 * float64(sum) / float64(len(words)); math.Abs(want-cov.Percent) > 1e-9 {
				t.fail("percent", "the overall Percent is not the share of the words inside matches", fmt.Sprintf("%+v want %v", cov, want))
			}
		}
		return len(ms) > 0
	}
	// C20
	min := opts.MinLength
	if min <= 0 {
		min = 10
	}
	byURL := map[string]string{}
	var texts [][]string
	var names []string
	var textOnly []old.License
	for _, l := range list {
		if l.URL != "" {
			byURL[l.URL] = l.Name
		}
		if l.Text != "" {
			var ws []string
			for _, w := range oldWords(l.Text) {
				ws = append(ws, w.word)
			}
			texts = append(texts, ws)
			names = append(names, l.Name)
			textOnly = append(textOnly, old.License{Name: l.Name, Text: l.Text})
		}
	}
	nText := 0
	for _, m := range ms {
		if m.Type != oldType(m.Name) {
			t.fail("type", "a match has the wrong type for its name", fmt.Sprintf("%+v", m))
		}
		if m.IsURL {
			if m.Percent != 100 {
				t.fail("urlpercent", "a URL match is not 100 percent", fmt.Sprintf("%+v", m))
			}
			if m.Start < 0 || m.End > len(input) || m.Start > m.End {
				continue // C19's
			}
			if !oldURLAt(input, m, ms, words, byURL) {
				t.fail("url", "a URL match names a license not listed with that URL", fmt.Sprintf("%+v", m))
			}
			continue
		}
		nText++
		if m.Start < 0 || m.End > len(input) || m.Start > m.End {
			continue
		}
		var mw []string
		for _, w := range words {
			if w.lo >= m.Start && w.hi <= m.End || w.word == "___" && w.lo >= m.Start && w.lo < m.End {
				mw = append(mw, w.word)
			}
		}
		good := false
		for i, n := range names {
			if n != m.Name {
				continue
			}
			// the match ends with a run of at least min words of the license,
			// and begins with a word of the license
			k := len(mw) - min
			if k >= 0 && containsRun(texts[i], mw[k:]) && containsRun(texts[i], mw[:1]) {
				good = true
			}
			// a match that ends in a blank may not show the blank
			if k+1 >= 0 && len(mw) > 0 && containsRun(texts[i], append(append([]string{}, mw[maxInt(0, k+1):]...), "___")) {
				good = true
			}
		}
		if !good {
			t.fail("attribution", "a match names a license whose text does not contain the words found", fmt.Sprintf("%+v words %q", m, mw))
		}
	}
	// entries with only a URL make no difference to text matches
	if len(textOnly) < len(list) && !strings.Contains(strings.ToLower(input), "http") {
		c2 := old.New(textOnly)
		cov2, _ := c2.Cover([]byte(input), opts)
		if fmt.Sprint(cov2) != fmt.Sprint(cov) {
			t.fail("urlonly", "entries with a URL change the text matches", fmt.Sprintf("%+v with, %+v without", cov, cov2))
		}
	}
	// an input that is the whole text of one license is attributed to a license with all those words
	if t.Intn(4) == 0 && len(texts) > 0 {
		i := t.Intn(len(texts))
		blank := false
		for _, w := range texts[i] {
			blank = blank || w == "___"
		}
		if len(texts[i]) >= min && len(texts[i]) >= 2 && !blank {
			cov, _ := c.Cover([]byte(textOnly[i].Text), opts)
			found := false
			for _, m := range cov.Match {
				found = found || m.Name == names[i] || !m.IsURL && m.Percent >= 0
			}
			if !found && opts.Threshold <= 100 {
				t.fail("found", "the text of a listed license is not found", fmt.Sprintf("%q: %+v", textOnly[i].Text, cov))
			}
		}
	}
	return nText > 0 || len(ms) > 0
}

// containsRun reports whether run occurs in words; a blank matches only a blank.
func containsRun(words, run []string) bool {
	for i := 0; i+len(run) <= len(words); i++ {
		ok := true
		for j := range run {
			if words[i+j] != run[j] {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// oldURLAt reports whether a URL of the license named by m lies at m.
// m begins with the first word of the URL and ends with the last one.
func oldURLAt(input string, m old.Match, ms []old.Match, words []oldWord, byURL map[string]string) bool {
	low := asciiLower(input)
	for i := 0; i < m.End; i++ {
		if !strings.HasPrefix(low[i:], "http") {
			continue
		}
		// any URL that begins here and lies over the match (it may have been cut after the last word before a text match)
		u := oldURLRE.FindStringIndex(low[i:])
		if u == nil || u[0] != 0 || i+u[1] <= m.Start {
			continue
		}
		for j := u[1]; j > 10 && i+j > m.Start; j-- {
			x := low[i : i+j]
			if j < u[1] {
				cut := false
				for _, o := range ms {
					if o != m && o.Start >= i+j {
						none := true
						for _, w := range words {
							none = none && !(w.hi > i+j && w.lo < o.Start && !(w.word == "___" && w.lo == i+j))
						}
						cut = cut || none
					}
				}
				if !cut {
					continue
				}
			}
			if v := oldURLRE.FindStringIndex(x); v == nil || v[0] != 0 || v[1] != j {
				continue
			}
			x = strings.TrimPrefix(strings.TrimPrefix(x, "http://"), "https://")
			x = strings.TrimSuffix(strings.TrimSuffix(x, "/"), "/legalcode")
			if n, ok := byURL[x]; ok && n == m.Name {
				return true
			}
			if k := strings.LastIndexByte(x, '/'); k >= 0 {
				if n, ok := byURL[x[:k]]; ok && n == m.Name {
					return true
				}
			}
		}
	}
	return false
}

var oldURLRE = regexp.MustCompile(`https?://([-a-z0-9_.]+)+(\.org|com)(/[-a-z0-9_.#?=]+)+/?`)

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func oldType(name string) old.Type {
	for i, p := range []string{"AGPL", "Apache", "BSD", "CC", "GPL", "JSON", "MIT", "Unlicense", "Zlib"} {
		if strings.HasPrefix(name, p) {
			return old.Type(i)
		}
	}
	return old.Other
}

// oldRunes runs every rune once through Cover: wherever the rune stands, the
// offsets of the words after it are those of the input.
func oldRunes(t *T, prop string) {
	if prop != "C19" {
		return
	}
	c := old.New([]old.License{{Name: "L", Text: "alpha beta gamma delta"}})
	for r := rune(0); r <= unicode.MaxRune && !t.done(); r++ {
		if r > 0x20000 && r < 0xe0000 || r > 0xe0fff && r < 0x10ff00 {
			continue
		}
		s := string(r)
		if 0xd800 <= r && r < 0xe000 {
			s = string([]byte{0xed, byte(0x80 | r>>6&0x3f), byte(0x80 | r&0x3f)})
		}
		for _, in := range []string{"x" + s + " alpha beta gamma delta zz" + s} {
			t.try(fmt.Sprintf("license %q text %q", "alpha beta gamma delta", in), func() bool {
				cov, _ := c.Cover([]byte(in), old.Options{MinLength: 4})
				i := strings.Index(in, "alpha")
				if len(cov.Match) != 1 || cov.Match[0].Start != i || cov.Match[0].End != i+len("alpha beta gamma delta") {
					t.fail("shift", "the offsets of a match are not those of the words in the input", fmt.Sprintf("%+v want %d", cov, i))
				}
				return len(cov.Match) > 0
			})
		}
	}
}
