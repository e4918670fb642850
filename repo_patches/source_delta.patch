From 3a4afad97a3654fec84a68db3b46abad1e952182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 1/9] fix: MultiLRE.Match: do not start a match inside the
 previous one

After a match the last matched word was kept as the first half of the
next start phrase, so a second match could begin on the last word of
the first one. The two matches then overlapped and the shared word was
counted twice (Percent could exceed 100).
---
 internal/match/regexp.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/match/regexp.go b/internal/match/regexp.go
index 3ce2189..af9fad4 100644
--- a/internal/match/regexp.go
+++ b/internal/match/regexp.go
@@ -204,8 +204,10 @@ func (re *MultiLRE) Match(text string) *Matches {
 				m.List = append(m.List, Match{ID: int(match), Start: i - 1, End: end})
 
 				// Continue search at end of match.
+				// The next phrase must not reach back into the match,
+				// so forget its last word too (p[1] becomes p[0]).
 				i = end - 1 // loop will i++
-				p[0] = BadWord
+				p[1] = BadWord
 				continue
 			}
 		}
-- 
2.43.0


From 1a8f7ad6ab26fd7ebfd06e4bd37bdaf2d7a27fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 2/9] fix: NewScanner: report an error for a license list
 without patterns

NewMultiLRE never returns nil without an error, so the check for a
missing LRE was dead and Scan panicked on the nil dictionary.
---
 scan.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scan.go b/scan.go
index 108e12a..d33b2b5 100644
--- a/scan.go
+++ b/scan.go
@@ -82,13 +82,14 @@ func (s *Scanner) init(licenses []License) error {
 			list = append(list, re)
 		}
 	}
+	if len(list) == 0 {
+		// A MultiLRE for no patterns has no dictionary and cannot scan text.
+		return errors.New("missing lre")
+	}
 	re, err := match.NewMultiLRE(list)
 	if err != nil {
 		return err
 	}
-	if re == nil {
-		return errors.New("missing lre")
-	}
 	s.re = re
 	return nil
 }
-- 
2.43.0


From 2b9d03aa91d88b70893d805b16f438a2805feaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 3/9] fix: reParse: reject wildcard counts that do not fit in
 an int32

A count such as 4294967297 was silently truncated to 1.
---
 internal/match/resyntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/match/resyntax.go b/internal/match/resyntax.go
index a5d6820..0d1d675 100644
--- a/internal/match/resyntax.go
+++ b/internal/match/resyntax.go
@@ -269,7 +269,7 @@ func reParse(d *Dict, s string, strict bool) (*reSyntax, error) {
 				i++
 				continue
 			}
-			n, err := strconv.Atoi(s[i+2 : j])
+			n, err := strconv.ParseInt(s[i+2:j], 10, 32)
 			if err != nil {
 				return nil, reSyntaxError(s, i, errors.New("invalid wildcard count "+s[i:j+2]))
 			}
-- 
2.43.0


From 6bb1345d1bd2cdf0435a038187c4af1f7e4283b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 4/9] fix: reDFA.match: do not report a match ending inside a
 split word

When an input word is split in two, the automaton state after its first
half may be a matching state. The match was reported with an end that
excludes the word, so the reported words did not include the pattern's
last word.
---
 internal/match/rematch.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/match/rematch.go b/internal/match/rematch.go
index 3dca29c..30d3ee0 100644
--- a/internal/match/rematch.go
+++ b/internal/match/rematch.go
@@ -873,7 +873,7 @@ Words:
 				// have[:len(want)] matches want.
 				// Look to see if have[len(want):] can be the word after want.
 				rest := have[len(want):]
-				m2, delta2 := dfa.stateAt(dnext)
+				_, delta2 := dfa.stateAt(dnext)
 				next2 := int32(-1)
 				for j2 := 0; j2 < len(delta2); j2 += 2 {
 					dw2, dnext2 := WordID(delta2[j2]), delta2[j2+1]
@@ -884,10 +884,9 @@ Words:
 				if next2 >= 0 {
 					// Successfully split have into two words
 					// to drive the DFA forward two steps.
-					if m2 >= 0 {
-						match = m2
-						end = i
-					}
+					// If the state in between is a matching state,
+					// that match would end in the middle of have,
+					// so it cannot be reported.
 					off = next2
 					continue Words
 				}
-- 
2.43.0


From 6b252a8e9a55d33aa8b473e1418e4800c7cf2f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 5/9] fix: licenseURL: lower-case the URL before trimming
 scheme and suffix

HTTPS://OpenSource.org/licenses/MIT matches urlScanRE but kept its
upper-case scheme in the lookup and so was never recognized; the same
held for an upper-case /LegalCode.
---
 scan.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scan.go b/scan.go
index d33b2b5..d6e4239 100644
--- a/scan.go
+++ b/scan.go
@@ -226,13 +226,13 @@ func (s *Scanner) Scan(text []byte) Coverage {
 // licenseURL reports whether url is a known URL, and returns its name if it is.
 func (s *Scanner) licenseURL(url string) (License, bool) {
 	// We need to canonicalize the text for lookup.
-	// First, trim the leading http:// or https:// and the trailing /.
-	// Then we lower-case it.
+	// First, lower-case it (urlScanRE accepts the scheme in any case too).
+	// Then we trim the leading http:// or https:// and the trailing /.
+	url = strings.ToLower(url)
 	url = strings.TrimPrefix(url, "http://")
 	url = strings.TrimPrefix(url, "https://")
 	url = strings.TrimSuffix(url, "/")
 	url = strings.TrimSuffix(url, "/legalcode") // Common for CC licenses.
-	url = strings.ToLower(url)
 	l, ok := s.urls[url]
 	if ok {
 		return l, true
-- 
2.43.0


From 7e4da9b419243d096c6948375970f3a7cac2b1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 6/9] fix: foldRune: fold all case variants of a rune to the
 same rune
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

For runes with three or more case variants, such as Å/å/U+212B or
Σ/ς/σ, the loop stopped at the first variant that was not smaller, so
words differing only in letter case were treated as different.
---
 internal/match/dict.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index fa38505..45095c1 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -223,15 +223,17 @@ func (d *Dict) split(text string, insert bool) []Word {
 // but that will require more thought about exactly what to do
 // and doing it efficiently. For now, the accents are enough.
 func foldRune(r rune) rune {
-	// Iterate SimpleFold until we hit the min equivalent rune,
+	// Iterate SimpleFold all the way around to find the min equivalent rune,
 	// which - for the ones we care about - is the upper case ASCII rune.
-	for {
-		r1 := unicode.SimpleFold(r)
-		if r1 >= r {
-			break
+	// (Stopping at the first increase would miss the min for orbits
+	// that are not in decreasing order, like Å å \u212B or Σ ς σ.)
+	min := r
+	for r1 := unicode.SimpleFold(r); r1 != r; r1 = unicode.SimpleFold(r1) {
+		if r1 < min {
+			min = r1
 		}
-		r = r1
 	}
+	r = min
 
 	switch r {
 	case 'Á', 'À':
-- 
2.43.0


From d39e7d2fa06619cc2b40b27722626ff9018c5ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 7/9] fix: foldRune: drop combining grave and acute accents
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The documentation says U+0300 and U+0301 are dropped, but they were
kept, so decomposed "e\u0301" was a different word from "é".
---
 internal/match/dict.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index 45095c1..7766d88 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -246,6 +246,9 @@ func foldRune(r rune) rune {
 		return 'o'
 	case 'Ú', 'Ù':
 		return 'u'
+	case '\u0300', '\u0301':
+		// delete combining grave and acute
+		return -1
 	}
 
 	if 'A' <= r && r <= 'Z' {
-- 
2.43.0


From 9272f6a1c5fac4d86160ba9dcec82f561bc1f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 8/9] fix: old.New: index a license text under its own position

Licenses with only a URL are not added to c.licenses, but the index
recorded the position in the caller's list, so a URL-only entry before
a text entry made Cover report the wrong license or panic.
---
 old/license.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/old/license.go b/old/license.go
index c53e53e..8ab6a93 100644
--- a/old/license.go
+++ b/old/license.go
@@ -101,7 +101,7 @@ func New(licenses []License) *Checker {
 		dict:     make(map[string]int32),
 		index:    make(map[phrase][]indexEntry),
 	}
-	for id, l := range licenses {
+	for _, l := range licenses {
 		if l.Text != "" {
 			next := len(c.licenses)
 			c.licenses = c.licenses[:next+1]
@@ -110,7 +110,7 @@ func New(licenses []License) *Checker {
 			cl.typ = licenseType(cl.name)
 			cl.text = l.Text
 			cl.doc = c.normalize([]byte(cl.text), true)
-			c.updateIndex(int32(id), cl.doc.words)
+			c.updateIndex(int32(next), cl.doc.words)
 		}
 		if l.URL != "" {
 			c.urls[l.URL] = l.Name
-- 
2.43.0


From 618954e693894d4d1698fee4f0b342113a9da145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 9/9] fix: data.gen.go: regenerate from the license files

The generated data was one corrected line behind the pattern files.
---
 data.gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.gen.go b/data.gen.go
index c472559..f3f75ce 100644
--- a/data.gen.go
+++ b/data.gen.go
@@ -9186,7 +9186,7 @@ parties intellectual property rights.
 `
 const license_BSD_4_Clause_UC_lre = `
 //**
-BSD 4-Clause (Univeristy of California-Specific)
+BSD 4-Clause (University of California-Specific)
 https://spdx.org/licenses/BSD-4-Clause-UC.json
 http://www.freebsd.org/copyright/license.html
 **//
-- 
2.43.0

