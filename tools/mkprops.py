import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="scan.go";L="license.go";D="internal/match/dict.go";R="internal/match/regexp.go";M="internal/match/rematch.go";X="internal/match/resyntax.go";O="old/license.go";N="old/normalize.go"
p("C01","Scan is total and its matches are ordered, disjoint and in bounds",
 "For every scanner that NewScanner returned without error (and for the built-in one) and every byte string under 2 GiB, valid UTF-8 or not, Scan terminates without panicking. The reported matches are in text order, each is a non-empty range inside the text, and no two of them overlap.",
 ["inputs","configurations"],"every text under 2 GiB and every license set NewScanner accepts",
 "The tests scan about 670 license files with one license set; they never see adjoining matches whose words chain, odd bytes, tiny texts, or scanners without patterns.",
 [S,R,M,D],[("Scanner.Scan","scan.go"),("MultiLRE.Match","internal/match/regexp.go"),("reDFA.match and stateAt","internal/match/rematch.go"),("Dict.split","internal/match/dict.go")],
 ["licensecheck.Scan","Scanner.Scan"])
p("C02","Percent is exactly the share of the text's words inside the matches",
 "The Percent of a scan equals 100 times the number of normalized words lying inside the reported matches (license texts and URLs alike), divided by the number of normalized words of the text. It is therefore always between 0 and 100, it is 0 when nothing matched or the text has no words, and no word is counted twice.",
 ["inputs","configurations"],"every text and every license set",
 "The tests compare Percent to one decimal for fixed files, mostly near 100%, so a lost or doubled word goes unnoticed.",
 [S],[("Scanner.Scan word accounting","scan.go")],["Coverage.Percent"])
p("C03","A reported license was really matched: words and identity are justified",
 "Every non-URL match carries the ID and Type of one license of the scanner's set whose pattern accepts exactly the words of the matched range, reading them one after the other: each pattern word is met by an equal word if there is one, else by a tolerated misspelling or a joined or split word pair, else by a wildcard slot. When several patterns accept the same longest range, the license listed first is the one reported. Licenses given only by URL never shift the identity of the others.",
 ["inputs","configurations"],"every text and every license set",
 "A false positive needs a text close to, but not in, a pattern's language; the tests only hold texts that should match and a handful of tiny automata.",
 [S,R,M],[("Scanner.init license/pattern lockstep","scan.go"),("reCompileMulti match values","internal/match/rematch.go"),("nfaState.match smallest value","internal/match/rematch.go"),("reDFA.match","internal/match/rematch.go")],
 ["Match.ID","Match.Type","Match.Start","Match.End"])
p("C04","License matches are exactly the leftmost-longest, non-overlapping ones",
 "Scanning the words from left to right, at the first position not inside an earlier match where the next two words are, spelled exactly, an opening of some license pattern and the words from there are accepted, the longest accepted run is reported, and scanning resumes right after it. No such match is skipped, none is cut short, and none starts inside an earlier one.",
 ["inputs","configurations"],"every text and every license set",
 "Tests have three tiny multi-pattern cases; resumption after a match, phrase pre-filtering and longest-prefix bookkeeping depend on unbounded word sequences.",
 [R,M],[("MultiLRE.Match","internal/match/regexp.go"),("reDFA.match","internal/match/rematch.go")],["MultiLRE.Match","Coverage.Match"])
p("C05","License URLs are recognized exactly, independent of letter case and scheme",
 "A URL in the text that no license-text match and no earlier URL match overlaps is reported as a URL match exactly when its canonical form (no http:// or https:// scheme, no trailing slash, no trailing /legalcode, lower case), or that form with its last path element removed, is the URL of a license of the set; the match carries that license's ID and Type and covers exactly the URL. The letter case of the URL in the text, scheme included, does not matter. A URL match never reaches into a license-text match.",
 ["inputs","configurations"],"every text and every set of license URLs",
 "Six example texts exercise URLs, all with lower-case scheme and none touching a license match.",
 [S],[("Scanner.Scan URL pass","scan.go"),("Scanner.licenseURL","scan.go"),("urlScanRE","scan.go")],["Coverage.Match with IsURL"])
p("C06","Scanning is pure: no call changes the text, the scanner or later results",
 "The result of a scan depends only on the text and on the license set, never on earlier or concurrent calls: Scan writes neither the caller's text, nor the scanner, nor its dictionary, nor the built-in license list or any other shared data. The list returned by BuiltinLicenses is the caller's own copy, and a scanner built from it reports what the top-level Scan reports.",
 ["inputs","histories","schedules"],"every text, every history of calls on one scanner, every interleaving of concurrent calls",
 "Tests run some parallel scans without the race detector, and never compare a scanner before and after.",
 [S,R,D,M],[("Scanner.Scan","scan.go"),("BuiltinLicenses","scan.go"),("Dict.Split is read-only","internal/match/dict.go"),("reDFA.match is read-only","internal/match/rematch.go")],["Scan","BuiltinLicenses","Dict.Words"])
p("C07","The dictionary is a stable one-to-one numbering of words",
 "Inserting a word yields the same number every time and different words get different numbers; numbers are dense from 0 in order of first insertion and the word list maps each number back to its word. Looking a word up returns exactly its number, or the not-found value if it was never inserted, and changes nothing.",
 ["inputs","histories"],"every sequence of Insert, Lookup, InsertSplit, Split and Words calls",
 "One six-word example.",
 [D],[("Dict.Insert","internal/match/dict.go"),("Dict.Lookup","internal/match/dict.go")],["Dict.Insert","Dict.Lookup","Dict.Words"],
 [("Dict.dict/Dict.list","mutually inverse word/number tables","internal/match/dict.go")])
p("C08","Word splitting yields ordered, in-bounds words, the same with and without insert",
 "Splitting any text under 2 GiB terminates and yields words whose byte ranges are non-empty, inside the text, and in strictly increasing non-overlapping order, each carrying the dictionary number of its canonical form or the not-found value. Splitting with insertion never yields the not-found value, and splitting the same text again afterwards, with or without insertion, yields the same words; splitting without insertion leaves the dictionary unchanged.",
 ["inputs","histories"],"every text and every dictionary state",
 "Tests compare the text of about 40 short inputs; none checks positions, invalid UTF-8, or agreement of the two modes.",
 [D],[("Dict.split","internal/match/dict.go")],["Dict.Split","Dict.InsertSplit"])
p("C09","Markup is skipped exactly as described and nothing else is",
 "HTML tags, HTML character entities, Markdown heading anchors and Markdown link targets contribute no words to the split text, except that &copy; reads as the word copyright; text in angle brackets that looks like an e-mail address or a URL, spans more than two line ends or is never closed is kept as words. Everything outside such markup is split into words as if the markup were punctuation.",
 ["inputs"],"every text",
 "Some 20 short examples; the scanning loops run over arbitrarily long markup.",
 [D],[("htmlTagSize","internal/match/dict.go"),("htmlEntitySize","internal/match/dict.go"),("markdownAnchorSize","internal/match/dict.go"),("markdownLinkSize","internal/match/dict.go")],["Dict.Split","Dict.InsertSplit"])
p("C10","Word comparison ignores letter case and grave or acute accents",
 "Two words that differ only in Unicode letter case have the same canonical form, for every letter with simple case variants. Vowels with a grave or acute accent, precomposed or written with the combining mark U+0300 or U+0301 (which is dropped from any word), read as the plain vowel, ASCII letters read as lower case, and every other character of a word is kept.",
 ["inputs"],"every Unicode code point and every word",
 "Tests try ASCII letters and twenty precomposed vowels out of 1.1 million code points.",
 [D],[("foldRune","internal/match/dict.go"),("appendFoldRune","internal/match/dict.go"),("toFold","internal/match/dict.go")],["Dict.Split","Dict.InsertSplit"])
p("C11","Spelling tolerance is exactly one edit, a join, a split, or c for copyright",
 "Inside a match, an input word is accepted for a different expected word exactly when one of the two is at least four bytes long and a single byte insertion, deletion or replacement turns one into the other, or when both are among c and the copyright word or sign; an input pair is accepted when its concatenation is the expected word, and an input word when it is the concatenation of two expected words in sequence. Any other difference ends the match.",
 ["inputs"],"every pair or triple of words",
 "Sixteen fixed word pairs on one six-letter word.",
 [M],[("canMisspell","internal/match/rematch.go"),("canMisspellJoin","internal/match/rematch.go"),("reDFA.match split","internal/match/rematch.go")],["MultiLRE.Match"])
p("C12","Pattern parsing is total: a well-formed result or an error, counts kept exact",
 "Parsing any byte string as a pattern terminates with either a well-formed pattern or an error, never a panic. A wildcard's count is taken exactly, or the pattern is rejected where the count does not fit 32 bits, and a parsed pattern contains no unbalanced grouping, no operator without operand, and no bar outside a group.",
 ["inputs"],"every byte string given as a pattern",
 "Fifteen patterns, five of them malformed; none with long lines, stray operators at the ends, or counts beyond 32 bits.",
 [X],[("reParse","internal/match/resyntax.go"),("reParser.*","internal/match/resyntax.go"),("reSyntaxError","internal/match/resyntax.go")],["ParseLRE","NewScanner"])
p("C13","Accepted patterns open with two literal words; all their starts are kept",
 "A multi-pattern matcher, and so a scanner, is built only if every text accepted by each pattern begins with two literal words; patterns that can match the empty text, a single word, or that begin with a wildcard in either of the first two places are rejected with an error. The pairs of opening words used to find match starts include every pair with which an accepted text can begin.",
 ["inputs","configurations"],"every pattern syntax tree",
 "Twelve patterns for the phrase computation, no test for any of the rejections.",
 [R,X],[("NewMultiLRE","internal/match/regexp.go"),("reSyntax.leadingPhrases","internal/match/resyntax.go")],["NewMultiLRE","NewScanner"])
p("C14","Compiled automata are well formed and agree with the pattern program",
 "Every compiled pattern is a program whose jumps stay inside it and which can always reach acceptance, and the automaton built from it has only valid transitions and accepts after the same words, with the same license value, as running the program's instruction sets word by word. Building or running the automaton never goes out of bounds, for any set of patterns.",
 ["inputs","configurations"],"every set of patterns and every word sequence",
 "About twenty listings of small programs and automata are compared literally.",
 [M],[("reSyntax.compile","internal/match/rematch.go"),("reCompileMulti","internal/match/rematch.go"),("nfaState.add/next/trim/words/match","internal/match/rematch.go"),("dfaBuilder.add","internal/match/rematch.go")],["NewMultiLRE","MultiLRE.Match"])
p("C15","A wildcard takes at most its count, and is over after three literal words",
 "A wildcard __N__ is met by any run of zero to N words and never by more. Once the three literal words that follow a wildcard with N above 3 (or all of them, if the pattern ends or another wildcard begins sooner) have been matched, the wildcard is over and no reading in which it takes further words is pursued. Optional parts and alternatives in between delay this only as far as their own literal words require.",
 ["inputs","configurations"],"every pattern with wildcards and every word sequence",
 "Cut placement is compared on a dozen listings; merging of cuts over alternatives and nesting is unbounded.",
 [M],[("reCompile.compile","internal/match/rematch.go"),("reduceCut/mergeCut/compileCuts","internal/match/rematch.go"),("nfaState.trim","internal/match/rematch.go")],["ParseLRE","MultiLRE.Match"])
p("C16","Merging license types keeps the strongest requirement and every warning",
 "For all type values: merging with Unknown gives Unknown; otherwise the result carries, among Unrestricted, Notice, ShareChanges, ShareProgram and ShareServer, only the strongest present in either, together with NonCommercial and Discouraged if present in either, and Unrestricted is dropped when NonCommercial is set. Merging is commutative and idempotent on named types, associative on known ones, and never sets a bit absent from both.",
 ["inputs"],"all pairs (and triples) of type values",
 "Five pairs out of 2^128.",
 [L],[("Type.Merge","license.go")],["Type.Merge"])
p("C17","Type values and their text form round-trip",
 "For every type value, parsing its text form succeeds and yields the same value; the text form lists the names of the set bits in declared order joined by |, with any unnamed remainder last, and Unknown for zero. Parsing accepts exactly |-separated lists of known names and Type(number) terms, yields the union of their bits, and reports an error for anything else.",
 ["inputs"],"every type value and every string",
 "The test loops over 612 small values and never parses malformed text.",
 [L],[("Type.String","license.go"),("ParseType","license.go")],["Type.String","ParseType"])
p("C18","A match's byte range takes in its notice and whole line ends, no other word",
 "A license match covers exactly the words the pattern matched, extended to the left to the earliest copyright word among the (at most 50) unmatched words before it. Its byte range starts at the beginning of the line its first word is on if only non-words precede there (at 0 for the first word of the text), otherwise at that word, and ends after the line end that follows its last word if only non-words precede that (at the end of the text for the last word), otherwise at that word's end.",
 ["inputs","configurations"],"every text and every license set",
 "Offsets are compared only for whole license files, most of which are covered from 0 to the end.",
 [S],[("Scanner.Scan","scan.go")],["Match.Start","Match.End"])
p("C19","Old Cover: matches ordered, disjoint, in bounds; offsets survive normalization",
 "For every checker and every input under 2 GiB, the old Cover terminates without panicking; its matches are ordered, pairwise disjoint, in bounds, and its overall Percent lies between 0 and 100. Normalization preserves byte offsets: lower-casing and unescaping never change the length of the text, and word offsets increase strictly.",
 ["inputs","configurations"],"every text, every license list, every option setting",
 "The old package's tests do not compile here (their data file is missing), so nothing of it is tested.",
 [O,N],[("Checker.Cover","old/license.go"),("Checker.submatches","old/license.go"),("Checker.normalize","old/normalize.go"),("toLower","old/normalize.go")],["old.Checker.Cover"])
p("C20","Old New/Cover: every match names the license whose text was found",
 "In the old package, a checker built from any list of licenses, with texts, URLs or both in any order, attributes each text match to a license whose own text contains the matched run of words, and each URL match to the license listed with that URL; licenses given only by URL never shift the attribution or cause a failure.",
 ["inputs","configurations"],"every license list and every text",
 "Untested: the old package's test binary does not compile here.",
 [O],[("New","old/license.go"),("Checker.updateIndex","old/license.go"),("Checker.submatches","old/license.go")],["old.New","old.Checker.Cover"])
p("C21","The built-in license data is what the pattern files generate",
 "Running the data generator on the license pattern files reproduces the built-in license list, ID by ID and pattern by pattern. Every built-in pattern is accepted by the scanner constructor, and every built-in URL names a license that has a built-in pattern.",
 ["configurations"],"the one data set shipped with the package, and any later edit of it",
 "No test runs the generator or compares its output.",
 ["gen_data.go","data.gen.go","licenses","urls.go"],[("buildLRE","gen_data.go")],["data.gen.go"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
