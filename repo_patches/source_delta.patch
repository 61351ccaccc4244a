From 3d9c618c1843ae72199b6b8455680421f2ac37cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 01/12] fix: NewScanner: reject a license list without any LRE

NewMultiLRE returns a non-nil MultiLRE for an empty list, so the
"missing lre" check never fired and Scan panicked on the nil Dict.
---
 scan.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scan.go b/scan.go
index 108e12a..f045a7a 100644
--- a/scan.go
+++ b/scan.go
@@ -82,13 +82,13 @@ func (s *Scanner) init(licenses []License) error {
 			list = append(list, re)
 		}
 	}
+	if len(list) == 0 {
+		return errors.New("missing lre")
+	}
 	re, err := match.NewMultiLRE(list)
 	if err != nil {
 		return err
 	}
-	if re == nil {
-		return errors.New("missing lre")
-	}
 	s.re = re
 	return nil
 }
-- 
2.43.0


From 8aa4458af56795b3a017db5dcd0d33854ae253c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 02/12] fix: recognize license URLs with an upper-case scheme
 or suffix

HTTP://... and .../LegalCode were matched case-insensitively but
trimmed case-sensitively before the lookup.
---
 scan.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scan.go b/scan.go
index f045a7a..5e9c9b4 100644
--- a/scan.go
+++ b/scan.go
@@ -225,13 +225,13 @@ func (s *Scanner) Scan(text []byte) Coverage {
 // licenseURL reports whether url is a known URL, and returns its name if it is.
 func (s *Scanner) licenseURL(url string) (License, bool) {
 	// We need to canonicalize the text for lookup.
-	// First, trim the leading http:// or https:// and the trailing /.
-	// Then we lower-case it.
+	// First we lower-case it, because urlScanRE is case-insensitive.
+	// Then trim the leading http:// or https:// and the trailing /.
+	url = strings.ToLower(url)
 	url = strings.TrimPrefix(url, "http://")
 	url = strings.TrimPrefix(url, "https://")
 	url = strings.TrimSuffix(url, "/")
 	url = strings.TrimSuffix(url, "/legalcode") // Common for CC licenses.
-	url = strings.ToLower(url)
 	l, ok := s.urls[url]
 	if ok {
 		return l, true
-- 
2.43.0


From 4e511d6a47aca23720a610b5ec478ac676a8abc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 03/12] =?UTF-8?q?fix:=20accept=20&copy;=20where=20"c"=20is?=
 =?UTF-8?q?=20expected,=20like=20=C2=A9=20and=20(c)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Split canonicalizes all three to "copyright" but the spell check,
which sees the original text, did not know about the HTML entity.
---
 internal/match/rematch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/match/rematch.go b/internal/match/rematch.go
index 3dca29c..87ff76b 100644
--- a/internal/match/rematch.go
+++ b/internal/match/rematch.go
@@ -986,8 +986,8 @@ func canMisspell(want, have string) bool {
 	// has already started, so they don't affect the match boundaries.)
 	//
 	// The want string has been canonicalized, so it must be "c" or "copyright" (not "©"),
-	// but the have string has only been folded, so it can be any of the three.
-	if (want == "c" || want == "copyright") && (have == "c" || have == "copyright" || have == "©") {
+	// but the have string has only been folded, so it can be any of the three, or else "&copy;".
+	if (want == "c" || want == "copyright") && (have == "c" || have == "copyright" || have == "©" || have == "&copy;") {
 		return true
 	}
 
-- 
2.43.0


From a6b7474d7720a1f9056dc88510668134e88a8750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 04/12] fix: do not report a match ending in the middle of a
 word

When the spell check split one word of the text into two, a pattern
completed by the first half was recorded as a match that excluded
the whole word, so it was reported for a text lacking its last word.
---
 internal/match/rematch.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/match/rematch.go b/internal/match/rematch.go
index 87ff76b..eab3a68 100644
--- a/internal/match/rematch.go
+++ b/internal/match/rematch.go
@@ -873,7 +873,7 @@ Words:
 				// have[:len(want)] matches want.
 				// Look to see if have[len(want):] can be the word after want.
 				rest := have[len(want):]
-				m2, delta2 := dfa.stateAt(dnext)
+				_, delta2 := dfa.stateAt(dnext)
 				next2 := int32(-1)
 				for j2 := 0; j2 < len(delta2); j2 += 2 {
 					dw2, dnext2 := WordID(delta2[j2]), delta2[j2+1]
@@ -884,10 +884,6 @@ Words:
 				if next2 >= 0 {
 					// Successfully split have into two words
 					// to drive the DFA forward two steps.
-					if m2 >= 0 {
-						match = m2
-						end = i
-					}
 					off = next2
 					continue Words
 				}
-- 
2.43.0


From 7e75a15b66e75f07b115bcb456a615a5f6d83d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 05/12] fix: do not start a match on a phrase from before the
 previous match

After a match the stale second word of the phrase was shifted into
first place, so a match could start inside the previous one.
---
 internal/match/regexp.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/match/regexp.go b/internal/match/regexp.go
index 3ce2189..796e3c3 100644
--- a/internal/match/regexp.go
+++ b/internal/match/regexp.go
@@ -205,7 +205,9 @@ func (re *MultiLRE) Match(text string) *Matches {
 
 				// Continue search at end of match.
 				i = end - 1 // loop will i++
-				p[0] = BadWord
+				// The next phrase begins there too: the shift above
+				// must not bring back a word from before end.
+				p[1] = BadWord
 				continue
 			}
 		}
-- 
2.43.0


From 29a8e1ec01fd8ae44978a7154392b4a758262ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 06/12] fix: reject wildcard counts that do not fit in 32 bits

They were silently truncated to an unrelated (even negative) count.
---
 internal/match/resyntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/match/resyntax.go b/internal/match/resyntax.go
index a5d6820..0d1d675 100644
--- a/internal/match/resyntax.go
+++ b/internal/match/resyntax.go
@@ -269,7 +269,7 @@ func reParse(d *Dict, s string, strict bool) (*reSyntax, error) {
 				i++
 				continue
 			}
-			n, err := strconv.Atoi(s[i+2 : j])
+			n, err := strconv.ParseInt(s[i+2:j], 10, 32)
 			if err != nil {
 				return nil, reSyntaxError(s, i, errors.New("invalid wildcard count "+s[i:j+2]))
 			}
-- 
2.43.0


From bd8ce528572de3ace030b58c730acda8a92c25c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 07/12] fix: fold all runes of a case orbit to the same rune
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The loop stopped at the first rune that was not smaller, which is not
the least one for orbits of three or more (å Å Å, ς Σ σ, ...), so
matching was not case-insensitive for them.
---
 internal/match/dict.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index fa38505..09fb167 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -223,14 +223,13 @@ func (d *Dict) split(text string, insert bool) []Word {
 // but that will require more thought about exactly what to do
 // and doing it efficiently. For now, the accents are enough.
 func foldRune(r rune) rune {
-	// Iterate SimpleFold until we hit the min equivalent rune,
+	// Iterate SimpleFold over the whole orbit to find the min equivalent rune,
 	// which - for the ones we care about - is the upper case ASCII rune.
-	for {
-		r1 := unicode.SimpleFold(r)
-		if r1 >= r {
-			break
+	orig := r
+	for r1 := unicode.SimpleFold(orig); r1 != orig; r1 = unicode.SimpleFold(r1) {
+		if r1 < r {
+			r = r1
 		}
-		r = r1
 	}
 
 	switch r {
-- 
2.43.0


From 117e2b2e1237742ce6a17c594354067613e7cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 08/12] fix: drop combining grave and acute accents, as
 documented

foldRune is documented to drop U+0300 and U+0301, so that a decomposed
accented vowel reads like the precomposed one, but it kept them.
---
 internal/match/dict.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index 09fb167..72150c0 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -233,6 +233,9 @@ func foldRune(r rune) rune {
 	}
 
 	switch r {
+	case '\u0300', '\u0301':
+		// delete combining grave and acute
+		return -1
 	case 'Á', 'À':
 		return 'a'
 	case 'É', 'È':
-- 
2.43.0


From 738a8ec4e18ff390c2495a6aae75860bacce6066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 09/12] fix: old: index licenses by their position in the
 checker

The index used the position in the argument of New, which differs
from c.licenses once an entry without text precedes one with text.
---
 old/license.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/old/license.go b/old/license.go
index c53e53e..8ab6a93 100644
--- a/old/license.go
+++ b/old/license.go
@@ -101,7 +101,7 @@ func New(licenses []License) *Checker {
 		dict:     make(map[string]int32),
 		index:    make(map[phrase][]indexEntry),
 	}
-	for id, l := range licenses {
+	for _, l := range licenses {
 		if l.Text != "" {
 			next := len(c.licenses)
 			c.licenses = c.licenses[:next+1]
@@ -110,7 +110,7 @@ func New(licenses []License) *Checker {
 			cl.typ = licenseType(cl.name)
 			cl.text = l.Text
 			cl.doc = c.normalize([]byte(cl.text), true)
-			c.updateIndex(int32(id), cl.doc.words)
+			c.updateIndex(int32(next), cl.doc.words)
 		}
 		if l.URL != "" {
 			c.urls[l.URL] = l.Name
-- 
2.43.0


From 64b6df5460424f1bcfd007cc1f220e5a0821f80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 10/12] fix: old: count only a blank that was skipped

With Options.Slop 70 any gap counted as a matched blank, and a match
that resumed at the blank itself counted it twice, giving Percent
above 100.
---
 old/license.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/old/license.go b/old/license.go
index 8ab6a93..9736608 100644
--- a/old/license.go
+++ b/old/license.go
@@ -578,7 +578,7 @@ func (c *Checker) submatches(text []int32, opts Options) []submatch {
 					textGap = blankMax
 				}
 				if prev.end+textGap >= start && matchLicenseStart >= prev.licenseEnd {
-					if textGap == blankMax {
+					if prev.licenseEnd < matchLicenseStart && l.doc.words[prev.licenseEnd] == blankID {
 						prev.matched++ // matched the blank
 					}
 					prev.end = end
-- 
2.43.0


From 2720d4caaec6a646e3b2441bebde7480f2074937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 11/12] fix: old: end a match that ends with a blank after the
 blank

Its End was the offset of the start of the blank.
---
 old/license.go   | 4 ++++
 old/normalize.go | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/old/license.go b/old/license.go
index 9736608..5b215cb 100644
--- a/old/license.go
+++ b/old/license.go
@@ -302,6 +302,10 @@ func (doc *document) endWordToEndByte(c *Checker, end int) int {
 		return int(doc.byteOff[end-1]) + len(c.words[doc.words[end-1]])
 	}
 
+	if doc.words[end-1] == blankID {
+		return int(doc.byteOff[end-1]) + len(blank)
+	}
+
 	// Unknown word in document, not added to dictionary.
 	// Look in text to find out how long it is.
 	pos := int(doc.byteOff[end-1])
diff --git a/old/normalize.go b/old/normalize.go
index 59dc637..f9045ea 100644
--- a/old/normalize.go
+++ b/old/normalize.go
@@ -13,6 +13,8 @@ import (
 const (
 	blankID       = -1
 	unknownWordID = -2
+
+	blank = "___" // fill in the blank wildcard
 )
 
 // htmlesc unescapes HTML escapes that we've observed,
@@ -46,7 +48,6 @@ func (c *Checker) normalize(data []byte, updateDict bool) *document {
 	// Each iteration adds a word.
 	for pos < len(str) {
 		start := pos
-		const blank = "___" // fill in the blank wildcard
 		if strings.HasPrefix(str[pos:], blank) {
 			words = append(words, blankID)
 			indexes = append(indexes, int32(start))
-- 
2.43.0


From 33070c35bce82fe19a118f5450ea934f32bf32fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 12/12] fix: old: recognize license URLs with an upper-case
 scheme or suffix

The URL is found without regard to case, but http:// and /legalcode
were trimmed before lower-casing it.
---
 old/license.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/old/license.go b/old/license.go
index 5b215cb..2568a56 100644
--- a/old/license.go
+++ b/old/license.go
@@ -390,13 +390,13 @@ func (doc *document) findURLsBetween(c *Checker, matches []Match) []Match {
 // licenseURL reports whether url is a known URL, and returns its name if it is.
 func (c *Checker) licenseURL(url string) (string, bool) {
 	// We need to canonicalize the text for lookup.
-	// First, trim the leading http:// or https:// and the trailing /.
-	// Then we lower-case it.
+	// First we lower-case it.
+	// Then trim the leading http:// or https:// and the trailing /.
+	url = strings.ToLower(url)
 	url = strings.TrimPrefix(url, "http://")
 	url = strings.TrimPrefix(url, "https://")
 	url = strings.TrimSuffix(url, "/")
 	url = strings.TrimSuffix(url, "/legalcode") // Common for CC licenses.
-	url = strings.ToLower(url)
 	name, ok := c.urls[url]
 	if ok {
 		return name, true
-- 
2.43.0

