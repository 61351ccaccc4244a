-------------------------------- MODULE Claims --------------------------------
(***************************************************************************)
(* The properties of a scan, as relations between a license set, a text and *)
(* a coverage o = [pm, m] reported for it: pm is Percent, <<h, l>> for      *)
(* h / 10^3 + l / 10^9, and m the matches [id, type, s, e, url].  They are checked of the coverages  *)
(* the specification computes (MCScan) and of those the real code returned  *)
(* (TraceScan).                                                             *)
(***************************************************************************)
EXTENDS Report, TLC

(***************************************************************************)
(* What a pattern means, without reference to programs: Ends(.., x, P) are the  *)
(* places reached by reading x from some place in P.  A place is <<k, o>>:  *)
(* before word k (o = 0), or within word k after o bytes of its folded text *)
(* (a word of the text that is two words of the pattern run together).      *)
(***************************************************************************)
RestAt(ws, p) == LET h == ws[p[1]].h IN SubSeq(h, p[2] + 1, Len(h))
ReadWord(ws, x, p) ==     \* the places after reading the pattern word x at p
  LET k == p[1] IN
  IF k > Len(ws) THEN {}
  ELSE IF p[2] > 0 THEN IF RestAt(ws, p) = x THEN {<<k+1, 0>>} ELSE {}
  ELSE LET h  == ws[k].h
           h2 == IF k < Len(ws) THEN ws[k+1].h ELSE <<>>
       IN (IF ws[k].w = x \/ CanMisspell(x, h) \/ x = h THEN {<<k+1, 0>>} ELSE {})
          \cup (IF k < Len(ws) /\ CanJoin(x, h, h2) THEN {<<k+2, 0>>} ELSE {})
          \cup (IF SplitsAs(x, h) THEN {<<k, Len(x)>>} ELSE {})
(* A wildcard takes one word (or the rest of one) at a time.  Where the     *)
(* license set knows the word, words of the text run together or broken in  *)
(* two are taken as that word: V is the vocabulary of the license set.      *)
WildWord(ws, V, p) ==
  LET k == p[1]
      h == ws[k].h
      j == IF k < Len(ws) THEN h \o ws[k+1].h ELSE <<>>
  IN IF k > Len(ws) THEN {}
     ELSE {<<k+1, 0>>}
          \cup (IF p[2] = 0 /\ j \in V THEN {<<k+2, 0>>} ELSE {})
          \cup (IF p[2] = 0 THEN {<<k, o>> : o \in {o \in 1..(Len(h)-1) : SubSeq(h, 1, o) \in V}} ELSE {})
RECURSIVE WildFrom(_, _, _, _)
WildFrom(ws, V, n, P) ==
  IF n = 0 THEN P
  ELSE LET Q == UNION {WildWord(ws, V, p) : p \in P} IN
       IF Q \subseteq P THEN P ELSE WildFrom(ws, V, n - 1, P \cup Q)
RECURSIVE Ends(_, _, _, _)
Ends(ws, V, x, P) ==
  IF P = {} THEN {}
  ELSE CASE x.op = "words" -> FoldLeft(LAMBDA Q, w : UNION {ReadWord(ws, w, q) : q \in Q}, P, x.w)
         [] x.op = "wild"  -> WildFrom(ws, V, x.n, P)
         [] x.op = "quest" -> P \cup Ends(ws, V, x.sub[1], P)
         [] x.op = "alt"   -> UNION {Ends(ws, V, x.sub[k], P) : k \in 1..Len(x.sub)}
         [] x.op = "cat"   -> FoldLeft(LAMBDA Q, y : Ends(ws, V, y, Q), P, x.sub)
         [] OTHER -> P
Means(ws, V, ast, s, e) == <<e, 0>> \in Ends(ws, V, ast, {<<s, 0>>})

(* The same, with no tolerance for spelling: words are their normal forms.  *)
RECURSIVE Exactly(_, _, _)
Exactly(ws, x, P) ==
  IF P = {} THEN {}
  ELSE CASE x.op = "words" -> FoldLeft(LAMBDA Q, w : {k+1 : k \in {q \in Q : q <= Len(ws) /\ ws[q].w = w}}, P, x.w)
         [] x.op = "wild"  -> {k \in 1..(Len(ws) + 1) : \E p \in P : p <= k /\ k <= p + x.n}
         [] x.op = "quest" -> P \cup Exactly(ws, x.sub[1], P)
         [] x.op = "alt"   -> UNION {Exactly(ws, x.sub[k], P) : k \in 1..Len(x.sub)}
         [] x.op = "cat"   -> FoldLeft(LAMBDA Q, y : Exactly(ws, y, Q), P, x.sub)
         [] OTHER -> P

(***************************************************************************)
(* The words within a byte range.                                           *)
(***************************************************************************)
Within(ws, lo, hi) == {k \in 1..Len(ws) : ws[k].lo >= lo /\ ws[k].hi <= hi}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

LicMatches(o) == SelectSeq(o.m, LAMBDA x : ~x.url)
UrlsOf(o) == SelectSeq(o.m, LAMBDA x : x.url)

(* What the specification says Scan returns, in the form of o.              *)
Seen(lics, c) == [id |-> lics[c.lic].id, type |-> lics[c.lic].type, s |-> c.start, e |-> c.end, url |-> c.url]
SeenAll(lics, cs) == [k \in 1..Len(cs) |-> Seen(lics, cs[k])]

Abs(x) == IF x < 0 THEN -x ELSE x
PercentIs(pm, total, n) ==     \* 100 total / n; the integers of TLC have 32 bits
  LET h == pm[1]  l == pm[2]
      r == 100000 * total - h * n     \* what l / 10^6 of n should be
  IN IF n = 0 THEN pm = <<0, 0>>
     ELSE IF total > n \/ h < 0 \/ h > 100000 THEN FALSE
     ELSE IF n <= 2000 THEN 0 <= r + 1 /\ r <= n + 1 /\ Abs(l * n - 1000000 * r) <= 2 * n
     ELSE IF n <= 20000 THEN 0 <= r + 1 /\ r <= n + 1
     ELSE LET q == n \div 20000 + 1   \* h in units of q
          IN Abs((h \div q) * n - (100000 \div q) * total) <= 4 * n

(***************************************************************************)
(* P01  Every license match is a stretch of words the license's pattern     *)
(* means, possibly preceded by a copyright notice.                          *)
(***************************************************************************)
NoFalsePositive(lics, V, asts, t, ws, o) ==
  \A k \in 1..Len(o.m) : ~o.m[k].url =>
    LET in == Within(ws, o.m[k].s, o.m[k].e)
        lo == MinOf(in)
        hi == MaxOf(in)
        from == {j \in lo..hi : j = lo \/ (ws[lo].w = W_copyright /\ j - lo <= CopyrightWindow)}
    IN /\ o.m[k].s >= 0 /\ o.m[k].e <= Len(t)
       /\ in # {}
       /\ \E l \in 1..Len(lics) : /\ lics[l].id = o.m[k].id /\ lics[l].type = o.m[k].type
                                  /\ lics[l].lre # <<>>
                                  /\ \E j \in from : Means(ws, V, asts[l], j, hi + 1)

(***************************************************************************)
(* P02  The license matches are the leftmost-longest ones, none missing;    *)
(* their first words are compared up to the preceding copyright notice.     *)
(***************************************************************************)
MatchesAll(lics, kitlic, t, ws, list, o) ==
  LET got == LicMatches(o) IN
  /\ Len(got) = Len(list)
  /\ \A k \in 1..Len(got) :
       LET in == Within(ws, got[k].s, got[k].e)
           l  == lics[kitlic[list[k].lic]]
       IN /\ got[k].id = l.id /\ got[k].type = l.type
          /\ in # {}
          /\ MaxOf(in) = list[k].end - 1
          /\ MinOf(in) <= list[k].start
          /\ MinOf(in) >= (IF k = 1 THEN 1 ELSE list[k-1].end)

(***************************************************************************)
(* P03  Matches are in order, disjoint, non-empty, within the text, and are *)
(* of licenses of the set; Percent is a percentage, positive exactly if     *)
(* there are matches that cover words.                                      *)
(***************************************************************************)
WellFormed(lics, t, ws, o) ==
  /\ \A k \in 1..Len(o.m) :
       /\ 0 <= o.m[k].s /\ o.m[k].s < o.m[k].e /\ o.m[k].e <= Len(t)
       /\ k > 1 => o.m[k-1].e <= o.m[k].s
       /\ \E l \in 1..Len(lics) : /\ lics[l].id = o.m[k].id /\ lics[l].type = o.m[k].type
                                  /\ (IF o.m[k].url THEN lics[l].url # <<>> ELSE lics[l].lre # <<>>)
       /\ o.m[k].url => HasPrefix(LowerSeq(t), o.m[k].s + 1, W_http)
  /\ 0 <= o.pm[1] /\ o.pm[1] <= 100000 /\ (o.pm[1] = 100000 => o.pm[2] = 0)
  /\ (o.m = <<>> <=> o.pm = <<0, 0>>)

(***************************************************************************)
(* P04  Percent is the share of the text's words that are in matches.       *)
(***************************************************************************)
Covered(ws, o) == UNION {Within(ws, o.m[k].s, o.m[k].e) : k \in 1..Len(o.m)}
PercentExact(ws, o) == PercentIs(o.pm, Cardinality(Covered(ws, o)), Len(ws))

(***************************************************************************)
(* P05  Given which matches there are, their extents are exactly as         *)
(* specified.                                                               *)
(***************************************************************************)
LicsOf(exp) == SelectSeq(exp, LAMBDA x : ~x.url)
SameLics(exp, o) ==
  LET a == LicsOf(exp)  b == LicMatches(o) IN
  Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k].id = b[k].id /\ a[k].type = b[k].type
ExtentsExact(exp, o) == SameLics(exp, o) => LicsOf(exp) = LicMatches(o)

(***************************************************************************)
(* P06  Given the license matches, the URL matches are exactly as specified *)
(***************************************************************************)
UrlsExact(exp, o) == SameLics(exp, o) => SelectSeq(exp, LAMBDA x : x.url) = UrlsOf(o)

(* Everything.                                                              *)
AllExact(exp, o) == exp = o.m
(* Which licenses, and how much of the text.                                *)
Ids(ms) == [k \in 1..Len(ms) |-> <<ms[k].id, ms[k].url>>]
SameVerdict(exp, total, n, o) == Ids(exp) = Ids(o.m) /\ PercentIs(o.pm, total, n)
=============================================================================
