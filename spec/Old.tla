---------------------------------- MODULE Old ----------------------------------
(***************************************************************************)
(* Package old: the Cover API of licensecheck v0.1.0.                       *)
(*                                                                          *)
(* A license is a text of words and blanks (___); a document is covered by  *)
(* runs of words that occur in a license.  A run is a maximal common        *)
(* stretch of at least MinLength words; runs of one license that follow     *)
(* each other closely (Slop words, or BlankMax words over a blank of the    *)
(* license) are one match.  Of overlapping matches the longer one stays.    *)
(* License URLs are looked for between the matches.                         *)
(*                                                                          *)
(* Word positions are those of the code (from 0, ends exclusive).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
LOCAL INSTANCE TLC   \* for TLCEval: evaluate once

CONSTANTS OClass(_),  \* code point >= 128 -> [letter, lower]
          BlankMax    \* words that may fill a blank
U == INSTANCE Text WITH UClass <- OClass
Rune(t, i) == U!Rune(t, i)
Lower(b) == U!Lower(b)
HasAt(t, i, p) == /\ i >= 1 /\ i + Len(p) - 1 <= Len(t)
                  /\ \A k \in 1..Len(p) : t[i+k-1] = p[k]
HasAtFold(t, i, p) == /\ i >= 1 /\ i + Len(p) - 1 <= Len(t)
                      /\ \A k \in 1..Len(p) : Lower(t[i+k-1]) = p[k]

(***************************************************************************)
(* Words: [w, lo, hi], the word t[lo..hi-1] in lower case, or a blank, for  *)
(* which w = Blank.  Words are made of letters only.  A short word that     *)
(* numbers a list (a. ii) iv:) is no word.                                  *)
(***************************************************************************)
Blank == <<95, 95, 95>>
IsLetter(r) == IF r < 128 THEN U!IsAlphaB(r) ELSE OClass(r).letter
Size(r) == IF r < 128 THEN 1 ELSE IF r < 2048 THEN 2 ELSE IF r < 65536 THEN 3 ELSE 4
LowerRune(r) == IF r < 128 THEN Lower(r)
                ELSE LET l == OClass(r).lower IN IF Size(l) = Size(r) THEN l ELSE r
Escapes == {<<38,108,100,113,117,111,59>>, <<38,114,100,113,117,111,59>>, <<38,97,109,112,59>>}  \* &ldquo; &rdquo; &amp;
Markers == {<<c>> : c \in 97..114} \cup
  {<<105,105>>, <<105,105,105>>, <<105,118>>, <<118,105>>, <<118,105,105>>, <<118,105,105,105>>, <<105,120>>,
   <<120,105>>, <<120,105,105>>, <<120,105,105,105>>, <<120,105,118>>, <<120,118>>}
MarkerEnds == {46, 58, 41}   \* . : )

RECURSIVE LetterEnd(_, _)
LetterEnd(t, i) == LET j == U!Past(t, i, U!IsAlphaB) IN
                   IF j > Len(t) \/ t[j] < 128 THEN j
                   ELSE LET r == Rune(t, j) IN IF IsLetter(r[1]) THEN LetterEnd(t, j + r[2]) ELSE j
(* t[i..hi-1], each rune r of which becomes the bytes F(r)                  *)
Mapped(t, i, hi, F(_)) ==
  FoldLeft(LAMBDA s, k : IF s.at # k THEN s
                         ELSE LET r == Rune(t, k) IN [at |-> k + r[2], out |-> s.out \o F(r[1])],
           [at |-> i, out |-> <<>>], [k \in 1..(hi-i) |-> i+k-1]).out
LowerOf(t, i, hi) == IF \A k \in i..(hi-1) : t[k] < 128 THEN TLCEval([k \in 1..(hi-i) |-> Lower(t[i+k-1])])
                     ELSE Mapped(t, i, hi, LAMBDA r : U!Encode(LowerRune(r)))
(* One byte after the other; st: [at, ws], the next byte to read.           *)
ReadAt(t, st, i) ==
  IF i # st.at THEN st
  ELSE IF t[i] = 95 /\ HasAt(t, i, Blank) THEN [at |-> i + 3, ws |-> Append(st.ws, [w |-> Blank, lo |-> i, hi |-> i + 3])]
  ELSE LET e == IF t[i] # 38 THEN {} ELSE {x \in Escapes : HasAtFold(t, i, x)} IN
    IF e # {} THEN [st EXCEPT !.at = i + Len(CHOOSE x \in e : TRUE)]
    ELSE LET r == Rune(t, i) IN
      IF ~IsLetter(r[1]) THEN [st EXCEPT !.at = i + r[2]]
      ELSE LET j == LetterEnd(t, i)
               w == LowerOf(t, i, j)
           IN [at |-> j, ws |-> IF j - i <= 4 /\ j <= Len(t) /\ t[j] \in MarkerEnds /\ w \in Markers THEN st.ws
                                ELSE Append(st.ws, [w |-> w, lo |-> i, hi |-> j])]
WordsOf(t) == FoldLeft(LAMBDA st, i : ReadAt(t, st, i), [at |-> 1, ws |-> <<>>], [i \in 1..Len(t) |-> i]).ws

(***************************************************************************)
(* Runs.  tw: the words of the document; lw: those of a license, both as    *)
(* numbers, BlankId for a blank; a word of no license is 0 in the document. *)
(* A match: [lic, start, end, matched, lend]; lend is the place in the      *)
(* license just after the last word matched.                                *)
(***************************************************************************)
BlankId == -1
Larger(a, b) == IF a > b THEN a ELSE b
RECURSIVE RunLen(_, _, _, _)
RunLen(tw, lw, k, s) ==   \* the common stretch of tw from k and lw from s (from 0)
  LET a == Len(tw) - k   b == Len(lw) - s
      n == CHOOSE x \in {a, b, 32} : x <= a /\ x <= b /\ x <= 32      \* 32 words at a time
      d == SelectInSeq([j \in 1..n |-> tw[k+j] # lw[s+j]], LAMBDA x : x)
  IN IF d > 0 THEN d - 1 ELSE IF n < 32 THEN n ELSE n + RunLen(tw, lw, k+32, s+32)
(* Where in a license each word is, but for its last word; D: the words.    *)
PlacesOf(lw, D) == TLCEval([w \in D \cup {BlankId, 0} |-> {s \in 0..(Len(lw)-2) : lw[s+1] = w}])
(* The longest run from k, and the first place of the license that has it.  *)
BestRun(tw, lw, at, k) ==
  LET S == {s \in at[tw[k+1]] : lw[s+2] = tw[k+2]} IN
  IF S = {} THEN [len |-> 0, at |-> 0]
  ELSE LET L == TLCEval([s \in S |-> RunLen(tw, lw, k, s)])
           b == CHOOSE s \in S : \A u \in S : L[s] > L[u] \/ (L[s] = L[u] /\ s <= u)
       IN [len |-> L[b], at |-> b]

(* A run after a blank of the license is extended backward to the word      *)
(* before the blank, and on from there.                                     *)
RECURSIVE BackRun(_, _, _), Back(_, _, _, _)
BackRun(tw, lw, m) ==    \* m: [start, at, len]
  IF m.start > 0 /\ m.at > 0 /\ tw[m.start] = lw[m.at]
  THEN BackRun(tw, lw, [start |-> m.start - 1, at |-> m.at - 1, len |-> m.len + 1]) ELSE m
Back(tw, lw, m, floor) ==
  IF ~(m.at >= 2 /\ lw[m.at] = BlankId /\ lw[m.at - 1] # BlankId) THEN m
  ELSE LET S == {i \in Larger(floor, m.start - BlankMax)..(m.start - 1) : tw[i+1] = lw[m.at - 1]} IN
       IF S = {} THEN m
       ELSE LET i == CHOOSE x \in S : \A y \in S : y <= x
            IN Back(tw, lw, BackRun(tw, lw, [start |-> i, at |-> m.at - 2, len |-> m.len + 2]), floor)

(* One place of the document and one license; st = [ms, last].              *)
Place(lics, at, tw, o, k, l, st) ==
  LET lw == lics[l]
      p  == st.last[l]
  IN IF p # 0 /\ k < st.ms[p].end THEN st
     ELSE LET b == BestRun(tw, lw, at[l], k) IN
       IF b.len = 0 \/ b.len < o.min THEN st
       ELSE IF /\ p # 0
               /\ LET blank == st.ms[p].lend < Len(lw) /\ lw[st.ms[p].lend + 1] = BlankId
                  IN st.ms[p].end + (IF blank THEN BlankMax ELSE o.slop) >= k
               /\ b.at >= st.ms[p].lend
       THEN LET q == st.ms[p]
                filled == q.lend < b.at /\ lw[q.lend + 1] = BlankId
            IN [st EXCEPT !.ms[p] = [q EXCEPT !.end = k + b.len, !.lend = b.at + b.len,
                                              !.matched = @ + b.len + (IF filled THEN 1 ELSE 0)]]
       ELSE LET m == Back(tw, lw, [start |-> k, at |-> b.at, len |-> b.len], IF p = 0 THEN 0 ELSE st.ms[p].end)
            IN [ms |-> Append(st.ms, [lic |-> l, start |-> m.start, end |-> k + b.len, matched |-> m.len, lend |-> b.at + b.len]),
                last |-> [st.last EXCEPT ![l] = Len(st.ms) + 1]]

Submatches(lics, at, tw, o) ==
  FoldLeft(LAMBDA st, k : FoldLeft(LAMBDA su, l : Place(lics, at, tw, o, k - 1, l, su), st, [l \in 1..Len(lics) |-> l]),
           [ms |-> <<>>, last |-> [l \in 1..Len(lics) |-> 0]], [k \in 1..(Len(tw)-1) |-> k]).ms

(***************************************************************************)
(* Winnowing.  The percentage of a match is the share of the words of its   *)
(* license that it has; its weight that share of its length.  Both are      *)
(* computed in floating point, so that of two matches of equal weight but   *)
(* different numbers either may count as heavier: the result is a set.      *)
(***************************************************************************)
RECURSIVE NameLess(_, _, _)
NameLess(x, y, k) == IF k > Len(y) THEN FALSE ELSE IF k > Len(x) THEN TRUE
                     ELSE IF x[k] # y[k] THEN x[k] < y[k] ELSE NameLess(x, y, k+1)
Precedes(names, a, b) == a.start < b.start \/ (a.start = b.start /\ NameLess(names[a.lic], names[b.lic], 1))
(* Every order of ms that is sorted by start and name.                      *)
RECURSIVE Orders(_, _)
Orders(names, S) ==
  IF S = {} THEN {<<>>}
  ELSE LET first == {a \in S : \A b \in S : ~Precedes(names, b, a)}
       IN UNION {{<<a>> \o r : r \in Orders(names, S \ {a})} : a \in first}
Overlap(a, b) == a.start < b.end /\ b.start < a.end
Weight(lics, a, b) == a.matched * (a.end - a.start) * Len(lics[b.lic])   \* a's weight, times both license lengths
Heavier(lics, a, b) ==    \* what a > b may be found to be
  LET x == Weight(lics, a, b)  y == Weight(lics, b, a) IN
  IF x # y THEN {x > y}
  ELSE IF a.matched = b.matched /\ Len(lics[a.lic]) = Len(lics[b.lic]) THEN {FALSE} ELSE {TRUE, FALSE}
(* Each match still there, in order, fights every other that overlaps it.   *)
(* dead: the matches that lost; all the ways it may end.                    *)
Fight(lics, ms, dead) ==
  LET nums == [k \in 1..Len(ms) |-> k]
      Meet(i, j, d) == IF j \in d \/ i = j \/ ~Overlap(ms[i], ms[j]) THEN {d}
                       ELSE {d \cup {IF h THEN j ELSE i} : h \in Heavier(lics, ms[i], ms[j])}
      Round(i, d) == IF i \in d THEN {d}
                     ELSE FoldLeft(LAMBDA D, j : TLCEval(UNION {Meet(i, j, e) : e \in D}), {d}, nums)
  IN FoldLeft(LAMBDA D, i : TLCEval(UNION {Round(i, d) : d \in D}), {dead}, nums)
Low(lics, a, o) == 100 * a.matched < o.threshold * Len(lics[a.lic])
Winnowed(lics, at, names, tw, o) ==
  LET ms == Submatches(lics, at, tw, o) IN
  UNION {LET s == ord IN
         {SelectSeq(s, LAMBDA a : \A d \in dead : s[d] # a)
            : dead \in Fight(lics, s, {i \in 1..Len(s) : Low(lics, s[i], o)})}
         : ord \in Orders(names, {ms[k] : k \in 1..Len(ms)})}

Options(x) == [min |-> IF x.min <= 0 THEN 10 ELSE x.min, threshold |-> IF x.threshold <= 0 THEN 40 ELSE x.threshold,
               slop |-> IF x.slop <= 0 THEN 8 ELSE x.slop]

(***************************************************************************)
(* What winnowed matches should be.                                         *)
(***************************************************************************)
RECURSIVE Common(_, _, _, _)
(* The most words of lw from j that tw[i..] has in order; blanks are free.  *)
Common(tw, lw, i, j) ==
  IF j > Len(lw) THEN 0
  ELSE LET skip == Common(tw, lw, i, j+1) + (IF lw[j] = BlankId THEN 1 ELSE 0) IN
    IF i > Len(tw) THEN skip
    ELSE IF tw[i] = lw[j] THEN LET take == 1 + Common(tw, lw, i+1, j+1)  drop == Common(tw, lw, i+1, j)
                               IN Larger(skip, Larger(take, drop))
    ELSE Larger(skip, Common(tw, lw, i+1, j))
RangeOk(tw, a) == 0 <= a.start /\ a.start < a.end /\ a.end <= Len(tw)
InOrder(ms) == \A k \in 1..(Len(ms)-1) : ms[k].end <= ms[k+1].start
AtThreshold(lics, o, ms) == \A k \in 1..Len(ms) : ~Low(lics, ms[k], o)
ShareOk(lics, tw, a) ==
  LET lw == lics[a.lic] IN
  /\ 0 < a.matched /\ a.matched <= Len(lw)
  /\ a.matched <= Common(SubSeq(tw, a.start + 1, a.end), lw, 1, 1)
(* A document that is the text of a license is a complete match of it, or   *)
(* of a license that it also completes.                                     *)
IsLicense(lics, tw, o) == \E l \in 1..Len(lics) : lics[l] = tw /\ Len(tw) >= o.min /\ Len(tw) >= 2
Complete(lics, tw, o, ms) ==
  IsLicense(lics, tw, o) /\ o.threshold <= 100 =>
    Len(ms) = 1 /\ ms[1].start = 0 /\ ms[1].end = Len(tw) /\ ms[1].matched = Len(lics[ms[1].lic])

(***************************************************************************)
(* License URLs in the gaps between matches.                                *)
(*   https?:// domain (.org or com) (/path)+ /?     without regard to case  *)
(* Runes s and k have a third form each, which folds to them.               *)
(***************************************************************************)
FoldS == 383   FoldK == 8490
UrlRune(r) == r \in {FoldS, FoldK, 45, 95, 46} \/ (r < 128 /\ (U!IsAlphaB(r) \/ U!IsDigitB(r)))
PathRune(r) == UrlRune(r) \/ r \in {35, 63, 61}
RECURSIVE DomEnd(_, _, _), SegEnd(_, _, _), PathEnd(_, _, _)
DomEnd(t, i, hi) == IF i < hi /\ UrlRune(Rune(t, i)[1]) THEN DomEnd(t, i + Rune(t, i)[2], hi) ELSE i
SegEnd(t, i, hi) == IF i < hi /\ PathRune(Rune(t, i)[1]) THEN SegEnd(t, i + Rune(t, i)[2], hi) ELSE i
PathEnd(t, i, hi) ==    \* i at the slash, or at the end
  IF i >= hi THEN i
  ELSE IF t[i] # 47 THEN i
  ELSE LET j == SegEnd(t, i+1, hi) IN IF j = i + 1 THEN i + 1 ELSE PathEnd(t, j, hi)
AsciiLow(t, i, p) == i + Len(p) - 1 <= Len(t) /\ \A k \in 1..Len(p) : Lower(t[i+k-1]) = p[k]
UrlEnd(t, i, hi) ==     \* the end of the URL that starts at i, or 0
  IF ~(i + 4 <= hi /\ AsciiLow(t, i, <<104,116,116,112>>)) THEN 0
  ELSE LET r == IF i + 4 < hi THEN Rune(t, i+4) ELSE <<0, 1>>
           j == IF r[1] \in {83, 115, FoldS} THEN i + 4 + r[2] ELSE i + 4
       IN IF ~(j + 3 <= hi /\ HasAt(t, j, <<58,47,47>>)) THEN 0
          ELSE LET d0 == j + 3
                   d  == DomEnd(t, d0, hi)
                   ok == \/ d - d0 > 4 /\ AsciiLow(t, d - 4, <<46,111,114,103>>)
                         \/ d - d0 > 3 /\ AsciiLow(t, d - 3, <<99,111,109>>)
               IN IF ~ok \/ d >= hi THEN 0
                  ELSE IF t[d] # 47 \/ SegEnd(t, d+1, hi) = d + 1 THEN 0
                  ELSE PathEnd(t, d, hi)
UrlsIn(t, from, hi) ==
  FoldLeft(LAMBDA s, i : IF i < s.at \/ t[i] \notin {72, 104} THEN s
                         ELSE LET e == UrlEnd(t, i, hi) IN
                              IF e = 0 THEN s ELSE [at |-> e, out |-> Append(s.out, [lo |-> i, hi |-> e])],
           [at |-> from, out |-> <<>>], [k \in 1..(hi-from) |-> from+k-1]).out

(* The license of a URL: without http://, a slash or /legalcode at the end, *)
(* in lower case, as listed; or as listed without its last element.         *)
FullLower(t, i, hi) == Mapped(t, i, hi, LAMBDA r : U!Encode(IF r < 128 THEN Lower(r) ELSE OClass(r).lower))
CutFront(s, p) == IF HasAt(s, 1, p) THEN SubSeq(s, Len(p) + 1, Len(s)) ELSE s
CutRear(s, p)  == IF Len(s) >= Len(p) /\ HasAt(s, Len(s) - Len(p) + 1, p) THEN SubSeq(s, 1, Len(s) - Len(p)) ELSE s
P_http == <<104,116,116,112,58,47,47>>   P_https == <<104,116,116,112,115,58,47,47>>
P_legal == <<47,108,101,103,97,108,99,111,100,101>>
NoUrl == [ok |-> FALSE, name |-> <<>>]
Listed(urls, u) ==      \* urls: [url, name]; the last of its kind counts
  LET S == {k \in 1..Len(urls) : urls[k].url = u} IN
  IF S = {} THEN NoUrl ELSE [ok |-> TRUE, name |-> urls[CHOOSE k \in S : \A j \in S : j <= k].name]
UrlName(urls, t, u) ==
  LET s == CutRear(CutRear(CutFront(CutFront(FullLower(t, u.lo, u.hi), P_http), P_https), <<47>>), P_legal)
      n == Listed(urls, s)
      S == {i \in 1..Len(s) : s[i] = 47}
  IN IF n.ok THEN n
     ELSE IF S = {} THEN NoUrl
     ELSE Listed(urls, SubSeq(s, 1, (CHOOSE i \in S : \A j \in S : j <= i) - 1))

(* Byte positions: those of the code plus one.                              *)
StartByte(ws, k) == IF k = 0 THEN 1 ELSE ws[k+1].lo
EndByte(t, ws, k) == IF k = 0 THEN 1 ELSE IF k = Len(ws) THEN Len(t) + 1 ELSE ws[k].hi
WordAt(ws, b) ==       \* the first word at or after byte b
  LET S == {k \in 1..Len(ws) : ws[k].lo >= b} IN
  IF S = {} THEN Len(ws) ELSE (CHOOSE k \in S : \A j \in S : k <= j) - 1
GapUrls(urls, t, ws, from, to) ==
  IF to < from + 3 THEN <<>>
  ELSE LET us == UrlsIn(t, ws[from+1].lo, EndByte(t, ws, to))
           of(u) == [name |-> UrlName(urls, t, u).name, start |-> WordAt(ws, u.lo), end |-> WordAt(ws, u.hi)]
           ok == SelectSeq(us, LAMBDA u : UrlName(urls, t, u).ok)
       IN [k \in 1..Len(ok) |-> of(ok[k])]

(***************************************************************************)
(* The report: [pct, ms] with ms a sequence of                              *)
(* [name, type, num, den, s, e, url]; percentages are num/den of 100.       *)
(***************************************************************************)
TypeNames == <<<<65,71,80,76>>, <<65,112,97,99,104,101>>, <<66,83,68>>, <<67,67>>, <<71,80,76>>, <<74,83,79,78>>, <<77,73,84>>,
               <<85,110,108,105,99,101,110,115,101>>, <<90,108,105,98>>>>
TypeOfName(n) == LET S == {k \in 1..Len(TypeNames) : HasAt(n, 1, TypeNames[k])} IN
                 IF S = {} THEN Len(TypeNames) ELSE (CHOOSE k \in S : \A j \in S : k <= j) - 1

Merged(lics, names, urls, t, ws, ms) ==     \* matches and URLs, in order; [name, num, den, start, end, url]
  LET m(a) == [name |-> names[a.lic], num |-> a.matched, den |-> Len(lics[a.lic]), start |-> a.start, end |-> a.end, url |-> FALSE]
      n == Len(ms)
      gap(k) == LET us == GapUrls(urls, t, ws, IF k = 1 THEN 0 ELSE ms[k-1].end, IF k > n THEN Len(ws) ELSE ms[k].start)
                IN [j \in 1..Len(us) |-> [name |-> us[j].name, num |-> 1, den |-> 1, start |-> us[j].start, end |-> us[j].end, url |-> TRUE]]
  IN FoldLeft(LAMBDA acc, k : acc \o gap(k) \o (IF k > n THEN <<>> ELSE <<m(ms[k])>>), <<>>, [k \in 1..(n+1) |-> k])
(* A URL stands for the whole gap around it; URLs in one gap share it.      *)
From(x, k) == IF ~x[k].url THEN x[k].start ELSE IF k = 1 THEN 0
              ELSE IF ~x[k-1].url THEN x[k-1].end ELSE (x[k].start + x[k-1].end) \div 2
To(n, x, k) == IF ~x[k].url THEN x[k].end ELSE IF k = Len(x) THEN n
               ELSE IF ~x[k+1].url THEN x[k+1].start ELSE (x[k].end + x[k+1].start) \div 2
Covered(n, x) == FoldLeft(LAMBDA a, k : a + To(n, x, k) - From(x, k), 0, [k \in 1..Len(x) |-> k])

Ids(lics) == SetToSeq(UNION {{lics[l][k].w : k \in 1..Len(lics[l])} : l \in 1..Len(lics)} \ {Blank})
IdOf(dict, w) == IF w = Blank THEN BlankId
                 ELSE LET S == {k \in 1..Len(dict) : dict[k] = w} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE

(* What New makes of a list of licenses [name, text, url].                  *)
Checker(list) ==
  LET ls == SelectSeq(list, LAMBDA l : l.text # <<>>)
      us == SelectSeq(list, LAMBDA l : l.url # <<>>)
      ws == TLCEval([k \in 1..Len(ls) |-> WordsOf(ls[k].text)])
      d  == Ids(ws)
      ids == TLCEval([k \in 1..Len(ls) |-> [j \in 1..Len(ws[k]) |-> IdOf(d, ws[k][j].w)]])
  IN TLCEval([dict |-> d, names |-> [k \in 1..Len(ls) |-> ls[k].name],
      lics |-> ids, at |-> [k \in 1..Len(ls) |-> PlacesOf(ids[k], 1..Len(d))],
      urls |-> [k \in 1..Len(us) |-> [url |-> us[k].url, name |-> us[k].name]]])
DocWords(c, ws) == TLCEval([k \in 1..Len(ws) |-> IdOf(c.dict, ws[k].w)])

Reports(c, t, ws, mss) ==
  {LET x == Merged(c.lics, c.names, c.urls, t, ws, ms) IN
   [num |-> Covered(Len(ws), x), den |-> IF ws = <<>> THEN 1 ELSE Len(ws),
    ms |-> [k \in 1..Len(x) |-> [name |-> x[k].name, type |-> TypeOfName(x[k].name), num |-> x[k].num, den |-> x[k].den,
                                 s |-> StartByte(ws, x[k].start) - 1, e |-> EndByte(t, ws, x[k].end) - 1, url |-> x[k].url]]]
   : ms \in mss}
=============================================================================
