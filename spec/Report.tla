-------------------------------- MODULE Report --------------------------------
(***************************************************************************)
(* From the matches of a text to the coverage reported for it.              *)
(***************************************************************************)
EXTENDS Matcher

CopyrightWindow == 50     \* words

(***************************************************************************)
(* URLs.  UrlEnd(t,i): the position after the URL that begins at t[i], or 0.*)
(*   http or https :// host / path (/ path)* [/]   in any letter case, where *)
(*   host is a non-empty name followed by .org or .com                       *)
(* The long s and the Kelvin sign are letters s and k to a case-insensitive *)
(* reader.                                                                  *)
(***************************************************************************)
UrlByte(b, extra) == IsAlphaB(b) \/ IsDigitB(b) \/ b \in {45, 95, 46} \/ b \in extra
UrlRune(t, i) ==  \* size of the other URL characters at t[i], 0 if none
  IF At(t, i, 197) /\ At(t, i+1, 191) THEN 2              \* U+017F
  ELSE IF At(t, i, 226) /\ At(t, i+1, 132) /\ At(t, i+2, 170) THEN 3   \* U+212A
  ELSE 0
RECURSIVE SpanEnd(_, _, _)
SpanEnd(t, i, extra) ==
  LET j == Past(t, i, LAMBDA b : UrlByte(b, extra))
      n == UrlRune(t, j)
  IN IF n = 0 THEN j ELSE SpanEnd(t, j + n, extra)
LowerSeq(x) == [k \in 1..Len(x) |-> Lower(x[k])]
CI(t, i, p) == i + Len(p) - 1 <= Len(t) /\ \A k \in 1..Len(p) : Lower(t[i+k-1]) = p[k]
PathExtra == {35, 63, 61}   \* # ? =
RECURSIVE PathEnd(_, _)
PathEnd(t, i) ==    \* i: at a possible /; returns the end after the last non-empty element and at most one more /
  IF ~At(t, i, 47) THEN i
  ELSE LET e == SpanEnd(t, i+1, PathExtra) IN IF e = i + 1 THEN i + 1 ELSE PathEnd(t, e)
UrlEnd(t, i) ==
  LET h0 == IF CI(t, i, B_http) THEN i + 7
            ELSE IF CI(t, i, B_https) THEN i + 8
            ELSE IF CI(t, i, W_http) /\ At(t, i+4, 197) /\ At(t, i+5, 191) /\ HasPrefix(t, i+6, <<58,47,47>>)
            THEN i + 9 ELSE 0
      h1 == IF h0 = 0 THEN 0 ELSE SpanEnd(t, h0, {})
  IN IF h0 = 0 THEN 0
     ELSE IF h1 - h0 < 5 \/ ~(CI(t, h1-4, <<46,111,114,103>>) \/ CI(t, h1-4, <<46,99,111,109>>)) THEN 0
     ELSE IF ~At(t, h1, 47) \/ SpanEnd(t, h1+1, PathExtra) = h1 + 1 THEN 0
     ELSE PathEnd(t, h1)

(* Lower case; the Kelvin sign is a k.                                      *)
LowerUrl(u) ==
  FoldLeft(LAMBDA s, k : IF s.at # k THEN s
                         ELSE IF u[k] = 226 THEN [at |-> k + 3, out |-> Append(s.out, 107)]
                         ELSE [at |-> k + 1, out |-> Append(s.out, Lower(u[k]))],
           [at |-> 1, out |-> <<>>], [k \in 1..Len(u) |-> k]).out
DropPrefix(u, p) == IF HasPrefix(u, 1, p) THEN SubSeq(u, Len(p)+1, Len(u)) ELSE u
DropSuffix(u, p) == IF Len(u) >= Len(p) /\ SubSeq(u, Len(u)-Len(p)+1, Len(u)) = p
                    THEN SubSeq(u, 1, Len(u)-Len(p)) ELSE u
B_legalcode == <<47,108,101,103,97,108,99,111,100,101>>
CanonUrl(u) == DropSuffix(DropSuffix(DropPrefix(DropPrefix(LowerUrl(u), B_http), B_https), <<47>>), B_legalcode)
ParentUrl(u) == LET S == {k \in 1..Len(u) : u[k] = 47} IN
                IF S = {} THEN u ELSE SubSeq(u, 1, (CHOOSE k \in S : \A j \in S : j <= k) - 1)

(* The license a URL identifies: an index into lics, or 0.  The last of     *)
(* several licenses with the same URL wins.                                 *)
LicAt(lics, u) == LET S == {k \in 1..Len(lics) : lics[k].url # <<>> /\ lics[k].url = u} IN
                  IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
UrlLicense(lics, u) ==
  LET c == CanonUrl(u) IN
  IF LicAt(lics, c) # 0 THEN LicAt(lics, c)
  ELSE IF ParentUrl(c) # c THEN LicAt(lics, ParentUrl(c)) ELSE 0

(***************************************************************************)
(* Reporting state: matches reported so far (out), words covered (total),   *)
(* the word after the last license match (last), the next word to look at   *)
(* for URLs (i).  Word numbers count from 1, byte offsets from 0.           *)
(***************************************************************************)
Cov(lic, s, e, url, ws, we) == [lic |-> lic, start |-> s, end |-> e, url |-> url, ws |-> ws, we |-> we]

(* A license match extends back to the first copyright word among the       *)
(* words not yet covered, at most CopyrightWindow words back.               *)
CopyrightStart(ws, last, s) ==
  LET from == IF s - CopyrightWindow < last THEN last ELSE s - CopyrightWindow
      S == {k \in from..(s-1) : ws[k].w = W_copyright}
  IN IF S = {} THEN s ELSE MinOf(S)

(* ... and to whole lines where only punctuation precedes or follows it.    *)
LineStart(t, ws, s) ==
  IF s = 1 THEN 0
  ELSE LET lo == ws[s-1].hi  hi == ws[s].lo
           S == {k \in (lo+1)..hi : t[k] = 10}
       IN IF S = {} THEN hi ELSE (CHOOSE k \in S : \A j \in S : j <= k)
LineEnd(t, ws, e) ==    \* e: the last word of the match
  IF e = Len(ws) THEN Len(t)
  ELSE LET lo == ws[e].hi  hi == ws[e+1].lo
           S == {k \in (lo+1)..hi : t[k] = 10}
       IN IF S = {} THEN lo ELSE MinOf(S)

(* URLs among the words i..stop-1, none of which reaches beyond the byte    *)
(* offset lim.                                                              *)
UrlStep(lics, t, ws, stop, s, i) ==      \* s = [at, out, total]; at: the next word to look at
  IF i # s.at THEN s
  ELSE IF ws[i].w # W_http THEN [s EXCEPT !.at = i + 1]
  ELSE LET lo == ws[i].lo
           u1 == UrlEnd(t, lo + 1)     \* position after
           lim == IF stop > Len(ws) THEN Len(t) ELSE ws[stop].lo
           l  == IF u1 = 0 \/ u1 - 1 > lim THEN 0 ELSE UrlLicense(lics, SubSeq(t, lo+1, u1-1))
           S  == {k \in i..(stop-1) : \A j \in i..k : ws[j].hi <= u1 - 1}
           nx == i + Cardinality(S)
       IN IF l = 0 THEN [s EXCEPT !.at = i + 1]
          ELSE [at |-> IF nx = i THEN i + 1 ELSE nx,
                out |-> Append(s.out, Cov(l, lo, u1-1, TRUE, i, nx)), total |-> s.total + (nx - i)]
Urls(lics, t, ws, from, stop, acc) ==
  LET u == FoldLeft(LAMBDA s, i : UrlStep(lics, t, ws, stop, s, i),
                    [at |-> from, out |-> acc.out, total |-> acc.total], [k \in 1..(stop-from) |-> from+k-1])
  IN [out |-> u.out, total |-> u.total]

(* lics: the license set; kitlic[k]: the license of pattern number k.       *)
ReportStep(lics, kitlic, t, ws, s, m) ==
  LET st == IF s.last < m.start THEN CopyrightStart(ws, s.last, m.start) ELSE m.start
      u  == Urls(lics, t, ws, s.last, st, [out |-> s.out, total |-> s.total])
  IN [out |-> Append(u.out, Cov(kitlic[m.lic], LineStart(t, ws, st), LineEnd(t, ws, m.end - 1), FALSE, st, m.end)),
      total |-> u.total + (m.end - st), last |-> m.end]

Coverage(lics, kitlic, t, ws, list) ==      \* [out, total]
  LET s == FoldLeft(LAMBDA a, m : ReportStep(lics, kitlic, t, ws, a, m),
                    [out |-> <<>>, total |-> 0, last |-> 1], list)
  IN Urls(lics, t, ws, s.last, Len(ws) + 1, [out |-> s.out, total |-> s.total])

(***************************************************************************)
(* The whole meaning of Scan.                                               *)
(***************************************************************************)
Patterns(lics) == SelectSeq([k \in 1..Len(lics) |-> k], LAMBDA k : lics[k].lre # <<>>)
KitOf(lics) == LET p == Patterns(lics) IN Kit([k \in 1..Len(p) |-> lics[p[k]].lre])
ScanOf(lics, kit, t) ==
  LET ws == Split(t)
      c  == Coverage(lics, Patterns(lics), t, ws, AllMatches(kit, ws))
  IN [out |-> c.out, total |-> c.total, n |-> Len(ws)]
=============================================================================
