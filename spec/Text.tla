-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The text layer of licensecheck: how a document (a sequence of bytes) is  *)
(* read as a sequence of normalized words.  Every operator here works on    *)
(* a tuple of bytes, so that positions in the specification are byte        *)
(* offsets of the real text plus one.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
LOCAL INSTANCE TLC      \* TLCEval(x) = x

CONSTANT UClass(_)
(* UClass(r), for a code point r >= 128: [start, cont, fold], may the rune   *)
(* start a word, may it continue one, and the least rune of its simple case *)
(* folding orbit.  (The Unicode tables are those of the Unicode standard:   *)
(* they are data, not behaviour of licensecheck.)                           *)

Lower(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
IsAlphaB(b) == (b >= 65 /\ b <= 90) \/ (b >= 97 /\ b <= 122)
IsDigitB(b) == b >= 48 /\ b <= 57
IsHexB(b) == IsDigitB(b) \/ (b >= 65 /\ b <= 70) \/ (b >= 97 /\ b <= 102)

(***************************************************************************)
(* UTF-8.  Rune(t,i) is <<code point, size>> of the rune encoded at t[i];   *)
(* an invalid encoding is the replacement character with size 1.            *)
(***************************************************************************)
BadRune == <<65533, 1>>
Cont(t, i, lo, hi) == i <= Len(t) /\ t[i] >= lo /\ t[i] <= hi
Rune(t, i) ==
  LET b == t[i] IN
  IF b < 128 THEN <<b, 1>>
  ELSE IF b < 194 \/ b > 244 THEN BadRune
  ELSE IF b < 224 THEN
    IF Cont(t, i+1, 128, 191) THEN <<(b - 192) * 64 + (t[i+1] - 128), 2>> ELSE BadRune
  ELSE IF b < 240 THEN
    IF /\ Cont(t, i+1, IF b = 224 THEN 160 ELSE 128, IF b = 237 THEN 159 ELSE 191)
       /\ Cont(t, i+2, 128, 191)
    THEN <<(b - 224) * 4096 + (t[i+1] - 128) * 64 + (t[i+2] - 128), 3>> ELSE BadRune
  ELSE
    IF /\ Cont(t, i+1, IF b = 240 THEN 144 ELSE 128, IF b = 244 THEN 143 ELSE 191)
       /\ Cont(t, i+2, 128, 191) /\ Cont(t, i+3, 128, 191)
    THEN <<(b - 240) * 262144 + (t[i+1] - 128) * 4096 + (t[i+2] - 128) * 64 + (t[i+3] - 128), 4>>
    ELSE BadRune

Encode(r) ==
  IF r < 128 THEN <<r>>
  ELSE IF r < 2048 THEN <<192 + (r \div 64), 128 + (r % 64)>>
  ELSE IF r < 65536 THEN <<224 + (r \div 4096), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
  ELSE <<240 + (r \div 262144), 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>

CopySign == 169   \* the rune ©

StartsWord(r) ==
  IF r < 128 THEN IsAlphaB(r) \/ IsDigitB(r)
  ELSE r = CopySign \/ UClass(r).start
ContinuesWord(r) ==
  IF r < 128 THEN IsAlphaB(r) \/ IsDigitB(r)
  ELSE UClass(r).cont

(***************************************************************************)
(* Folding: one spelling for all letter cases, no grave or acute accents    *)
(* on vowels (precomposed or combining), no parentheses.                    *)
(***************************************************************************)
AccentA == {193, 192}  \* Á À
AccentE == {201, 200}
AccentI == {205, 204}
AccentO == {211, 210}
AccentU == {218, 217}
Combining == {768, 769}
FoldRune(r) ==   \* a tuple of bytes
  LET m == IF r < 128 THEN r ELSE UClass(r).fold IN
  IF m < 128 THEN IF m = 40 \/ m = 41 THEN <<>> ELSE <<Lower(m)>>
  ELSE IF m \in Combining THEN <<>>
  ELSE IF m \in AccentA THEN <<97>>
  ELSE IF m \in AccentE THEN <<101>>
  ELSE IF m \in AccentI THEN <<105>>
  ELSE IF m \in AccentO THEN <<111>>
  ELSE IF m \in AccentU THEN <<117>>
  ELSE Encode(m)

(* Fold(t,lo,hi): the folded form of t[lo..hi-1].                           *)
FoldRunes(t, lo, hi) ==
  FoldLeft(LAMBDA s, k : IF s.at # k THEN s
                         ELSE LET r == Rune(t, k) IN [at |-> k + r[2], out |-> s.out \o FoldRune(r[1])],
           [at |-> lo, out |-> <<>>], [k \in 1..(hi-lo) |-> lo+k-1]).out
Fold(t, lo, hi) ==
  IF \A k \in lo..(hi-1) : t[k] < 128 /\ t[k] # 40 /\ t[k] # 41
  THEN TLCEval([k \in 1..(hi-lo) |-> Lower(t[lo+k-1])])
  ELSE FoldRunes(t, lo, hi)

(***************************************************************************)
(* Markup that is read as punctuation.  Each operator returns the position  *)
(* just after the markup that begins at t[i], or 0 if none begins there.    *)
(***************************************************************************)
At(t, i, b) == i <= Len(t) /\ t[i] = b
(* the first position from i on at which Test holds of the byte, 0 if none  *)
First(t, i, Test(_)) ==
  IF i > Len(t) THEN 0
  ELSE LET k == SelectInSeq(SubSeq(t, i, Len(t)), Test) IN IF k = 0 THEN 0 ELSE k + i - 1
FirstIn(t, i, S) == First(t, i, LAMBDA b : b \in S)
(* the first position from i on at which it does not hold                   *)
Past(t, i, Test(_)) == LET k == First(t, i, LAMBDA b : ~Test(b)) IN IF k > 0 THEN k ELSE IF i > Len(t) THEN i ELSE Len(t) + 1

(* An HTML tag: < or </, a letter, ..., >.  Not a tag if another < comes    *)
(* first, if it spans more than two line-break bytes, or if, before any     *)
(* space, it has an @ or :/ (an e-mail address or a URL in brackets).       *)
TagEnd(t, i) ==
  LET j0 == IF At(t, i+1, 47) THEN i + 2 ELSE i + 1
      k  == FirstIn(t, i+1, {60, 62})
      sp == FirstIn(t, j0, {32})
      early == IF sp = 0 \/ sp > k THEN k - 1 ELSE sp - 1     \* j0..early is before any space
  IN IF Len(t) - i + 1 < 3 \/ j0 > Len(t) THEN 0
     ELSE IF ~IsAlphaB(t[j0]) \/ k = 0 THEN 0
     ELSE IF t[k] = 60 THEN 0
     ELSE IF \E m \in j0..early : t[m] = 64 \/ (t[m] = 58 /\ t[m+1] = 47) THEN 0
     ELSE IF \E a, b, c \in {m \in j0..k : t[m] = 10 \/ t[m] = 13} : a < b /\ b < c THEN 0
     ELSE k + 1

(* {#anchor} without blanks or line breaks                                  *)
AnchorEnd(t, i) ==
  LET k == FirstIn(t, i+2, {125, 32, 10, 13})
  IN IF Len(t) - i + 1 < 4 \/ ~At(t, i+1, 35) \/ k = 0 THEN 0
     ELSE IF t[k] = 125 THEN k + 1 ELSE 0

(* &name; &#123; &#x1F;                                                     *)
EntityEnd(t, i) ==
  LET from == IF At(t, i+1, 35) THEN (IF At(t, i+2, 120) THEN i+3 ELSE i+2) ELSE i+1
      k == IF ~At(t, i+1, 35) THEN Past(t, from, IsAlphaB)
           ELSE IF At(t, i+2, 120) THEN Past(t, from, IsHexB) ELSE Past(t, from, IsDigitB)
  IN IF k > from /\ At(t, k, 59) THEN k + 1 ELSE 0

HasPrefix(t, i, p) == /\ i + Len(p) - 1 <= Len(t)
                      /\ \A k \in 1..Len(p) : t[i+k-1] = p[k]
B_http    == <<104,116,116,112,58,47,47>>
B_https   == <<104,116,116,112,115,58,47,47>>
B_mailto  == <<109,97,105,108,116,111,58>>
B_file    == <<102,105,108,101,58>>
B_hash    == <<35>>
LinkPrefixes == {B_http, B_https, B_mailto, B_file, B_hash}

(* the ](target) of a Markdown link, without blanks or line breaks          *)
LinkEnd(t, i) ==
  LET k == FirstIn(t, i+2, {41, 32, 9, 13, 10})
  IN IF ~At(t, i+1, 40) \/ k = 0 THEN 0
     ELSE IF ~\E p \in LinkPrefixes : HasPrefix(t, i+2, p) THEN 0
     ELSE IF t[k] = 41 THEN k + 1 ELSE 0

MarkupEnd(t, i) ==
  CASE t[i] = 60  -> TagEnd(t, i)
    [] t[i] = 123 -> AnchorEnd(t, i)
    [] t[i] = 38  -> EntityEnd(t, i)
    [] t[i] = 93  -> LinkEnd(t, i)
    [] OTHER      -> 0

(***************************************************************************)
(* Words.                                                                   *)
(***************************************************************************)
W_copyright == <<99,111,112,121,114,105,103,104,116>>
W_http      == <<104,116,116,112>>
W_https     == <<104,116,116,112,115>>
W_c         == <<99>>
W_copysign  == <<194,169>>
E_copy      == <<38,99,111,112,121,59>>            \* &copy;
W_is   == <<105,115>>          W_are   == <<97,114,101>>
W_it   == <<105,116>>          W_them  == <<116,104,101,109>>      W_they == <<116,104,101,121>>
W_the  == <<116,104,101>>      W_these == <<116,104,101,115,101>>
W_this == <<116,104,105,115>>  W_those == <<116,104,111,115,101>>
W_copy == <<99,111,112,121>>   W_copies == <<99,111,112,105,101,115>>

Rewrite(w) ==
  CASE w = W_are -> W_is
    [] w \in {W_them, W_they} -> W_it
    [] w \in {W_these, W_this, W_those} -> W_the
    [] w = W_copies -> W_copy
    [] OTHER -> w

(* The end of the word that goes on at t[i]: runes one by one, those of     *)
(* ASCII in a run.                                                          *)
IsWordB(b) == IsAlphaB(b) \/ IsDigitB(b)
RECURSIVE WordEnd(_, _)
WordEnd(t, i) ==
  LET j == Past(t, i, IsWordB) IN
  IF j > Len(t) \/ t[j] < 128 THEN j
  ELSE LET r == Rune(t, j) IN IF ContinuesWord(r[1]) THEN WordEnd(t, j + r[2]) ELSE j

(***************************************************************************)
(* Token(t,i): the token that begins at t[i]: where the next one begins     *)
(* (nx), whether it is a word (kind), and if so its normal form (w), what   *)
(* the text actually says, folded (h), and the extent [lo,hi) in byte       *)
(* offsets counted from 0.                                                  *)
(***************************************************************************)
Skip(nx) == [kind |-> "skip", nx |-> nx, w |-> <<>>, h |-> <<>>, lo |-> 0, hi |-> 0]
WordTok(nx, w, h, lo, hi) == [kind |-> "word", nx |-> nx, w |-> w, h |-> h, lo |-> lo, hi |-> hi]
Token(t, i) ==
  LET me == MarkupEnd(t, i) IN
  IF me > 0 THEN
    IF t[i] = 38 /\ SubSeq(t, i, me-1) = E_copy
    THEN WordTok(me, W_copyright, Fold(t, i, me), i-1, me-1)
    ELSE Skip(me)
  ELSE
    LET r == Rune(t, i) IN
    IF ~StartsWord(r[1]) THEN Skip(i + r[2])
    ELSE IF r[1] = CopySign THEN WordTok(i + 2, W_copyright, W_copysign, i-1, i+1)
    ELSE
      LET e0 == WordEnd(t, i + r[2])
          plural == HasPrefix(t, e0, <<40, 115, 41>>)           \* word(s)
          e  == IF plural THEN e0 + 3 ELSE e0
          f  == IF plural THEN Fold(t, i, e0) \o <<115>> ELSE Fold(t, i, e0)
      IN IF f = W_https THEN WordTok(e, W_http, f, i-1, e-1)
         ELSE IF f = W_c /\ i > 1 /\ At(t, i-1, 40) /\ At(t, e, 41)
         THEN WordTok(e, W_copyright, f, i-2, e)                (* (c) *)
         ELSE WordTok(e, Rewrite(f), f, i-1, e-1)

(***************************************************************************)
(* The words of a text.  Two consecutive "copyright" words count once.      *)
(***************************************************************************)
AddTok(ws, k) ==
  IF k.kind = "skip" \/ (k.w = W_copyright /\ ws # <<>> /\ ws[Len(ws)].w = W_copyright)
  THEN ws
  ELSE Append(ws, [w |-> k.w, h |-> k.h, lo |-> k.lo, hi |-> k.hi])

SplitStep(t, s) ==     \* s = [pos, words]
  LET k == Token(t, s.pos) IN [pos |-> k.nx, words |-> AddTok(s.words, k)]

Split(t) ==
  FoldLeft(LAMBDA s, i : IF s.pos # i THEN s ELSE SplitStep(t, s),
           [pos |-> 1, words |-> <<>>], [i \in 1..Len(t) |-> i]).words
=============================================================================
