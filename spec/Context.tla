-------------------------------- MODULE Context --------------------------------
(***************************************************************************)
(* P18, for documents of any size.  A document is a sequence of pieces:     *)
(*   "text"    a text t, with what Scan answered for it alone (o = [pm, m])  *)
(*   "words"   the bytes t, which end after a separator, n times over        *)
(*   "long"    one word: the letter t, n times over, then a line end         *)
(*   "gap"     the separator t, n times over                                *)
(* Only the texts are read by the specification, and each by itself: what   *)
(* Scan answers for the document follows from what it answers for the texts. *)
(***************************************************************************)
EXTENDS Claims

IsText(p) == p.kind = "text"
Bytes(p)  == IF IsText(p) THEN Len(p.t) ELSE p.n * Len(p.t) + (IF p.kind = "long" THEN 1 ELSE 0)
NWords(p) == CASE p.kind = "long" -> 1
               [] p.kind = "gap" -> 0
               [] p.kind = "words" -> p.n * Len(Split(p.t))
               [] OTHER -> Len(Split(p.t))

(***************************************************************************)
(* The precondition.                                                        *)
(***************************************************************************)
Letters(h) == {Rune(h, k)[1] : k \in {k \in 1..Len(h) : h[k] < 128 \/ h[k] >= 192}}
(* letters: the runes of the words of the patterns.  (A word of two or more *)
(* other runes differs from any word of a pattern, and from any part of one *)
(* or two words run together, in more than one byte.)                       *)
Foreign(letters, h) == Len(h) > Rune(h, 1)[2] /\ Letters(h) \cap (letters \cup Letters(W_copyright) \cup Letters(W_http)) = {}
ForeignPiece(letters, p) ==
  CASE p.kind = "text" -> TRUE
    [] p.kind = "gap"  -> Split(p.t) = <<>> /\ p.t[1] \in {10, 32, 42, 46}
    [] p.kind = "long" -> /\ Rune(p.t, 1)[2] = Len(p.t) /\ StartsWord(Rune(p.t, 1)[1]) /\ Split(p.t) # <<>>
                          /\ p.n > 1 /\ Foreign(letters, Split(p.t)[1].h \o Split(p.t)[1].h)
    [] OTHER -> LET ws == Split(p.t) IN
                /\ ws # <<>> /\ p.t[Len(p.t)] \in {10, 32}
                /\ \A k \in 1..Len(ws) : Foreign(letters, ws[k].h)
(* No markup that could swallow what follows.                               *)
Finished(t) == t # <<>> /\ t[1] = 10 /\ t[Len(t)] = 10 /\ Letters(t) \cap {60, 38, 123, 93} = {}

(* How many words the wildcards of a pattern can skip in all.               *)
RECURSIVE Skips(_)
Skips(x) == CASE x.op = "wild" -> x.n
              [] x.op = "quest" -> Skips(x.sub[1])
              [] x.op \in {"alt", "cat"} -> FoldLeft(LAMBDA a, y : a + Skips(y), 0, x.sub)
              [] OTHER -> 0
(* Whether a wildcard can be the last to take words.                        *)
RECURSIVE CanBeEmpty(_)
CanBeEmpty(x) == CASE x.op = "words" -> FALSE
                   [] x.op = "cat" -> \A k \in 1..Len(x.sub) : CanBeEmpty(x.sub[k])
                   [] x.op = "alt" -> \E k \in 1..Len(x.sub) : CanBeEmpty(x.sub[k])
                   [] OTHER -> TRUE
RECURSIVE WildLast(_)
WildLast(x) == CASE x.op = "wild" -> TRUE
                 [] x.op = "quest" -> WildLast(x.sub[1])
                 [] x.op = "alt" -> \E k \in 1..Len(x.sub) : WildLast(x.sub[k])
                 [] x.op = "cat" -> \E k \in 1..Len(x.sub) : WildLast(x.sub[k]) /\ \A j \in (k+1)..Len(x.sub) : CanBeEmpty(x.sub[j])
                 [] OTHER -> FALSE

(* Between any two texts there are more foreign words than wildcards skip   *)
(* and than a copyright notice reaches.                                     *)
Apart(ps, skip) ==
  LET need == IF skip > CopyrightWindow THEN skip ELSE CopyrightWindow
      f == FoldLeft(LAMBDA a, p : IF IsText(p) THEN [ok |-> a.ok /\ (a.far \/ a.n > need), n |-> 0, far |-> FALSE]
                                  ELSE [a EXCEPT !.n = @ + NWords(p)],
                    [ok |-> TRUE, n |-> 0, far |-> TRUE], ps)
  IN f.ok
Applies(letters, skip, ps) ==
  /\ \A k \in 1..Len(ps) : ForeignPiece(letters, ps[k]) /\ (IsText(ps[k]) => Finished(ps[k].t))
  /\ Apart(ps, skip)

(***************************************************************************)
(* The property: the answer for the document is put together from the       *)
(* answers for the texts.                                                   *)
(***************************************************************************)
Offsets(ps) == FoldLeft(LAMBDA a, k : Append(a, a[k] + Bytes(ps[k])), <<0>>, [k \in 1..Len(ps) |-> k])
Owners(ps) ==     \* for each match expected, <<piece, number of the match in it>>
  FoldLeft(LAMBDA a, k : IF IsText(ps[k]) THEN a \o [j \in 1..Len(ps[k].m) |-> <<k, j>>] ELSE a, <<>>, [k \in 1..Len(ps) |-> k])
PutTogether(ps, o) ==
  LET off == Offsets(ps)
      own == Owners(ps)
      ws  == TLCEval([k \in 1..Len(ps) |-> IF IsText(ps[k]) THEN TLCEval(Split(ps[k].t)) ELSE <<>>])
      Same(j) ==
        LET k == own[j][1]  a == ps[k].m[own[j][2]]  b == o.m[j]
        IN /\ a.id = b.id /\ a.type = b.type /\ a.url = b.url
           /\ off[k] <= b.s /\ b.e <= off[k+1]
           /\ Within(ws[k], a.s, a.e) = Within(ws[k], b.s - off[k], b.e - off[k])
      total == FoldLeft(LAMBDA n, j : LET k == own[j][1]  a == ps[k].m[own[j][2]] IN n + Cardinality(Within(ws[k], a.s, a.e)), 0, [j \in 1..Len(own) |-> j])
      n == FoldLeft(LAMBDA m, p : m + NWords(p), 0, ps)
  IN /\ Len(o.m) = Len(own)
     /\ \A j \in 1..Len(own) : Same(j)
     /\ PercentIs(o.pm, total, n)
=============================================================================
