-------------------------------- MODULE Builtin --------------------------------
(***************************************************************************)
(* The meaning of Scan for a set of hundreds of long patterns: the same as  *)
(* Report's ScanOf, with the combined program given piecemeal.  Location i  *)
(* of the program of pattern k is the number k * Stride + i, an attempt     *)
(* enters only the patterns whose texts can begin with the two words it     *)
(* begins with (the others could not take the first two words anyway), and  *)
(* the rank of a word is computed when it is asked for.                     *)
(***************************************************************************)
EXTENDS Claims

CONSTANTS ProgOf(_),       \* the program of pattern k, locations from 1
          PhrasesOf(_),    \* the pairs of words with which the texts of pattern k begin
          WordsOf(_),      \* the words of pattern k in order of first appearance
          WordSetOf(_),
          AllPhrases(_),   \* UNION of PhrasesOf
          NPat(_)          \* number of patterns

Stride == 1048576
BuiltinProg ==
  [pc \in Nat |->
     LET k == pc \div Stride
         i == ProgOf(k)[pc % Stride]
     IN IF i.op \in {"alt", "jmp"} THEN [i EXCEPT !.a = @ + k * Stride]
        ELSE IF i.op = "cut" THEN [i EXCEPT !.a = @ + k * Stride, !.b = @ + k * Stride]
        ELSE i]
BuiltinRank ==
  [w \in Seq(0..255) |->
     IF w = W_copyright THEN 1 ELSE IF w = W_http THEN 2
     ELSE LET k == CHOOSE k \in 1..NPat(0) : w \in WordSetOf(k) /\ \A j \in 1..(k-1) : w \notin WordSetOf(j)
              ws == WordsOf(k)
          IN k * 65536 + (CHOOSE n \in 1..Len(ws) : ws[n] = w)]
KitAt(a, b) == [err |-> FALSE, prog |-> BuiltinProg,
                starts |-> {k * Stride + 1 : k \in {k \in 1..NPat(0) : <<a, b>> \in PhrasesOf(k)}},
                phrases |-> AllPhrases(0), rank |-> BuiltinRank]
Listed(ws, s) == s < Len(ws) /\ <<ws[s].w, ws[s+1].w>> \in AllPhrases(0)

BuiltinMatches(ws) ==
  FoldLeft(LAMBDA a, s :
             IF s < a.from \/ ~Listed(ws, s) THEN a
             ELSE LET m == MatchAt(KitAt(ws[s].w, ws[s+1].w), ws, s) IN
                  IF m.lic = 0 THEN a
                  ELSE [from |-> m.end, list |-> Append(a.list, [lic |-> m.lic, start |-> s, end |-> m.end])],
           [from |-> 1, list |-> <<>>], [s \in 1..Len(ws) |-> s]).list

BuiltinScan(lics, t) ==
  LET ws == Split(t)
      c  == Coverage(lics, Patterns(lics), t, ws, BuiltinMatches(ws))
  IN [out |-> c.out, total |-> c.total, n |-> Len(ws)]
=============================================================================
