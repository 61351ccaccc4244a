--------------------------------- MODULE MCWild ---------------------------------
(***************************************************************************)
(* P09 on the specification: the pattern  p p __M__ q1 .. qj r..  (a        *)
(* wildcard with literal words after it) against all texts.  What the       *)
(* matcher finds at the first word is described without threads or cuts:    *)
(* up to M words are skipped; if M > 3, the wildcard is over with the first *)
(* place at which three words of the continuation are complete, and only    *)
(* continuations begun before the wildcard was over are still open.         *)
(***************************************************************************)
EXTENDS Matcher, TLC
CONSTANTS N, Tails, Ms
WiU(r) == [start |-> FALSE, cont |-> FALSE, fold |-> r]
A == <<97>>  B == <<98>>  P == <<112>>
MCTails == UNION {[1..k -> {A, B}] : k \in 1..5}
MCMs == {0, 1, 2, 3, 4, 5}
VARIABLES tail, m, tx
Init == tail \in Tails /\ m \in Ms /\ tx = <<>>
Next == Len(tx) < N /\ \E w \in {A, B} : tx' = Append(tx, w) /\ UNCHANGED <<tail, m>>
Spec == Init /\ [][Next]_<<tail, m, tx>>

Ast == Node("cat", <<WordsN(<<P, P>>), WildN(m), WordsN(tail)>>, <<>>, 0)
TheKit == LET c == CompileOnto(<<>>, Ast, 1) IN
          [err |-> c.err, prog |-> c.prog, starts |-> {1}, phrases |-> {<<P, P>>},
           rank |-> (P :> 1) @@ (A :> 2) @@ (B :> 3)]
Words == [k \in 1..(Len(tx) + 2) |-> IF k <= 2 THEN [w |-> P, h |-> P, lo |-> 2*k, hi |-> 2*k+1]
                                     ELSE [w |-> tx[k-2], h |-> tx[k-2], lo |-> 2*k, hi |-> 2*k+1]]
(* the first j words of the tail come after g skipped words                 *)
TailAt(g, j) == g + j <= Len(tx) /\ \A k \in 1..j : tx[g+k] = tail[k]
Three == {g \in 0..m : TailAt(g, 3)}
(* gaps that are still possible: all, or those begun before the first       *)
(* complete three words were read                                           *)
Left == IF m <= 3 \/ Len(tail) < 3 \/ Three = {} THEN 0..m
        ELSE {g \in 0..m : g <= MinOf(Three) + 2}
Finds == {g \in Left : TailAt(g, Len(tail))}
(* A pattern that ends within three words of the wildcard ends it too.      *)
Closed == IF m <= 3 \/ Len(tail) >= 3 \/ Finds = {} THEN Finds
          ELSE {g \in Finds : g <= MinOf(Finds) + Len(tail) - 1}
Best == IF Closed = {} THEN 0 ELSE (CHOOSE g \in Closed : \A h \in Closed : h <= g) + Len(tail) + 3
Agrees == LET r == MatchAt(TheKit, Words, 1) IN
          (r.lic = 0 <=> Closed = {}) /\ (r.lic # 0 => r.end = Best)
=============================================================================
