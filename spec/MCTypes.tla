-------------------------------- MODULE MCTypes --------------------------------
(***************************************************************************)
(* Merging any number of types in any order and grouping: the laws of the   *)
(* algebra, over all 128 types made of declared bits.  acc is what has been  *)
(* merged so far and saw the bits that went into it.                         *)
(***************************************************************************)
EXTENDS Types
CONSTANT Depth
VARIABLES acc, saw, unk, n
Types128 == SUBSET Declared
Init == acc \in Types128 /\ saw = acc /\ unk = (acc = Unknown) /\ n = 1
MergeIn(u) == /\ n < Depth
              /\ acc' = Merge(acc, u) /\ saw' = saw \cup u /\ unk' = (unk \/ u = Unknown) /\ n' = n + 1
Next == \E u \in Types128 : MergeIn(u)
Spec == Init /\ [][Next]_<<acc, saw, unk, n>>

(* What merging everything that was seen should give, whatever the order.   *)
Whole(S) == LET lv == S \cap Levels IN
            {b \in S : b \in {NonCommercial, Discouraged}}
            \cup {b \in lv : (\A c \in lv : c <= b) /\ ~(b = Unrestricted /\ NonCommercial \in S)}
Absorbs == unk => acc = Unknown
Result  == ~unk /\ n > 1 => acc = Whole(saw)
Known   == ~unk => acc # Unknown
Commutes == \A u \in Types128 : Merge(acc, u) = Merge(u, acc)
Associates == \A u, w \in {x \in Types128 : Cardinality(x) <= 2} :
                 Merge(Merge(acc, u), w) = Merge(acc, Merge(u, w))
(* Text form: String and ParseType are inverse; the names are distinct.     *)
RoundTrip == /\ ParseType(Str(saw)) = saw
             /\ ParseType(Str(saw \cup {8, 63})) = saw \cup {8, 63}
             /\ ParseType(Str(acc \cup {0})) = acc \cup {0}
=============================================================================
