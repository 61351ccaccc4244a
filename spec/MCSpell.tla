-------------------------------- MODULE MCSpell --------------------------------
(***************************************************************************)
(* P08 on the specification: two words x and y grow letter by letter; what  *)
(* the matcher calls one edit is exactly what one gets by inserting,        *)
(* removing or replacing one letter.                                        *)
(***************************************************************************)
EXTENDS Matcher
CONSTANT N
Letters == {97, 98, 100}
SpU(r) == [start |-> FALSE, cont |-> FALSE, fold |-> r]
VARIABLES x, y
Init == x = <<>> /\ y = <<>>
Next == \/ Len(x) < N /\ y = <<>> /\ \E b \in Letters : x' = Append(x, b) /\ y' = y
        \/ Len(y) < N /\ \E b \in Letters : y' = Append(y, b) /\ x' = x
Spec == Init /\ [][Next]_<<x, y>>

Removed(w)  == {RemoveAt(w, k) : k \in 1..Len(w)}
Inserted(w) == {SubSeq(w, 1, k) \o <<b>> \o SubSeq(w, k+1, Len(w)) : k \in 0..Len(w), b \in Letters}
Replaced(w) == {[w EXCEPT ![k] = b] : k \in 1..Len(w), b \in Letters}
Edited(w)   == {w} \cup Removed(w) \cup Inserted(w) \cup Replaced(w)

EditIsEdit   == OneEdit(x, y) <=> y \in Edited(x)
Symmetric    == OneEdit(x, y) = OneEdit(y, x) /\ CanMisspell(x, y) = CanMisspell(y, x)
ShortExact   == Len(x) < 4 /\ Len(y) < 4 => ~CanMisspell(x, y)
Tolerated    == CanMisspell(x, y) <=> (Len(x) >= 4 \/ Len(y) >= 4) /\ y \in Edited(x)
DivideJoins  == /\ SplitsAs(x, y) <=> \E z \in {RestOf(x, y)} : z # <<>> /\ y = x \o z
                /\ SplitsAs(x, y) => CanJoin(y, x, RestOf(x, y))
Inv == EditIsEdit /\ Symmetric /\ ShortExact /\ Tolerated /\ DivideJoins
=============================================================================
