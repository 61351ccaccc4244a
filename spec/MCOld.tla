---------------------------------- MODULE MCOld ----------------------------------
(***************************************************************************)
(* Package old on small instances: documents grow word by word, over the    *)
(* words of some small licenses, a blank, and a word of no license.         *)
(***************************************************************************)
EXTENDS Old, TLC
CONSTANT N
NoU(r) == [letter |-> FALSE, lower |-> r]
Three == 3
B == BlankId
Sets == << <<<<1,2,3>>, <<2,3,1>>>>,
           <<<<1,2,B,3,1>>, <<1,2>>>>,
           <<<<1,B,2,2,B,3>>>>,
           <<<<1,2,B,2,1>>, <<1,2,3,2,1>>>>,
           <<<<1,1,2>>, <<1,1,2>>, <<1,2>>>>,
           <<<<1,2,4,2,1>>, <<2,B,2>>>>,
           <<<<B,1,2>>, <<1,2,B>>, <<B,B,1,2>>>>,
           <<<<1,2,3,4>>, <<3,4,1,2>>, <<2,3>>>> >>
Ats == [k \in 1..Len(Sets) |-> [l \in 1..Len(Sets[k]) |-> PlacesOf(Sets[k][l], 1..4)]]
Names(s) == [l \in 1..Len(Sets[s]) |-> <<64 + ((l + s) % Len(Sets[s]))>>]
Opts == {[min |-> 2, threshold |-> 40, slop |-> 1], [min |-> 2, threshold |-> 80, slop |-> 3], [min |-> 3, threshold |-> 1, slop |-> 1]}
VARIABLES s, tw, o
Init == s \in 1..Len(Sets) /\ tw = <<>> /\ o \in Opts
Next == Len(tw) < N /\ \E w \in {1, 2, 3, 4, 0, B} : (w = 4 => s \in {6, 8}) /\ tw' = Append(tw, w) /\ UNCHANGED <<s, o>>
Spec == Init /\ [][Next]_<<s, tw, o>>
Lics == Sets[s]
Outs == Winnowed(Lics, Ats[s], Names(s), tw, o)
SubsOk == LET ms == Submatches(Lics, Ats[s], tw, o) IN
          \A k \in 1..Len(ms) : RangeOk(tw, ms[k]) /\ ShareOk(Lics, tw, ms[k])
Sound == /\ Outs # {}
         /\ \A ms \in Outs : InOrder(ms) /\ AtThreshold(Lics, o, ms) /\ Complete(Lics, tw, o, ms)
(* A word of no license added at the end changes no match.                  *)
Further == LET a == Submatches(Lics, Ats[s], tw, o) IN Submatches(Lics, Ats[s], tw \o <<0>>, o) = a
=============================================================================
