------------------------------- MODULE MCContext -------------------------------
(***************************************************************************)
(* P18 on the specification: whatever the license set and the text, foreign *)
(* words before and after it change nothing but positions; two texts far    *)
(* enough apart are matched as if alone.                                    *)
(*   MODEL: sets of licenses, symbols (pieces of text), far: the number of  *)
(*   foreign words that are enough                                          *)
(***************************************************************************)
EXTENDS Claims, Json, IOUtils
CONSTANT N
ASSUME TLCSet(11, JsonDeserialize(IOEnv.MODEL))
CxU(r) == [start |-> FALSE, cont |-> FALSE, fold |-> r]
Model == TLCGet(11)
Sets == JsonDeserialize(IOEnv.MODEL).sets
NSets == Len(Sets)
Symbols == {JsonDeserialize(IOEnv.MODEL).symbols[k] : k \in 1..Len(JsonDeserialize(IOEnv.MODEL).symbols)}
ASSUME TLCSet(13, [s \in 1..NSets |-> KitOf(TLCGet(11).sets[s])])
K(s) == TLCGet(13)[s]
VARIABLES s, t, u, n
Init == s \in 1..NSets /\ t = <<>> /\ u = <<>> /\ n = 0
Next == /\ n < N /\ n' = n + 1 /\ UNCHANGED s
        /\ \E x \in Symbols : (u = <<>> /\ t' = t \o x /\ u' = u) \/ (u' = u \o x /\ t' = t)
Spec == Init /\ [][Next]_<<s, t, u, n>>
Foreign == <<10,122,122,113>>
Far == FoldLeft(LAMBDA a, k : a \o Foreign, <<>>, [k \in 1..Model.far |-> k]) \o <<10>>
M(x) == LET l == AllMatches(K(s), Split(x)) IN l
Shift(l, d) == [k \in 1..Len(l) |-> [lic |-> l[k].lic, start |-> l[k].start + d, end |-> l[k].end + d]]
NW(x) == Len(Split(x))
Before == M(Far \o t) = Shift(M(t), Model.far)
Behind == M(t \o Far) = M(t)
Apart  == M(t \o Far \o u) = M(t) \o Shift(M(u), NW(t) + Model.far)
Inv == Before /\ Behind /\ Apart
=============================================================================
