--------------------------------- MODULE ConcGen ---------------------------------
(***************************************************************************)
(* The ways calls can overlap: all orders of calls and returns that some      *)
(* behaviour of Conc has.  Each is printed once as a list of <<what, g>> to    *)
(* be carried out by the real code.                                          *)
(***************************************************************************)
EXTENDS Conc, Json
CONSTANTS NP, NC, AllLazy
GProcs == 1..NP
GProg(g) == [k \in 1..NC |-> [lazy |-> AllLazy, op |-> <<g, k>>]]
VARIABLE h
GInit == Init /\ h = <<>>
GNext == \/ \E g \in Procs : Call(g) /\ h' = Append(h, <<"b", g>>)
         \/ \E g \in Procs : Return(g) /\ h' = Append(h, <<"e", g>>)
         \/ \E g \in Procs : Step(g) /\ UNCHANGED h
GSpec == GInit /\ [][GNext]_<<vars, h>>
Whole == \A g \in Procs : at[g] = NC + 1
Printed == Whole => PrintT("H " \o ToJson(h))
=============================================================================
