--------------------------------- MODULE MCConc ---------------------------------
(***************************************************************************)
(* Bounded instances of Conc.                                               *)
(***************************************************************************)
EXTENDS Conc
CONSTANTS NP, NC, Mixed
GProcs == 1..NP
GProg(g) == [k \in 1..NC |-> [lazy |-> ~Mixed \/ (g + k) % 2 = 0, op |-> <<g, k>>]]
=============================================================================
