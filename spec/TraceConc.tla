--------------------------------- MODULE TraceConc ---------------------------------
(***************************************************************************)
(* Checks recorded sessions of several goroutines: is there a behaviour of   *)
(* Conc with these calls and returns, in this order, and these answers?       *)
(* A session is [progs, ev]: progs[g] the calls of g, each [lazy, op] (op: the *)
(* number of the answer the call gets when it is made alone); ev the calls     *)
(* <<1, g, 0>> and returns <<2, g, answer>>.  Steps not recorded are found by   *)
(* TLC.  A session whose last event is reached is printed as accepted.        *)
(***************************************************************************)
EXTENDS Conc, Json, IOUtils
ASSUME TLCSet(11, JsonDeserialize(IOEnv.TRACE))
Ss == TLCGet(11)
CONSTANT MaxProcs
TProcs == 1..MaxProcs
VARIABLES n, i
TProg(g) == LET p == Ss[n].progs IN IF g <= Len(p) THEN p[g] ELSE <<>>
E == Ss[n].ev[i]
TInit == Init /\ n \in 1..Len(Ss) /\ i = 1
TNext == \/ /\ i <= Len(Ss[n].ev) /\ E[1] = 1 /\ Call(E[2])
            /\ i' = i + 1 /\ n' = n
         \/ /\ i <= Len(Ss[n].ev) /\ E[1] = 2 /\ Return(E[2])
            /\ got[E[2]][at[E[2]]] = E[3]         \* the answer recorded is the answer of the specification
            /\ i' = i + 1 /\ n' = n
         \/ /\ \E g \in Procs : Step(g)
            /\ UNCHANGED <<n, i>>
TSpec == TInit /\ [][TNext]_<<vars, n, i>>
Accepted == i = Len(Ss[n].ev) + 1 => PrintT(<<"ACCEPTED", n>>)
=============================================================================
