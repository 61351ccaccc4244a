---------------------------------- MODULE Conc ----------------------------------
(***************************************************************************)
(* Calls of the package from several goroutines.  Each goroutine makes a      *)
(* sequence of calls.  A call with the built-in license set first goes        *)
(* through the once-only initialization: the first to arrive compiles the     *)
(* set, step by step; those that arrive meanwhile wait; those that arrive     *)
(* later pass.  Compiled scanners are only read.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Procs,      \* goroutines
          Prog(_),    \* the calls of each, a sequence of [lazy, op]
          Steps       \* steps of the initialization

VARIABLES pc,         \* "idle", "enter", "init", "wait", "work", "answer"
          at,         \* for each goroutine the number of its current (or next) call
          once,       \* "new", "running", "done"
          built,      \* steps of the initialization done
          inits,      \* how many times it was begun
          got         \* for each goroutine the answers returned
vars == <<pc, at, once, built, inits, got>>

Init == /\ pc = [g \in Procs |-> "idle"] /\ at = [g \in Procs |-> 1]
        /\ once = "new" /\ built = 0 /\ inits = 0 /\ got = [g \in Procs |-> <<>>]

Cur(g) == Prog(g)[at[g]]
(* What a call would answer alone: it depends on the call only, provided the *)
(* license set is completely built.                                          *)
Answer(c, b) == IF c.lazy /\ b < Steps THEN "broken" ELSE c.op

Call(g)  == /\ pc[g] = "idle" /\ at[g] <= Len(Prog(g))
            /\ pc' = [pc EXCEPT ![g] = IF Cur(g).lazy THEN "enter" ELSE "work"]
            /\ UNCHANGED <<at, once, built, inits, got>>
First(g) == /\ pc[g] = "enter" /\ once = "new"
            /\ once' = "running" /\ inits' = inits + 1 /\ pc' = [pc EXCEPT ![g] = "init"]
            /\ UNCHANGED <<at, built, got>>
Build(g) == /\ pc[g] = "init" /\ built < Steps
            /\ built' = built + 1 /\ UNCHANGED <<pc, at, once, inits, got>>
Ready(g) == /\ pc[g] = "init" /\ built = Steps
            /\ once' = "done" /\ pc' = [pc EXCEPT ![g] = "work"] /\ UNCHANGED <<at, built, inits, got>>
Wait(g)  == /\ pc[g] = "enter" /\ once = "running"
            /\ pc' = [pc EXCEPT ![g] = "wait"] /\ UNCHANGED <<at, once, built, inits, got>>
Pass(g)  == /\ pc[g] \in {"enter", "wait"} /\ once = "done"
            /\ pc' = [pc EXCEPT ![g] = "work"] /\ UNCHANGED <<at, once, built, inits, got>>
Work(g)  == /\ pc[g] = "work"        \* reads the scanner
            /\ got' = [got EXCEPT ![g] = Append(@, Answer(Cur(g), built))]
            /\ pc' = [pc EXCEPT ![g] = "answer"] /\ UNCHANGED <<at, once, built, inits>>
Return(g) == /\ pc[g] = "answer"
             /\ pc' = [pc EXCEPT ![g] = "idle"] /\ at' = [at EXCEPT ![g] = @ + 1]
             /\ UNCHANGED <<once, built, inits, got>>

Step(g) == First(g) \/ Build(g) \/ Ready(g) \/ Wait(g) \/ Pass(g) \/ Work(g)
Next == \E g \in Procs : Call(g) \/ Step(g) \/ Return(g)
Spec == Init /\ [][Next]_vars /\ \A g \in Procs : WF_vars(Call(g) \/ Step(g) \/ Return(g))

(***************************************************************************)
(* Properties.                                                              *)
(***************************************************************************)
Lazy(g) == at[g] <= Len(Prog(g)) /\ Cur(g).lazy
InitOnce   == inits <= 1 /\ (once = "new" <=> inits = 0)
OneBuilder == Cardinality({g \in Procs : pc[g] = "init"}) <= 1
(* nobody reads the built-in scanner before it is complete, and nobody       *)
(* changes it afterwards                                                     *)
NoEarlyUse == \A g \in Procs : pc[g] \in {"work", "answer"} /\ Lazy(g) => once = "done" /\ built = Steps
Stable     == [][once = "done" => UNCHANGED <<once, built, inits>>]_vars
AsAlone    == \A g \in Procs : \A k \in 1..Len(got[g]) : got[g][k] = Prog(g)[k].op
AllReturn  == <>(\A g \in Procs : at[g] = Len(Prog(g)) + 1)
=============================================================================
