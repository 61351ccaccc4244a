-------------------------------- MODULE TraceSame --------------------------------
(* Pairs of answers of the real code that must be the same.                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
ASSUME TLCSet(11, JsonDeserialize(IOEnv.TRACE))
Pairs == TLCGet(11)
VARIABLE k
Init == k = 1
Next == /\ k <= Len(Pairs)
        /\ TRUE = IF Pairs[k].a = Pairs[k].b /\ ~Pairs[k].a.panic /\ ~Pairs[k].a.err THEN TRUE ELSE PrintT(<<"DIFFERS", k>>)
        /\ k' = k + 1
=============================================================================
