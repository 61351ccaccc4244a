------------------------------- MODULE BuiltinSay -------------------------------
(* Writes sentences of given syntax trees: jobs [n, mode, seed], trees n.    *)
EXTENDS Sentence, Json, IOUtils, TLC
CONSTANTS Lanes
ASSUME TLCSet(11, JsonDeserialize(IOEnv.TRACE))
Jobs == TLCGet(11)
Fill == <<122,113,120,106,118,107,119>>
UT(r) == [start |-> FALSE, cont |-> FALSE, fold |-> r]
VARIABLES lane, i
Init == lane \in 1..Lanes /\ i = lane
Next == /\ i <= Len(Jobs)
        /\ LET ast == JsonDeserialize(IOEnv.IN \o ToString(Jobs[i].n) \o ".json").ast
               w(m) == SentenceOf(Jobs[i].modes[m].mode, Jobs[i].modes[m].seed, Fill, ast)
           IN JsonSerialize(IOEnv.OUT \o ToString(Jobs[i].n) \o ".say.json", [m \in 1..Len(Jobs[i].modes) |-> [sayable |-> Sayable(w(m)), w |-> w(m)]])
        /\ i' = i + Lanes
        /\ UNCHANGED lane
=============================================================================
