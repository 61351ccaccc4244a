------------------------------- MODULE TraceTypes -------------------------------
(***************************************************************************)
(* Checks recorded calls of Merge, String and ParseType, and the values of   *)
(* the declared constants.  Events: [op, t, u, r, s, err]: types are lists   *)
(* of bit numbers, strings lists of bytes.                                   *)
(***************************************************************************)
EXTENDS Types, TLC, Json, IOUtils
CONSTANT Lanes
ASSUME TLCSet(11, JsonDeserialize(IOEnv.TRACE))
Ev == TLCGet(11)
Set(x) == {x[k] : k \in 1..Len(x)}
VARIABLES lane, i
Expect(e) ==
  CASE e.op = "merge"  -> Set(e.r) = Merge(Set(e.t), Set(e.u))
    [] e.op = "string" -> e.s = Str(Set(e.t))
    [] e.op = "parse"  -> LET v == ParseType(e.s) IN IF v = Bad THEN e.err ELSE ~e.err /\ Set(e.r) = v
    [] e.op = "const"  -> LET b == {k \in Declared : Name[k] = e.s} IN Set(e.r) = b
    [] OTHER -> FALSE
Init == lane \in 1..Lanes /\ i = lane
Next == /\ i <= Len(Ev)
        /\ TRUE = IF Expect(Ev[i]) THEN TRUE ELSE PrintT(<<"MISMATCH", "P12", "case", i, Ev[i].op>>)
        /\ i' = i + Lanes /\ UNCHANGED lane
=============================================================================
