-------------------------------- MODULE TraceOld --------------------------------
(***************************************************************************)
(* Recorded calls of package old, checked against the specification.        *)
(*   sets:  [list: [name, text, url], panic]                                *)
(*   cases: [set, text, min, threshold, slop, panic, ok, pct, mutated,      *)
(*           m: [name, type, pct, s, e, url]]                               *)
(*   types: the names of the types 0, 1, ...                                *)
(* Percentages are in millionths, cut off.                                  *)
(***************************************************************************)
EXTENDS Old, Json, IOUtils, TLC
CONSTANT Lanes
ASSUME TLCSet(11, JsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(11)
Cases == Trace.cases
ASSUME TLCSet(12, LET l == JsonDeserialize(IOEnv.UTAB) IN
      [r \in {l[k][1] : k \in 1..Len(l)} |->
         LET k == CHOOSE j \in 1..Len(l) : l[j][1] = r IN [letter |-> l[k][2] = 1, lower |-> l[k][3]]])
UT(r) == LET u == TLCGet(12) IN IF r \in DOMAIN u THEN u[r] ELSE [letter |-> FALSE, lower |-> r]
ASSUME TLCSet(13, TLCEval([s \in 1..Len(Trace.sets) |-> Checker(Trace.sets[s].list)]))
Checkers == TLCGet(13)
Seventy == 70

VARIABLES lane, i

(* 10^6 * 100 * num / den, cut off, digit by digit.                         *)
RECURSIVE Digits(_, _, _, _)
Digits(acc, rem, den, n) == IF n = 0 THEN acc ELSE Digits(acc * 10 + (rem * 10) \div den, (rem * 10) % den, den, n - 1)
Micro(num, den) == Digits((100 * num) \div den, (100 * num) % den, den, 6)
Near(p, num, den) == p >= 0 /\ LET d == p - Micro(num, den) IN d \in {-1, 0, 1}
SameMatch(a, b) == /\ a.name = b.name /\ a.type = b.type /\ a.s = b.s /\ a.e = b.e /\ a.url = b.url
                   /\ Near(a.pct, b.num, b.den)
Agrees(c, r) ==
  /\ Near(c.pct, r.num, r.den)
  /\ Len(c.m) = Len(r.ms)
  /\ \A k \in 1..Len(c.m) : SameMatch(c.m[k], r.ms[k])
  /\ c.ok = (r.ms # <<>>)
Case(k) ==
  LET c  == Cases[k]
      ck == Checkers[c.set]
      o  == Options(c)
      ws == WordsOf(c.text)
      tw == DocWords(ck, ws)
      out == Winnowed(ck.lics, ck.at, ck.names, tw, o)
      rs == Reports(ck, c.text, ws, out)
      fine == ~c.panic /\ ~c.mutated /\ \E r \in rs : Agrees(c, r)
      (* what the specification itself promises of its answers              *)
      sound == \A ms \in out : /\ InOrder(ms) /\ AtThreshold(ck.lics, o, ms) /\ Complete(ck.lics, tw, o, ms)
                               /\ \A j \in 1..Len(ms) : RangeOk(tw, ms[j]) /\ ms[j].matched <= Len(ck.lics[ms[j].lic])
      whole == \A r \in rs : r.num <= r.den
  IN /\ IF fine THEN TRUE ELSE PrintT(<<"MISMATCH", "P17", "case", k, rs>>)
     /\ Assert(sound /\ whole, <<"UNSOUND", k, rs>>)

Init == lane \in 1..Lanes /\ i = lane
Next == /\ i <= Len(Cases) + 1
        /\ TRUE = IF i <= Len(Cases) THEN Case(i)
                  ELSE IF Trace.types = [k \in 1..Len(TypeNames) |-> TypeNames[k]] THEN TRUE
                  ELSE PrintT(<<"MISMATCH", "P17", "types", 0, Trace.types>>)
        /\ i' = i + Lanes /\ UNCHANGED lane
=============================================================================
