------------------------------- MODULE TraceScan -------------------------------
(***************************************************************************)
(* Checks recorded sessions with the real code against the specification.   *)
(* A session makes scanners (event "new") and scans texts with them (event  *)
(* "scan").  The trace file has                                             *)
(*   sets   license sets:  [lics, err]   err: NewScanner's verdict          *)
(*   cases  scans:         [set, text, panic, pm, m]                        *)
(* Sets and cases are dealt to independent lanes; each step of a lane       *)
(* checks one event.  An event the specification does not allow is printed. *)
(***************************************************************************)
EXTENDS Claims, Json, IOUtils

CONSTANTS Lanes, Props
TraceFile == IOEnv.TRACE
(* The registers of TLC hold what must be computed only once.               *)
ASSUME TLCSet(11, JsonDeserialize(TraceFile))
Trace == TLCGet(11)
Sets  == Trace.sets
Cases == Trace.cases

ASSUME TLCSet(12, LET l == JsonDeserialize(IOEnv.UTAB) IN
      [r \in {l[k][1] : k \in 1..Len(l)} |->
         LET k == CHOOSE j \in 1..Len(l) : l[j][1] = r IN
         [start |-> l[k][2] = 1, cont |-> l[k][3] = 1, fold |-> l[k][4]]])
UT(r) == LET u == TLCGet(12) IN IF r \in DOMAIN u THEN u[r] ELSE [start |-> FALSE, cont |-> FALSE, fold |-> r]

(* What the specification makes of each license set.                        *)
ASSUME TLCSet(13, TLCEval([s \in 1..Len(Sets) |-> TLCEval(KitOf(Sets[s].lics))]))
Kits == TLCGet(13)
ASSUME TLCSet(14, TLCEval([s \in 1..Len(Sets) |->
          IF Kits[s].err THEN <<>>
          ELSE TLCEval([l \in 1..Len(Sets[s].lics) |-> Parse(Sets[s].lics[l].lre).ast])]))
Asts == TLCGet(14)

VARIABLES lane, i

Note1(kind, k, bad, detail) ==     \* TRUE; prints what is in bad
  IF bad = {} THEN TRUE
  ELSE \A p \in bad : PrintT(<<"MISMATCH", p, kind, k, detail>>)

(* NewScanner's verdict: P10 speaks of the syntax of patterns, P11 of all of it. *)
Malformed(s) == \E l \in 1..Len(Sets[s].lics) : Parse(Sets[s].lics[l].lre).err
SetOk(s) == Kits[s].err = Sets[s].err /\ ~Sets[s].panic
Syntactic(s) == Sets[s].panic \/ ~Kits[s].err \/ Malformed(s)
CheckSet(s) ==
  Note1("set", s, IF SetOk(s) THEN {}
                  ELSE Props \cap (IF Syntactic(s) THEN {"P10", "P11"} ELSE {"P11"}), <<"rejected", Kits[s].err>>)

Case(k) ==
  LET c    == Cases[k]
      lics == Sets[c.set].lics
      kit  == Kits[c.set]
      t    == c.text
      ws   == Split(t)
      pat  == Patterns(lics)
      list == AllMatches(kit, ws)
      cv   == Coverage(lics, pat, t, ws, list)
      exp  == SeenAll(lics, cv.out)
      n    == Len(ws)
      Holds(p) ==
        IF c.panic THEN FALSE
        ELSE CASE p = "P01" -> NoFalsePositive(lics, DOMAIN kit.rank, Asts[c.set], t, ws, c)
               [] p = "P02" -> MatchesAll(lics, pat, t, ws, list, c)
               [] p = "P03" -> WellFormed(lics, t, ws, c)
               [] p = "P04" -> PercentExact(ws, c)
               [] p = "P05" -> ExtentsExact(exp, c)
               [] p = "P06" -> UrlsExact(exp, c)
               [] p = "P07" -> SameVerdict(exp, cv.total, n, c)
               [] p \in {"P08", "P09", "P10", "P18"} -> MatchesAll(lics, pat, t, ws, list, c)
               [] p = "P11" -> TRUE
               [] OTHER -> AllExact(exp, c) /\ PercentIs(c.pm, cv.total, n)
  IN Note1("case", k, {p \in Props : ~Holds(p)}, <<"expected", exp, "words", cv.total, n>>)

NumEv == Len(Sets) + Len(Cases)
(* Whether the specification's own answer is of interest: with a match.     *)
Init == lane \in 1..Lanes /\ i = lane
Next == /\ i <= NumEv
        /\ TRUE = IF i <= Len(Sets) THEN CheckSet(i) ELSE
             LET c == Cases[i - Len(Sets)] IN
             (* a scanner the specification rejects but the code does not: see its set *)
             IF Kits[c.set].err \/ Sets[c.set].err THEN TRUE ELSE Case(i - Len(Sets))
        /\ i' = i + Lanes
        /\ UNCHANGED lane
=============================================================================
