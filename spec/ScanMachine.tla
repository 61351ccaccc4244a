------------------------------ MODULE ScanMachine ------------------------------
(***************************************************************************)
(* One call of Scan as a state machine.  The text is first read token by    *)
(* token; then, from left to right, an attempt is made at each word that    *)
(* begins a known phrase, one word of the text per step; finally each match *)
(* is turned into a reported match, with the URLs in the gap before it.     *)
(***************************************************************************)
EXTENDS Claims

CONSTANTS NSets,      \* the license sets under consideration are Lics(1)..Lics(NSets)
          Lics(_),    \* a license set: a sequence of [id, type, lre, url]
          KitOfSet(_),\* KitOf(Lics(s))
          Asts(_),    \* the syntax trees of its patterns
          Texts       \* the texts under consideration

VARIABLES set, t,     \* the license set and the text (parameters of the call)
          phase,      \* "read", "find", "try", "report", "done"
          rd,         \* [pos, words]: tokens read so far
          f,          \* the word to look at next
          m,          \* the attempt being made
          list,       \* the matches found so far
          rep         \* [out, total, last, k]: what has been reported so far
vars == <<set, t, phase, rd, f, m, list, rep>>

lics == Lics(set)
kit  == KitOfSet(set)
ws   == rd.words
NoAttempt == [k |-> 0, S |-> {}, lic |-> 0, end |-> 0, on |-> FALSE, how |-> "none"]

Init == /\ set \in {s \in 1..NSets : ~KitOfSet(s).err}
        /\ t \in Texts
        /\ phase = "read" /\ rd = [pos |-> 1, words |-> <<>>]
        /\ f = 1 /\ m = NoAttempt /\ list = <<>>
        /\ rep = [out |-> <<>>, total |-> 0, last |-> 1, k |-> 1]

Read == /\ phase = "read" /\ rd.pos <= Len(t)
        /\ rd' = SplitStep(t, rd)
        /\ UNCHANGED <<set, t, phase, f, m, list, rep>>
EndRead == /\ phase = "read" /\ rd.pos > Len(t)
           /\ phase' = "find"
           /\ UNCHANGED <<set, t, rd, f, m, list, rep>>

Pass == /\ phase = "find" /\ f <= Len(ws) /\ ~Candidate(kit, ws, f)     \* no phrase begins here
        /\ f' = f + 1
        /\ UNCHANGED <<set, t, phase, rd, m, list, rep>>
Attempt == /\ phase = "find" /\ f <= Len(ws) /\ Candidate(kit, ws, f)
           /\ m' = MatchInit(kit, f) /\ phase' = "try"
           /\ UNCHANGED <<set, t, rd, f, list, rep>>
Take(how) == /\ phase = "try" /\ m.on /\ m.k <= Len(ws)
             /\ m' = MatchStep(kit, ws, m)
             /\ m'.how = how
             /\ UNCHANGED <<set, t, phase, rd, f, list, rep>>
Exact == Take("exact")       Join == Take("join")       Divide == Take("divide")
Misspell == Take("misspell") Wildcard == Take("wild")   Stuck == Take("stuck")
Over == phase = "try" /\ (~m.on \/ m.k > Len(ws))
Final == IF m.on THEN Note(kit, [m EXCEPT !.k = Len(ws) + 1]) ELSE m
Hit  == /\ Over /\ Final.lic # 0
        /\ list' = Append(list, [lic |-> Final.lic, start |-> f, end |-> Final.end])
        /\ f' = Final.end /\ m' = NoAttempt /\ phase' = "find"
        /\ UNCHANGED <<set, t, rd, rep>>
Miss == /\ Over /\ Final.lic = 0
        /\ f' = f + 1 /\ m' = NoAttempt /\ phase' = "find"
        /\ UNCHANGED <<set, t, rd, list, rep>>
EndFind == /\ phase = "find" /\ f > Len(ws)
           /\ phase' = "report"
           /\ UNCHANGED <<set, t, rd, f, m, list, rep>>

Report1 == /\ phase = "report" /\ rep.k <= Len(list)
           /\ LET r == ReportStep(lics, Patterns(lics), t, ws, rep, list[rep.k]) IN
              rep' = [out |-> r.out, total |-> r.total, last |-> r.last, k |-> rep.k + 1]
           /\ UNCHANGED <<set, t, phase, rd, f, m, list>>
Return  == /\ phase = "report" /\ rep.k > Len(list)
           /\ LET u == Urls(lics, t, ws, rep.last, Len(ws) + 1, [out |-> rep.out, total |-> rep.total]) IN
              rep' = [rep EXCEPT !.out = u.out, !.total = u.total]
           /\ phase' = "done"
           /\ UNCHANGED <<set, t, rd, f, m, list>>
Returned == phase = "done" /\ UNCHANGED vars

Next == \/ Read \/ EndRead
        \/ Pass \/ Attempt \/ Exact \/ Join \/ Divide \/ Misspell \/ Wildcard \/ Stuck \/ Hit \/ Miss \/ EndFind
        \/ Report1 \/ Return \/ Returned
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* Properties of the machine.                                               *)
(***************************************************************************)
(* what the call returns, once it has                                       *)
Result == [m |-> SeenAll(lics, rep.out),
           pm |-> IF ws = <<>> THEN <<0, 0>> ELSE LET p == 100000 * rep.total  n == Len(ws) IN <<p \div n, (1000000 * (p % n)) \div n>>]

WordsInv ==
  \A k \in 1..Len(ws) : /\ 0 <= ws[k].lo /\ ws[k].lo < ws[k].hi /\ ws[k].hi <= Len(t)
                        /\ k > 1 => ws[k-1].hi <= ws[k].lo
                        /\ ws[k].w # <<>>
                        /\ k > 1 => ~(ws[k].w = W_copyright /\ ws[k-1].w = W_copyright)
MatchesInv ==
  \A k \in 1..Len(list) : /\ list[k].start + 1 < list[k].end /\ list[k].end <= Len(ws) + 1
                          /\ k > 1 => list[k-1].end <= list[k].start
(* An attempt only ever remembers matches of at least two words.            *)
AttemptInv ==
  phase = "try" => /\ m.k >= f
                   /\ (m.lic # 0 => m.end > f + 1 /\ m.end <= m.k)
                   /\ (m.on => m.S # {})
                   (* the first two words of a match are never misread *)
                   /\ (m.k \in {f+1, f+2} => m.how \in {"exact", "stuck"})

AtEnd == phase = "done"
P01_NoFalsePositive == AtEnd => NoFalsePositive(lics, DOMAIN kit.rank, Asts(set), t, ws, Result)
(* Exact sentences are found: where one begins outside all matches, or at    *)
(* the start of a match, that match is at least as long, provided no         *)
(* wildcard can be cut off.                                                  *)
RECURSIVE NoCut(_)
NoCut(x) == IF x.op = "wild" THEN x.n <= 3 ELSE \A k \in 1..Len(x.sub) : NoCut(x.sub[k])
P02_NothingMissed ==
  AtEnd => \A l \in 1..Len(lics) : lics[l].lre # <<>> /\ NoCut(Asts(set)[l]) =>
            \A s \in 1..Len(ws) : \A e \in Exactly(ws, Asts(set)[l], {s}) :
              e > s => \E k \in 1..Len(list) :
                         /\ list[k].start <= s /\ s < list[k].end
                         /\ (list[k].start = s => list[k].end >= e)
P02_Ties ==    \* of licenses whose sentences end at the same place the first is reported
  AtEnd => \A k \in 1..Len(list) : \A l \in 1..Len(lics) :
            (/\ lics[l].lre # <<>> /\ NoCut(Asts(set)[l])
             /\ list[k].end \in Exactly(ws, Asts(set)[l], {list[k].start}))
            => Patterns(lics)[list[k].lic] <= l
P02_AsMatched == AtEnd => MatchesAll(lics, Patterns(lics), t, ws, list, Result)
P03_WellFormed == AtEnd => WellFormed(lics, t, ws, Result)
P04_Percent == AtEnd => PercentExact(ws, Result) /\ rep.total = Cardinality(Covered(ws, Result))
P05_Extents ==   \* stated once more, of the result
  AtEnd => \A k \in 1..Len(rep.out) : LET r == rep.out[k] IN
            ~r.url => /\ (r.start = 0 \/ r.start = ws[r.ws].lo \/ t[r.start] = 10)
                      /\ (r.end = Len(t) \/ r.end = ws[r.we - 1].hi \/ t[r.end] = 10)
                      /\ \A j \in 1..Len(ws) : (ws[j].lo >= r.start /\ ws[j].hi <= r.end) <=> (j >= r.ws /\ j < r.we)
Agrees == AtEnd => LET s == ScanOf(lics, kit, t) IN s.out = rep.out /\ s.total = rep.total /\ s.n = Len(ws)

(* Words taken never exceed what was read; every call returns.              *)
Forward == [][/\ Len(rd'.words) >= Len(rd.words) /\ rd'.pos >= rd.pos
              /\ f' >= f /\ Len(list') >= Len(list)
              /\ (phase = "try" /\ phase' = "try" => m'.k > m.k \/ ~m'.on)
              /\ Len(rep'.out) >= Len(rep.out)
              /\ set' = set /\ t' = t]_vars
Returns == <>(phase = "done")
=============================================================================
