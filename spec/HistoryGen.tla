------------------------------- MODULE HistoryGen -------------------------------
(***************************************************************************)
(* Behaviours of History, printed as lists of operations to be carried out   *)
(* by the real code.  Every behaviour of Depth steps is printed once (or, in *)
(* simulation, as many as asked for).                                       *)
(***************************************************************************)
EXTENDS History, Json
CONSTANTS Depth, Narrow      \* Narrow: fewer edits to choose from, so that simulation makes more calls
VARIABLE h
Op(n, a, b) == h' = Append(h, <<n, a, b>>)
Pick(x) == ~Narrow \/ (x + Len(h)) % 5 = 0
GInit == Init /\ h = <<>>
GNext == /\ Len(h) < Depth
         /\ \/ \E k \in 1..NK, j \in 1..NL : New(k, j) /\ Op("new", k, j)
            \/ \E k \in 1..NK, i \in 1..NT : Scan(k, i) /\ Op("scan", k, i)
            \/ \E i \in 1..NT : ScanBuiltin(i) /\ Op("scanb", i, 0)
            \/ Builtin /\ Op("builtin", 0, 0)
            \/ EditBuiltin /\ Op("editb", 0, 0)
            \/ \E j \in 1..NL, v \in 1..LV : Pick(v + j) /\ EditList(j, v) /\ Op("editlist", j, v)
            \/ \E i \in 1..NT, v \in 1..TV : Pick(v + i) /\ EditText(i, v) /\ Op("edittext", i, v)
            \/ \E r \in 1..NR : (~Narrow \/ r = 1) /\ Scribble(r) /\ Op("scribble", r, 0)
            \/ Forget /\ Op("forget", 0, 0)
GSpec == GInit /\ [][GNext]_<<vars, h>>
Printed == Len(h) = Depth => PrintT("H " \o ToJson(h))
=============================================================================
