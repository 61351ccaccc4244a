------------------------------ MODULE BuiltinParse ------------------------------
(***************************************************************************)
(* What the specification makes of a long list of patterns (the built-in    *)
(* set): the syntax tree, the words in order of first appearance and the    *)
(* start phrases of each, written to OUT<number>.json.  Each step of a lane *)
(* reads one pattern.                                                       *)
(***************************************************************************)
EXTENDS Matcher, Json, IOUtils, TLC

CONSTANTS Lanes
ASSUME TLCSet(11, JsonDeserialize(IOEnv.TRACE))
Pats == TLCGet(11)       \* [n, lre]: number in the whole list, bytes
ASSUME TLCSet(12, LET l == JsonDeserialize(IOEnv.UTAB) IN
      [r \in {l[k][1] : k \in 1..Len(l)} |->
         LET k == CHOOSE j \in 1..Len(l) : l[j][1] = r IN
         [start |-> l[k][2] = 1, cont |-> l[k][3] = 1, fold |-> l[k][4]]])
UT(r) == LET u == TLCGet(12) IN IF r \in DOMAIN u THEN u[r] ELSE [start |-> FALSE, cont |-> FALSE, fold |-> r]

Pair(p) == <<p[1].w, p[2].w>>
Firsts(ws) ==
  LET S == {ws[n] : n \in 1..Len(ws)}
      f == FoldLeft(LAMBDA a, n : IF ws[n] \in a.left THEN [left |-> a.left \ {ws[n]}, seq |-> Append(a.seq, ws[n])] ELSE a,
                    [left |-> S, seq |-> <<>>], [n \in 1..Len(ws) |-> n])
  IN f.seq
Of(k) ==
  LET p == Parse(Pats[k].lre) IN
  IF p.err THEN [err |-> TRUE, ast |-> EmptyN, words |-> <<>>, phrases |-> {}]
  ELSE [err |-> ~Searchable(p.ast), ast |-> p.ast, words |-> Firsts(p.words),
        phrases |-> {Pair(q) : q \in {q \in Phrases(p.ast) : q[2].k = "w"}}]

VARIABLES lane, i
Init == lane \in 1..Lanes /\ i = lane
Next == /\ i <= Len(Pats)
        /\ JsonSerialize(IOEnv.OUT \o ToString(Pats[i].n) \o ".json", Of(i))
        /\ i' = i + Lanes
        /\ UNCHANGED lane
=============================================================================
