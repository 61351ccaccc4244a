--------------------------------- MODULE MCNew ---------------------------------
(***************************************************************************)
(* P11 on the specification: for all small trees, whether a pattern can be  *)
(* used is decided as the language of the pattern demands.                  *)
(***************************************************************************)
EXTENDS Claims
NwU(r) == [start |-> FALSE, cont |-> FALSE, fold |-> r]
A == <<97>>
Leaf == {EmptyN, WordsN(<<A>>), WordsN(<<A, A>>), WildN(2), WildN(0)}
Cat2(S, T) == {Concat(<<s, t>>) : s \in S, t \in T}
Alt2(S, T) == {Collapse("alt", <<s, t>>) : s \in S, t \in T}
D1 == Leaf \cup {QuestN(x) : x \in Leaf \ {EmptyN}} \cup Alt2(Leaf, Leaf)
VARIABLES x, n
CONSTANT N
Init == x \in D1 /\ n = 1
Next == /\ n < N /\ n' = n + 1
        /\ x' \in ({Concat(<<x, y>>) : y \in D1} \cup {Concat(<<y, x>>) : y \in D1}
                  \cup {Collapse("alt", <<x, y>>) : y \in Leaf} \cup (IF x.op = "quest" \/ x = EmptyN THEN {} ELSE {QuestN(x)}))
Spec == Init /\ [][Next]_<<x, n>>

(* Sentences: sequences of a (a word) and * (a wildcard's word), cut after  *)
(* two.  A wildcard may also take no word.                                  *)
Two(S) == {SubSeq(s, 1, IF Len(s) > 2 THEN 2 ELSE Len(s)) : s \in S}
RECURSIVE Heads(_)
Heads(t) ==
  CASE t.op = "words" -> Two({[k \in 1..Len(t.w) |-> "w"]})
    [] t.op = "wild"  -> {<<>>, <<"*">>, <<"*", "*">>}
    [] t.op = "quest" -> {<<>>} \cup Heads(t.sub[1])
    [] t.op = "alt"   -> UNION {Heads(t.sub[k]) : k \in 1..Len(t.sub)}
    [] t.op = "cat"   -> FoldLeft(LAMBDA S, y : Two({s \o u : s \in S, u \in Heads(y)}), {<<>>}, t.sub)
    [] OTHER -> {<<>>}
HeadsOk == Searchable(x) <=> Heads(x) = {<<"w", "w">>}

NullOk == Nullable(x) <=> <<>> \in Heads(x)

(* The end.  May some sentence end in a word of a wildcard?                 *)
RECURSIVE EndsWild(_)
EndsWild(t) ==
  CASE t.op = "wild" -> TRUE
    [] t.op = "quest" -> EndsWild(t.sub[1])
    [] t.op = "alt" -> \E k \in 1..Len(t.sub) : EndsWild(t.sub[k])
    [] t.op = "cat" -> \E k \in 1..Len(t.sub) : EndsWild(t.sub[k]) /\ \A j \in (k+1)..Len(t.sub) : Nullable(t.sub[j])
    [] OTHER -> FALSE
(* Rejected are those in which all that the wildcard is part of, up to the  *)
(* whole pattern, may be absent as well as all that follows it; a wildcard  *)
(* at the end of one branch of a group that is never absent is let pass.    *)
RECURSIVE Trailing(_)
Trailing(t) ==
  CASE t.op = "wild" -> TRUE
    [] t.op = "quest" -> Trailing(t.sub[1])
    [] t.op = "alt" -> \E k \in 1..Len(t.sub) : Trailing(t.sub[k])
    [] t.op = "cat" -> \E k \in 1..Len(t.sub) : Trailing(t.sub[k]) /\ \A j \in k..Len(t.sub) : Nullable(t.sub[j])
    [] OTHER -> FALSE
RECURSIVE Branches(_)
Branches(t) == (t.op = "alt" /\ ~Nullable(t)) \/ \E k \in 1..Len(t.sub) : Branches(t.sub[k])
Comp1 == CompileOnto(<<>>, x, 1)
TailOk == /\ Comp1.err <=> Trailing(x)
          /\ Trailing(x) => EndsWild(x)
          /\ EndsWild(x) => Trailing(x) \/ Branches(x)
(* Every location of a program is reached, and none leads out of it.        *)
ProgOk == LET p == Comp1.prog IN
  \A k \in 1..Len(p) : /\ p[k].op \in {"alt", "jmp"} => p[k].a \in 1..Len(p)
                       /\ p[k].op = "cut" => 1 <= p[k].a /\ p[k].a <= p[k].b /\ p[k].b <= Len(p) /\ p[k].b < k
                       /\ (k = Len(p) <=> p[k].op = "mat")
Inv == HeadsOk /\ NullOk /\ TailOk /\ ProgOk
=============================================================================
