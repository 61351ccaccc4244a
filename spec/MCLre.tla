--------------------------------- MODULE MCLre ---------------------------------
(***************************************************************************)
(* P10 on the specification: patterns grow token by token.  Which of them   *)
(* are patterns is defined here by conditions on the tokens and on which of *)
(* them share a line; what they mean by a grammar (all ways of reading      *)
(* ).  The parser of Lre agrees with both.                                  *)
(***************************************************************************)
EXTENDS Claims
CONSTANT N
LrU(r) == [start |-> FALSE, cont |-> FALSE, fold |-> r]
Str == [open |-> <<40,40>>, bar |-> <<124,124>>, close |-> <<41,41>>, quest |-> <<63,63>>,
        nl |-> <<10>>, sp |-> <<32>>, a |-> <<32,97>>, b |-> <<32,98>>, wild |-> <<32,95,95,50,95,95>>,
        com |-> <<32,47,47,42,42,40,40,42,42,47,47>>]
Tokens == DOMAIN Str
VARIABLE x
Init == x = <<>>
Next == Len(x) < N /\ \E t \in Tokens : x' = Append(x, t)
Spec == Init /\ [][Next]_x

Bytes == FoldLeft(LAMBDA s, t : s \o Str[t], <<>>, x)
Blank == {"sp"}
(* tokens between i and the next line end, and back to the last one         *)
After(i) == LET E == {k \in (i+1)..Len(x) : x[k] = "nl"} IN SubSeq(x, i + 1, IF E = {} THEN Len(x) ELSE MinOf(E) - 1)
Before(i) == LET E == {k \in 1..(i-1) : x[k] = "nl"} IN SubSeq(x, (IF E = {} THEN 0 ELSE MaxOf(E)) + 1, i - 1)
AllBlank(s) == \A k \in 1..Len(s) : s[k] \in Blank
NotBlank(s) == SelectSeq(s, LAMBDA t : t \notin Blank)
Depth(i) == Cardinality({k \in 1..i : x[k] = "open"}) - Cardinality({k \in 1..i : x[k] = "close"})
OkAt(i) ==
  CASE x[i] = "open"  -> AllBlank(Before(i))
    [] x[i] = "close" -> Depth(i) >= 0 /\ LET r == NotBlank(After(i)) IN r = <<>> \/ r[1] = "quest"
    [] x[i] = "quest" -> AllBlank(After(i)) /\ LET l == NotBlank(Before(i)) IN l # <<>> /\ l[Len(l)] = "close"
    [] x[i] = "bar"   -> Depth(i) > 0
    [] OTHER -> TRUE
IsPattern == Depth(Len(x)) = 0 /\ \A i \in 1..Len(x) : OkAt(i)

(* Meaning: a grammar over the tokens without layout, comments.             *)
(*   Alt -> Cat (bar Cat)*   Cat -> Item*                                    *)
(*   Item -> a | b | wild | open Alt close [quest]                           *)
(* The sentences (up to L words; * for any word) of a stretch of tokens.    *)
L == 3
Y == SelectSeq(x, LAMBDA t : t \notin {"nl", "sp", "com"})
Short(S) == {s \in S : Len(s) <= L}
Times(S, T) == Short({s \o t : s \in S, t \in T})
Matching(i) == MinOf({j \in (i+1)..Len(Y) : Y[j] = "close" /\
                  Cardinality({k \in i..j : Y[k] = "open"}) = Cardinality({k \in i..j : Y[k] = "close"})})
RECURSIVE AltOf(_, _), CatOf(_, _)
InGroup(i, j, k) == \E p \in i..(k-1) : Y[p] = "open" /\ Matching(p) <= j /\ Matching(p) >= k
Bars(i, j) == {k \in i..j : Y[k] = "bar" /\ ~InGroup(i, j, k)}
AltOf(i, j) == IF Bars(i, j) = {} THEN CatOf(i, j)
               ELSE LET k == MinOf(Bars(i, j)) IN CatOf(i, k - 1) \cup AltOf(k + 1, j)
Star == 42
CatOf(i, j) ==
  IF i > j THEN {<<>>}
  ELSE CASE Y[i] = "a" -> Times({<<97>>}, CatOf(i + 1, j))
         [] Y[i] = "b" -> Times({<<98>>}, CatOf(i + 1, j))
         [] Y[i] = "wild" -> Times({<<>>, <<Star>>, <<Star, Star>>}, CatOf(i + 1, j))
         [] Y[i] = "quest" -> CatOf(i + 1, j)       \* a second one changes nothing
         [] OTHER -> LET c == Matching(i)
                         opt == c < Len(Y) /\ Y[c+1] = "quest"
                     IN Times(AltOf(i + 1, c - 1) \cup (IF opt THEN {<<>>} ELSE {}), CatOf(c + 1, j))

RECURSIVE Says(_)
Says(t) ==      \* the sentences of a tree
  CASE t.op = "words" -> Short({FoldLeft(LAMBDA s, w : s \o w, <<>>, t.w)})
    [] t.op = "wild"  -> {[k \in 1..j |-> Star] : j \in 0..(IF t.n > L THEN L ELSE t.n)}
    [] t.op = "quest" -> {<<>>} \cup Says(t.sub[1])
    [] t.op = "alt"   -> UNION {Says(t.sub[k]) : k \in 1..Len(t.sub)}
    [] t.op = "cat"   -> FoldLeft(LAMBDA S, y : Times(S, Says(y)), {<<>>}, t.sub)
    [] OTHER -> {<<>>}

Verdict == LET p == Parse(Bytes) IN
  /\ p.err <=> ~IsPattern
  /\ ~p.err => Says(p.ast) = AltOf(1, Len(Y))
=============================================================================
