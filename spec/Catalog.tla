-------------------------------- MODULE Catalog --------------------------------
(***************************************************************************)
(* The built-in license set: what the files of the licenses directory       *)
(* stand for, and the list of licenses made of them.                        *)
(*                                                                          *)
(* A file is a template: text with actions {{...}}.                         *)
(*   {{define "n"}}..{{end}}   names a piece of template                    *)
(*   {{template "n" expr}}     the piece named n, with expr as its argument *)
(*   {{$v := expr}}  {{expr}}  {{if eq e f}}..{{else}}..{{end}}             *)
(*   {{Type "t"}}              declares the license's type                  *)
(*   {{/* comment */}}         {{- and -}} drop the adjoining white space    *)
(* with expr one of "string", number, $ and . (the argument), $v,           *)
(* index e n (element n of a list), list e f.. (a list; lists among the     *)
(* elements are flattened).                                                 *)
(* Every template whose name ends in .lre and that expands to anything but  *)
(* white space is a license.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Types

HasAt(t, i, p) == /\ i >= 1 /\ i + Len(p) - 1 <= Len(t)
                  /\ \A k \in 1..Len(p) : t[i+k-1] = p[k]
EndsWith(t, p) == Len(t) >= Len(p) /\ HasAt(t, Len(t) - Len(p) + 1, p)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Blank == {32, 9, 10, 13}
B2o == <<123, 123>>   B2c == <<125, 125>>

(***************************************************************************)
(* Pieces of a template: [act, s], text or the inside of an action.         *)
(***************************************************************************)
RECURSIVE DropL(_), DropR(_)
DropL(s) == IF s # <<>> /\ s[1] \in Blank THEN DropL(Tail(s)) ELSE s
DropR(s) == IF s # <<>> /\ s[Len(s)] \in Blank THEN DropR(SubSeq(s, 1, Len(s)-1)) ELSE s

RECURSIVE Cut(_, _, _, _, _)
Cut(t, opens, closes, from, acc) ==
  LET S == {i \in opens : i >= from} IN
  IF S = {} THEN Append(acc, [act |-> FALSE, s |-> SubSeq(t, from, Len(t))])
  ELSE LET o == SetMin(S)
           c == SetMin({i \in closes : i > o})
       IN Cut(t, {i \in S : i > c}, closes, c + 2,
              acc \o <<[act |-> FALSE, s |-> SubSeq(t, from, o-1)], [act |-> TRUE, s |-> SubSeq(t, o+2, c-1)]>>)
TrimsLeft(p)  == p.act /\ HasAt(p.s, 1, <<45, 32>>)
TrimsRight(p) == p.act /\ EndsWith(p.s, <<32, 45>>)
Pieces(t) ==
  LET raw == Cut(t, {i \in 1..(Len(t)-1) : t[i] = 123 /\ t[i+1] = 123},
                    {i \in 1..(Len(t)-1) : t[i] = 125 /\ t[i+1] = 125}, 1, <<>>)
      body(p) == LET a == IF TrimsLeft(p) THEN SubSeq(p.s, 2, Len(p.s)) ELSE p.s
                     b == IF TrimsRight(p) THEN SubSeq(a, 1, Len(a)-1) ELSE a
                 IN b
      text(k) == LET a == IF k > 1 /\ TrimsRight(raw[k-1]) THEN DropL(raw[k].s) ELSE raw[k].s
                 IN IF k < Len(raw) /\ TrimsLeft(raw[k+1]) THEN DropR(a) ELSE a
  IN [k \in 1..Len(raw) |-> IF raw[k].act THEN [act |-> TRUE, s |-> body(raw[k])]
                            ELSE [act |-> FALSE, s |-> text(k)]]

(***************************************************************************)
(* The words of an action: [k, v] with k = "str" (v its bytes), "num"       *)
(* (v its digits), or "id" (anything else).                                 *)
(***************************************************************************)
RECURSIVE StrEnd(_, _), Unquote(_), TokEnd(_, _), Toks(_, _, _)
StrEnd(s, i) == IF s[i] = 34 THEN i ELSE IF s[i] = 92 THEN StrEnd(s, i+2) ELSE StrEnd(s, i+1)
Unquote(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1] = 92 THEN <<IF s[2] = 110 THEN 10 ELSE IF s[2] = 116 THEN 9 ELSE s[2]>> \o Unquote(SubSeq(s, 3, Len(s)))
  ELSE <<s[1]>> \o Unquote(Tail(s))
TokEnd(s, i) == IF i > Len(s) \/ s[i] \in Blank THEN i ELSE TokEnd(s, i+1)
Toks(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] \in Blank THEN Toks(s, i+1, acc)
  ELSE IF s[i] = 34 THEN LET e == StrEnd(s, i+1) IN Toks(s, e+1, Append(acc, [k |-> "str", v |-> Unquote(SubSeq(s, i+1, e-1))]))
  ELSE LET e == TokEnd(s, i)  w == SubSeq(s, i, e-1)
       IN Toks(s, e, Append(acc, [k |-> IF \A j \in 1..Len(w) : w[j] >= 48 /\ w[j] <= 57 THEN "num" ELSE "id", v |-> w]))
Words(s) == IF HasAt(s, 1, <<47, 42>>) \/ (s # <<>> /\ s[1] \in Blank /\ HasAt(DropL(s), 1, <<47, 42>>)) THEN <<>> ELSE Toks(s, 1, <<>>)

K_define   == <<100,101,102,105,110,101>>
K_template == <<116,101,109,112,108,97,116,101>>
K_end      == <<101,110,100>>
K_if       == <<105,102>>
K_else     == <<101,108,115,101>>
K_eq       == <<101,113>>
K_index    == <<105,110,100,101,120>>
K_list     == <<108,105,115,116>>
K_Type     == <<84,121,112,101>>
K_set      == <<58,61>>
S_lre      == <<46,108,114,101>>

(***************************************************************************)
(* The tree of a template: a sequence of                                    *)
(*   [op "text", s] [op "do", w] [op "if", w, sub, alt] [op "def", w, sub]  *)
(* Tree(ps, i): the nodes from piece i up to the end or else that closes    *)
(* the sequence, and the place of that piece.                               *)
(***************************************************************************)
TNode(op, s, w, sub, alt) == [op |-> op, s |-> s, w |-> w, sub |-> sub, alt |-> alt]
Key(w) == IF w # <<>> /\ w[1].k = "id" THEN w[1].v ELSE <<>>
RECURSIVE Tree(_, _, _)
Tree(ps, i, acc) ==
  IF i > Len(ps) THEN [nodes |-> acc, at |-> i, how |-> <<>>]
  ELSE IF ~ps[i].act THEN Tree(ps, i+1, IF ps[i].s = <<>> THEN acc ELSE Append(acc, TNode("text", ps[i].s, <<>>, <<>>, <<>>)))
  ELSE LET w == Words(ps[i].s)  k == Key(w) IN
    CASE w = <<>> -> Tree(ps, i+1, acc)
      [] k \in {K_end, K_else} -> [nodes |-> acc, at |-> i, how |-> k]
      [] k = K_define -> LET b == Tree(ps, i+1, <<>>) IN
                         Tree(ps, b.at + 1, Append(acc, TNode("def", w[2].v, <<>>, b.nodes, <<>>)))
      [] k = K_if -> LET b == Tree(ps, i+1, <<>>)
                         c == IF b.how = K_else THEN Tree(ps, b.at + 1, <<>>) ELSE [nodes |-> <<>>, at |-> b.at, how |-> <<>>]
                     IN Tree(ps, c.at + 1, Append(acc, TNode("if", <<>>, Tail(w), b.nodes, c.nodes)))
      [] OTHER -> Tree(ps, i+1, Append(acc, TNode("do", <<>>, w, <<>>, <<>>)))

(* All the templates of a set of files [name, text]: name -> nodes          *)
Defs(nodes) == {[name |-> n.s, nodes |-> n.sub] : n \in {nodes[k] : k \in {k \in 1..Len(nodes) : nodes[k].op = "def"}}}
Templates(files) ==
  UNION {LET tr == Tree(Pieces(files[k].text), 1, <<>>).nodes
         IN {[name |-> files[k].name, nodes |-> tr]} \cup Defs(tr) : k \in 1..Len(files)}

(***************************************************************************)
(* Expansion.  Values: [k |-> "str"/"num", v |-> bytes], or [k |-> "list",  *)
(* v |-> values].  The state is [out, typ, vars, bad]; bad: some    *)
(* declared type is no type, or a number is compared with a string.         *)
(***************************************************************************)
VStr(v) == [k |-> "str", v |-> v]
Nil == [k |-> "nil", v |-> <<>>]
Num(w) == FoldLeft(LAMBDA n, d : n * 10 + (d - 48), 0, w)
Atom(x, dot, vars) ==
  IF x.k = "str" THEN VStr(x.v)
  ELSE IF x.k = "num" THEN [k |-> "num", v |-> x.v]
  ELSE IF x.v \in {<<36>>, <<46>>} THEN dot
  ELSE vars[x.v]
Eval(w, dot, vars) ==
  IF Key(w) = K_index THEN Atom(w[2], dot, vars).v[Num(w[3].v) + 1]
  ELSE IF Key(w) = K_list THEN
    [k |-> "list",
     v |-> FoldLeft(LAMBDA a, x : LET y == Atom(x, dot, vars) IN IF y.k = "list" THEN a \o y.v ELSE Append(a, y), <<>>, Tail(w))]
  ELSE Atom(w[1], dot, vars)

RECURSIVE Expand(_, _, _, _)
Expand(tmpl, nodes, dot, s0) ==
  FoldLeft(LAMBDA s, n :
    CASE n.op = "text" -> [s EXCEPT !.out = @ \o n.s]
      [] n.op = "def"  -> s
      [] n.op = "if"   -> LET x == Atom(n.w[2], dot, s.vars)
                              y == Atom(n.w[3], dot, s.vars)
                              r == Expand(tmpl, IF x = y THEN n.sub ELSE n.alt, dot, s)
                          IN IF x.k # y.k THEN [s EXCEPT !.bad = TRUE]    \* incomparable
                             ELSE [r EXCEPT !.vars = s.vars]
      [] n.op = "do" /\ Key(n.w) = K_template ->
           LET arg == IF Len(n.w) = 2 THEN Nil ELSE Eval(SubSeq(n.w, 3, Len(n.w)), dot, s.vars)
               t   == CHOOSE t \in tmpl : t.name = n.w[2].v
               r   == Expand(tmpl, t.nodes, arg, [s EXCEPT !.vars = <<>>])
           IN [r EXCEPT !.vars = s.vars]
      [] n.op = "do" /\ Key(n.w) = K_Type ->
           LET t == ParseType(n.w[2].v) IN IF t = Bad THEN [s EXCEPT !.bad = TRUE] ELSE [s EXCEPT !.typ = t]
      [] n.op = "do" /\ Len(n.w) > 2 /\ n.w[2].v = K_set ->
           LET v == n.w[1].v  e == Eval(SubSeq(n.w, 3, Len(n.w)), dot, s.vars)
           IN [s EXCEPT !.vars = [x \in DOMAIN s.vars \cup {v} |-> IF x = v THEN e ELSE s.vars[x]]]
      [] OTHER -> [s EXCEPT !.out = @ \o Eval(n.w, dot, s.vars).v],
    s0, nodes)
Fresh == [out |-> <<>>, typ |-> Unknown, vars |-> <<>>, bad |-> FALSE]

(***************************************************************************)
(* The order of the list: by name, byte by byte; but names that both begin  *)
(* with BSD-4-Clause, or both with GFDL-, in the opposite order, so that    *)
(* the special cases come before the general ones.                          *)
(***************************************************************************)
P_bsd4 == <<66,83,68,45,52,45,67,108,97,117,115,101>>
P_gfdl == <<71,70,68,76,45>>
RECURSIVE Less(_, _, _)
Less(x, y, k) == IF k > Len(y) THEN FALSE ELSE IF k > Len(x) THEN TRUE
                 ELSE IF x[k] # y[k] THEN x[k] < y[k] ELSE Less(x, y, k+1)
Before(x, y) ==
  IF \/ HasAt(x, 1, P_bsd4) /\ HasAt(y, 1, P_bsd4)
     \/ HasAt(x, 1, P_gfdl) /\ HasAt(y, 1, P_gfdl)
  THEN Less(y, x, 1) ELSE Less(x, y, 1)

(***************************************************************************)
(* The catalog: [id, typ, lre] in order; typ is the last type declared.      *)
(* An error in any license template, a blank one included, spoils the whole *)
(* catalog.                                                                 *)
(***************************************************************************)
IdOf(name) == SubSeq(name, 1, Len(name) - Len(S_lre))
CatalogOf(files) ==
  LET tmpl == Templates(files)
      exp(t) == LET e == Expand(tmpl, t.nodes, Nil, Fresh) IN [id |-> IdOf(t.name), typ |-> e.typ, lre |-> e.out, bad |-> e.bad]
      all == {exp(t) : t \in {t \in tmpl : EndsWith(t.name, S_lre)}}
      ok  == {x \in all : \E k \in 1..Len(x.lre) : x.lre[k] \notin Blank}
      out == SetToSortSeq(ok, LAMBDA x, y : Before(x.id, y.id))
  IN [list |-> [k \in 1..Len(out) |-> [id |-> out[k].id, typ |-> out[k].typ, lre |-> out[k].lre]],
      spoiled |-> \E x \in all : x.bad]
LresOf(files) == CatalogOf(files).list

(* A pattern without its comments.                                          *)
C_o == <<47,47,42,42>>   C_c == <<42,42,47,47>>
RECURSIVE Uncomment(_, _, _, _)
Uncomment(t, opens, from, acc) ==
  LET S == {i \in opens : i >= from} IN
  IF S = {} THEN acc \o SubSeq(t, from, Len(t))
  ELSE LET o == SetMin(S)
           E == {i \in (o+4)..(Len(t)-3) : HasAt(t, i, C_c)}
       IN IF E = {} THEN acc \o SubSeq(t, from, Len(t))
          ELSE Uncomment(t, S \ {o}, SetMin(E) + 4, acc \o SubSeq(t, from, o-1))
Bare(t) == Uncomment(t, {i \in 1..(Len(t)-3) : t[i] = 47 /\ HasAt(t, i, C_o)}, 1, <<>>)
SamePattern(x, y) == x = y \/ Bare(x) = Bare(y)

(***************************************************************************)
(* The whole list: the patterns, then the URLs, each with the type of the   *)
(* pattern of the same ID (no two patterns have the same ID).               *)
(***************************************************************************)
TypeOfId(lres, id) ==
  LET S == {k \in 1..Len(lres) : lres[k].id = id} IN
  IF S = {} THEN Unknown ELSE lres[CHOOSE k \in S : TRUE].typ
=============================================================================
