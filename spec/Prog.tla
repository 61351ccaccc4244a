-------------------------------- MODULE Prog --------------------------------
(***************************************************************************)
(* From syntax trees to matching programs.  A program is a sequence of      *)
(* instructions [op, w, a, b]:                                              *)
(*   "w"    consume the word w            "any"  consume any one word       *)
(*   "alt"  continue here or at a         "jmp"  continue at a              *)
(*   "mat"  the pattern number a is complete                                *)
(*   "cut"  abandon every attempt located in a..b (a wildcard and the       *)
(*          instruction right after it): the wildcard is over               *)
(***************************************************************************)
EXTENDS Lre

I(op, w, a, b) == [op |-> op, w |-> w, a |-> a, b |-> b]
IWord(w)   == I("w", w, 0, 0)
IAny       == I("any", <<>>, 0, 0)
IAlt(a)    == I("alt", <<>>, a, 0)
IJmp(a)    == I("jmp", <<>>, a, 0)
IMat(a)    == I("mat", <<>>, a, 0)
ICut(a, b) == I("cut", <<>>, a, b)

CutAfter == 3    \* literal words after a wildcard before it is cut off

RECURSIVE Nullable(_)
Nullable(x) ==
  CASE x.op = "alt" -> \E k \in 1..Len(x.sub) : Nullable(x.sub[k])
    [] x.op = "cat" -> \A k \in 1..Len(x.sub) : Nullable(x.sub[k])
    [] x.op = "words" -> x.w = <<>>
    [] OTHER -> TRUE

(***************************************************************************)
(* Compilation state: the program so far, the pending cuts (a sequence of   *)
(* [a, b, t]: cut off a..b after t more literal words), whether this is     *)
(* the end of the pattern, and whether the pattern is unusable.             *)
(***************************************************************************)
Emit(c, i) == [c EXCEPT !.prog = Append(@, i)]
EmitCuts(c) == [c EXCEPT !.prog = @ \o [k \in 1..Len(c.cut) |-> ICut(c.cut[k].a, c.cut[k].b)], !.cut = <<>>]

OneWord(c, w) ==
  LET d   == Emit(c, IWord(w))
      dec == [k \in 1..Len(d.cut) |-> [d.cut[k] EXCEPT !.t = @ - 1]]
      now == SelectSeq(dec, LAMBDA u : u.t = 0)
      rst == SelectSeq(dec, LAMBDA u : u.t # 0)
  IN [EmitCuts([d EXCEPT !.cut = now]) EXCEPT !.cut = rst]

(* Pending cuts of two branches: keep the later trigger of each wildcard.   *)
MergeCuts(x, y) ==
  IF x = <<>> THEN y ELSE IF y = <<>> THEN x
  ELSE LET all == {x[k] : k \in 1..Len(x)} \cup {y[k] : k \in 1..Len(y)}
           best == {u \in all : \A v \in all : v.a = u.a => v.t <= u.t}
       IN SetToSortSeq(best, LAMBDA u, v : u.a < v.a)

RECURSIVE Comp(_, _)
Comp(c, x) ==
  CASE x.op = "empty" -> c
    [] x.op = "words" ->
         LET d == FoldLeft(OneWord, c, x.w) IN IF d.endp THEN EmitCuts(d) ELSE d
    [] x.op = "cat" ->
         LET n   == Len(x.sub)
             e   == IF c.endp   \* the trailing elements that may be absent
                    THEN CHOOSE k \in 0..n : /\ \A j \in (k+1)..n : Nullable(x.sub[j])
                                             /\ (k > 0 => ~Nullable(x.sub[k]))
                    ELSE n
         IN FoldLeft(LAMBDA d, k : Comp([d EXCEPT !.endp = k > e], x.sub[k]), c, [k \in 1..n |-> k])
    [] x.op = "quest" ->
         LET at == Len(c.prog) + 1
             d  == Comp(Emit(c, IAlt(0)), x.sub[1])
             f  == IF c.endp THEN EmitCuts(d) ELSE d
         IN [f EXCEPT !.cut = MergeCuts(c.cut, f.cut), !.prog[at].a = Len(f.prog) + 1]
    [] x.op = "alt" ->
         LET n == Len(x.sub)
             step(s, k) ==   \* s = [c, new, jumps]
               LET at == Len(s.c.prog) + 1
                   c1 == IF k < n THEN Emit(s.c, IAlt(0)) ELSE s.c
                   c2 == Comp([c1 EXCEPT !.cut = c.cut, !.endp = c.endp], x.sub[k])
                   c3 == IF k < n THEN Emit([c2 EXCEPT !.prog[at].a = Len(c2.prog) + 2], IJmp(0)) ELSE c2
               IN [c |-> c3, new |-> MergeCuts(s.new, c2.cut),
                   jumps |-> IF k < n THEN s.jumps \cup {Len(c3.prog)} ELSE s.jumps]
             r == FoldLeft(step, [c |-> c, new |-> <<>>, jumps |-> {}], [k \in 1..n |-> k])
         IN [r.c EXCEPT !.cut = r.new,
                        !.prog = [j \in 1..Len(r.c.prog) |->
                                    IF j \in r.jumps THEN IJmp(Len(r.c.prog) + 1) ELSE r.c.prog[j]]]
    [] x.op = "wild" ->
         LET d  == EmitCuts(c)
             at == Len(d.prog) + 1
             en == Len(d.prog) + 2 * x.n + 1
         IN [d EXCEPT !.err = @ \/ d.endp,
                      !.prog = @ \o [k \in 1..(2 * x.n) |-> IF k % 2 = 1 THEN IAlt(en) ELSE IAny],
                      !.cut = IF x.n > 3 THEN <<[a |-> at, b |-> en, t |-> CutAfter]>> ELSE <<>>]
    [] OTHER -> c

(* The program of pattern number m, appended to the program p.              *)
CompileOnto(p, x, m) ==     \* [err, prog]
  LET d == EmitCuts(Comp([prog |-> p, cut |-> <<>>, endp |-> TRUE, err |-> FALSE], x))
  IN [err |-> d.err, prog |-> Append(d.prog, IMat(m))]

(***************************************************************************)
(* The first two words of a pattern's texts, as pairs of                    *)
(*   <<"w", word>>, <<"any">> (any word) and <<"none">> (no such word).     *)
(***************************************************************************)
PW(w) == [k |-> "w", w |-> w]
PAny  == [k |-> "any", w |-> <<>>]
PNone == [k |-> "none", w |-> <<>>]

RECURSIVE Phrases(_)
Phrases(x) ==
  CASE x.op = "wild"  -> {<<PNone, PNone>>, <<PAny, PNone>>, <<PAny, PAny>>}
    [] x.op = "empty" -> {<<PNone, PNone>>}
    [] x.op = "words" -> {<<PW(x.w[1]), IF Len(x.w) > 1 THEN PW(x.w[2]) ELSE PNone>>}
    [] x.op = "quest" -> Phrases(x.sub[1]) \cup {<<PNone, PNone>>}
    [] x.op = "alt"   -> UNION {Phrases(x.sub[k]) : k \in 1..Len(x.sub)}
    [] x.op = "cat"   ->
         FoldLeft(LAMBDA xs, y :
           IF \A p \in xs : p[2] # PNone THEN xs
           ELSE {p \in xs : p[2] # PNone} \cup
                UNION {{IF p[1] = PNone THEN q ELSE <<p[1], q[1]>> : q \in Phrases(y)} :
                       p \in {p \in xs : p[2] = PNone}},
           {<<PNone, PNone>>}, x.sub)
    [] OTHER -> {}

(* A pattern can be searched for only if all its texts begin with two       *)
(* definite words.                                                          *)
Searchable(x) == \A p \in Phrases(x) : p[1].k = "w" /\ p[2].k = "w"
=============================================================================
