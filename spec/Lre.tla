--------------------------------- MODULE Lre ---------------------------------
(***************************************************************************)
(* License regular expressions: which byte strings are patterns, and the    *)
(* syntax tree each pattern denotes.  The parser is a state machine whose   *)
(* steps are the operators of the pattern, from left to right.              *)
(*                                                                          *)
(* A tree node is [op, sub, w, n]:                                          *)
(*   "empty"          the empty text                                        *)
(*   "words"  w       the words w, in order                                 *)
(*   "wild"   n       up to n arbitrary words                               *)
(*   "cat"    sub     concatenation                                         *)
(*   "alt"    sub     alternation                                           *)
(*   "quest"  sub     optional sub[1]                                       *)
(***************************************************************************)
EXTENDS Text

Node(op, sub, w, n) == [op |-> op, sub |-> sub, w |-> w, n |-> n]
EmptyN      == Node("empty", <<>>, <<>>, 0)
WordsN(w)   == Node("words", <<>>, w, 0)
WildN(n)    == Node("wild", <<>>, <<>>, n)
QuestN(x)   == Node("quest", <<x>>, <<>>, 0)

(* Groups of one element are the element; nested concatenations and nested  *)
(* alternations are flattened.                                              *)
Collapse(op, xs) ==
  IF Len(xs) = 1 THEN xs[1]
  ELSE Node(op, FoldLeft(LAMBDA acc, x : IF x.op = op THEN acc \o x.sub ELSE Append(acc, x), <<>>, xs),
            <<>>, 0)
Concat(xs) == IF xs = <<>> THEN EmptyN ELSE Collapse("cat", xs)

(***************************************************************************)
(* Layout rules.                                                            *)
(***************************************************************************)
RECURSIVE BackOverBlank(_, _)
BackOverBlank(s, i) == IF i > 1 /\ s[i-1] \in {32, 9} THEN BackOverBlank(s, i-1) ELSE i
OverBlank(s, i, B) == Past(s, i, LAMBDA b : b \in B)

AtLineStart(s, i) == LET j == BackOverBlank(s, i) IN j = 1 \/ s[j-1] = 10
\* )) may be followed by blanks and then a line end, the pattern end, or ??
CloseOk(s, i) == LET j == OverBlank(s, i+2, {32, 9}) IN
                 j > Len(s) \/ s[j] = 10 \/ (At(s, j, 63) /\ At(s, j+1, 63))
\* ?? must follow )) directly (blanks allowed) and end the line
QuestOk(s, i) == LET j == BackOverBlank(s, i)
                     k == OverBlank(s, i+2, {32, 9, 13})
                 IN /\ j > 2 /\ s[j-1] = 41 /\ s[j-2] = 41
                    /\ (k > Len(s) \/ s[k] = 10)

(***************************************************************************)
(* Wildcards: __digits__                                                    *)
(***************************************************************************)
WildEnd(s, i) == LET k == Past(s, i+2, IsDigitB) IN
                 IF k > i+2 /\ At(s, k, 95) /\ At(s, k+1, 95) THEN k + 2 ELSE 0
Dec(s, lo, hi) ==   \* value of the digits s[lo..hi]; -1 if 2^31 or more
  FoldLeft(LAMBDA v, k : IF v < 0 \/ v > 214748364 \/ (v = 214748364 /\ s[k] > 55) THEN -1
                         ELSE v * 10 + (s[k] - 48),
           0, [k \in 1..(hi-lo+1) |-> lo+k-1])

FindStr(s, i, p) == LET S == {k \in i..(Len(s) - Len(p) + 1) : s[k] = p[1] /\ HasPrefix(s, k, p)} IN
                    IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
O_open  == <<40,40>>    O_bar == <<124,124>>  O_close == <<41,41>>
O_quest == <<63,63>>    O_com == <<47,47,42,42>>  O_moc == <<42,42,47,47>>

(***************************************************************************)
(* The parser state.                                                        *)
(*   pos    next byte to look at                                            *)
(*   start  start of the literal text not yet split into words              *)
(*   stack  open groups, innermost last; each [alts, cur]: the completed    *)
(*          alternatives and the elements of the current one                *)
(*   words  every word seen, in order (with repetitions)                    *)
(*   err    the pattern is malformed                                        *)
(***************************************************************************)
Frame == [alts |-> <<>>, cur |-> <<>>]
ParseInit == [pos |-> 1, start |-> 1, stack |-> <<Frame>>, words |-> <<>>, err |-> FALSE]
Top(p) == p.stack[Len(p.stack)]
SetTop(p, f) == [p EXCEPT !.stack[Len(p.stack)] = f]
Push(p, x) == SetTop(p, [Top(p) EXCEPT !.cur = Append(@, x)])

(* The literal text before the operator joins the preceding words, if any.  *)
Flush(s, p) ==
  LET ws == Split(SubSeq(s, p.start, p.pos - 1))
      w  == [k \in 1..Len(ws) |-> ws[k].w]
      c  == Top(p).cur
      q  == [p EXCEPT !.words = @ \o w]
  IN IF w = <<>> THEN p
     ELSE IF c # <<>> /\ c[Len(c)].op = "words"
     THEN SetTop(q, [Top(p) EXCEPT !.cur[Len(c)].w = @ \o w])
     ELSE Push(q, WordsN(w))

Advance(p, to) == [p EXCEPT !.pos = to, !.start = to]
Fail(p) == [p EXCEPT !.err = TRUE]

EndAlt(p) == LET f == Top(p) IN SetTop(p, [alts |-> Append(f.alts, Concat(f.cur)), cur |-> <<>>])
GroupNode(p) == Collapse("alt", EndAlt(p).stack[Len(p.stack)].alts)

Open(s, p)  == IF ~AtLineStart(s, p.pos) THEN Fail(p)
               ELSE LET q == Flush(s, p) IN
                    Advance([q EXCEPT !.stack = Append(@, Frame)], p.pos + 2)
Bar(s, p)   == IF Len(p.stack) = 1 THEN Fail(p)
               ELSE Advance(EndAlt(Flush(s, p)), p.pos + 2)
Close(s, p) == IF ~CloseOk(s, p.pos) \/ Len(p.stack) = 1 THEN Fail(p)
               ELSE LET q == Flush(s, p)
                        g == GroupNode(q)
                    IN Advance(Push([q EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)], g), p.pos + 2)
Quest(s, p) == IF ~QuestOk(s, p.pos) THEN Fail(p)
               ELSE LET q == Flush(s, p)
                        c == Top(q).cur
                        x == c[Len(c)]
                    IN IF c = <<>> THEN Fail(p)
                       ELSE Advance(IF x.op = "quest" THEN q
                                    ELSE SetTop(q, [Top(q) EXCEPT !.cur[Len(c)] = QuestN(x)]), p.pos + 2)
Wild(s, p)  == LET e == WildEnd(s, p.pos)
                   n == Dec(s, p.pos + 2, e - 3)
               IN IF n < 0 THEN Fail(p) ELSE Advance(Push(Flush(s, p), WildN(n)), e)
Comment(s, p) == LET e == FindStr(s, p.pos + 4, O_moc) IN
                 IF e = 0 THEN Fail(p) ELSE Advance(Flush(s, p), e + 4)

ParseStep(s, p) ==
  CASE HasPrefix(s, p.pos, O_open)  -> Open(s, p)
    [] HasPrefix(s, p.pos, O_bar)   -> Bar(s, p)
    [] HasPrefix(s, p.pos, O_close) -> Close(s, p)
    [] HasPrefix(s, p.pos, O_quest) -> Quest(s, p)
    [] HasPrefix(s, p.pos, <<95,95>>) /\ WildEnd(s, p.pos) > 0 -> Wild(s, p)
    [] HasPrefix(s, p.pos, O_com)   -> Comment(s, p)
    [] OTHER -> [p EXCEPT !.pos = @ + 1]

(* Only these bytes can begin an operator. *)
OpBytes == {40, 124, 41, 63, 95, 47}

Parse(s) ==     \* [err, ast, words]
  LET cand == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] \in OpBytes)
      run  == FoldLeft(LAMBDA p, i : IF p.err \/ p.pos > i THEN p ELSE ParseStep(s, [p EXCEPT !.pos = i]),
                       ParseInit, cand)
      last == Flush(s, [run EXCEPT !.pos = Len(s) + 1])
  IN IF run.err \/ Len(run.stack) # 1
     THEN [err |-> TRUE, ast |-> EmptyN, words |-> run.words]
     ELSE [err |-> FALSE, ast |-> Concat(Top(last).cur), words |-> last.words]
=============================================================================
