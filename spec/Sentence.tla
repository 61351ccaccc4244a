-------------------------------- MODULE Sentence --------------------------------
(***************************************************************************)
(* Sentences of a syntax tree: word sequences made by choosing, from left    *)
(* to right, a branch of each alternation, whether to take each option, and  *)
(* how many words to put for each wildcard.  The choices are those of a      *)
(* strategy (mode) with a seed, so that a sentence can be named by numbers:  *)
(*   "min"   no option, no wildcard word, the first alternatives             *)
(*   "max"   every option, full wildcards, the last alternatives             *)
(*   "turn"  each choice in turn: over successive seeds every branch of      *)
(*           every alternation is taken, every option both ways              *)
(*   "any"   arbitrary choices                                               *)
(***************************************************************************)
EXTENDS Lre

Hash(seed, n) == LET a == (seed % 8191) * 131 + (n % 32749) * 173 + 17
                     b == ((a % 32749) * 5851 + 1013) % 32749
                 IN ((b * 3907 + 7) % 32749)
PickOf(mode, seed, n, k) ==      \* one of 0..k-1
  CASE mode = "min" -> 0
    [] mode = "max" -> k - 1
    [] mode = "turn" -> (seed + n) % k
    [] OTHER -> Hash(seed, n) % k

RECURSIVE Say(_, _, _, _, _)
(* s = [n, w]: the number of choices made and the words so far              *)
Say(mode, seed, fill, x, s) ==
  CASE x.op = "words" -> [s EXCEPT !.w = @ \o x.w]
    [] x.op = "cat"   -> FoldLeft(LAMBDA a, y : Say(mode, seed, fill, y, a), s, x.sub)
    [] x.op = "alt"   -> Say(mode, seed, fill, x.sub[1 + PickOf(mode, seed, s.n, Len(x.sub))], [s EXCEPT !.n = @ + 1])
    [] x.op = "quest" -> IF PickOf(mode, seed, s.n, 2) = 1
                         THEN Say(mode, seed, fill, x.sub[1], [s EXCEPT !.n = @ + 1])
                         ELSE [s EXCEPT !.n = @ + 1]
    [] x.op = "wild"  -> LET c == PickOf(mode, seed, s.n, x.n + 1)
                         IN [n |-> s.n + 1, w |-> s.w \o [j \in 1..c |-> fill]]
    [] OTHER -> s
SentenceOf(mode, seed, fill, x) == Say(mode, seed, fill, x, [n |-> 0, w |-> <<>>]).w
(* No text has two copyright words in a row.                                *)
Sayable(w) == \A k \in 1..(Len(w)-1) : ~(w[k] = W_copyright /\ w[k+1] = W_copyright)
=============================================================================
