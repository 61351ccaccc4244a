--------------------------------- MODULE MCText ---------------------------------
(***************************************************************************)
(* P07 on the specification.  A writer writes words, each in one of its     *)
(* spellings, and separators: blanks, punctuation and markup.  Whatever it  *)
(* does, the reader (Split) gets the words that were meant, in order, at    *)
(* the places where they were written.                                      *)
(*   MODEL: pieces [t, w]: the bytes t stand for the words w; seps: bytes   *)
(***************************************************************************)
EXTENDS Text, Json, IOUtils, TLC
CONSTANT N
ASSUME TLCSet(11, JsonDeserialize(IOEnv.MODEL))
ASSUME TLCSet(12, LET l == JsonDeserialize(IOEnv.UTAB) IN
      [r \in {l[k][1] : k \in 1..Len(l)} |->
         LET k == CHOOSE j \in 1..Len(l) : l[j][1] = r IN
         [start |-> l[k][2] = 1, cont |-> l[k][3] = 1, fold |-> l[k][4]]])
TxU(r) == LET u == TLCGet(12) IN IF r \in DOMAIN u THEN u[r] ELSE [start |-> FALSE, cont |-> FALSE, fold |-> r]
Pieces == JsonDeserialize(IOEnv.MODEL).pieces
Seps == JsonDeserialize(IOEnv.MODEL).seps

VARIABLES t, meant, n
Init == t = <<>> /\ meant = <<>> /\ n = 0
(* consecutive copyright marks count once *)
Mean(ws, x) == FoldLeft(LAMBDA a, w : IF w = W_copyright /\ a # <<>> /\ a[Len(a)].w = W_copyright THEN a ELSE Append(a, [w |-> w, lo |-> Len(t), hi |-> Len(t) + Len(x.t)]),
                        ws, x.w)
WriteWord == \E x \in {Pieces[k] : k \in 1..Len(Pieces)} : \E s \in {Seps[k] : k \in 1..Len(Seps)} :
               t' = t \o x.t \o s /\ meant' = Mean(meant, x)
WriteSep  == \E s \in {Seps[k] : k \in 1..Len(Seps)} : t' = t \o s /\ meant' = meant
Next == n < N /\ n' = n + 1 /\ (WriteWord \/ WriteSep)
Spec == Init /\ [][Next]_<<t, meant, n>>

Got == Split(t)
Understood == LET g == Got IN
  /\ [k \in 1..Len(g) |-> g[k].w] = [k \in 1..Len(meant) |-> meant[k].w]
  /\ \A k \in 1..Len(g) : /\ meant[k].lo <= g[k].lo /\ g[k].lo < g[k].hi /\ g[k].hi <= meant[k].hi
                          /\ k > 1 => g[k-1].hi <= g[k].lo
(* The normal forms, written down, mean the same words.                     *)
Stable == LET g == Got
              u == FoldLeft(LAMBDA a, x : a \o x.w \o <<32>>, <<>>, g)
              h == Split(u)
          IN [k \in 1..Len(h) |-> h[k].w] = [k \in 1..Len(g) |-> g[k].w]
=============================================================================
