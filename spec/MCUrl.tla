--------------------------------- MODULE MCUrl ---------------------------------
(***************************************************************************)
(* P06 on the specification: after the letters of h-t-t-p a text grows      *)
(* symbol by symbol; the URL found is the longest beginning of the text     *)
(* that is a URL by definition, and every way of writing a listed URL is    *)
(* looked up alike.                                                         *)
(***************************************************************************)
EXTENDS Report
CONSTANT N
UrU(r) == [start |-> FALSE, cont |-> FALSE, fold |-> r]
Symbols == {<<115>>, <<58,47,47>>, <<65>>, <<46,79,114,103>>, <<46,99,111,109>>, <<47>>, <<63>>, <<46>>, <<44>>, <<197,191>>}
Heads == {<<104,116,116,112>>, <<72,84,84,112,58,47,47>>, <<104,116,116,112,58,47,47,97,46,111,114,103,47,98>>}
VARIABLES t, n
Init == t \in Heads /\ n = 0
Next == n < N /\ n' = n + 1 /\ \E s \in Symbols : t' = t \o s
Spec == Init /\ [][Next]_<<t, n>>

(* A URL by definition: scheme://host/element/.../element[/]                *)
Chars(u, extra) == FoldLeft(LAMBDA k, j : IF k # j THEN k ELSE IF UrlByte(u[j], extra) THEN k + 1 ELSE k + UrlRune(u, j),
                            1, [j \in 1..Len(u) |-> j]) = Len(u) + 1
Ends(u, p) == Len(u) > Len(p) /\ LowerSeq(SubSeq(u, Len(u) - Len(p) + 1, Len(u))) = p
IsHost(u) == Chars(u, {}) /\ (Ends(u, <<46,111,114,103>>) \/ Ends(u, <<46,99,111,109>>))
Slashes(u) == {k \in 1..Len(u) : u[k] = 47}
(* /e1/e2...[/] with no empty element                                       *)
IsPath(u) == LET v == IF u # <<>> /\ u[Len(u)] = 47 THEN SubSeq(u, 1, Len(u) - 1) ELSE u IN
             /\ v # <<>> /\ v[1] = 47
             /\ \A k \in Slashes(v) : k < Len(v) /\ v[k+1] # 47
             /\ Chars(SelectSeq(v, LAMBDA b : b # 47), PathExtra)
LowS(u) == IF Len(u) >= 6 /\ u[5] = 197 /\ u[6] = 191 THEN SubSeq(u, 1, 4) \o <<115>> \o SubSeq(u, 7, Len(u)) ELSE u
IsUrl(u) == \E v \in {LowS(u)} : \E p \in {B_http, B_https} :
              /\ Len(v) > Len(p) /\ LowerSeq(SubSeq(v, 1, Len(p))) = p
              /\ LET r == SubSeq(v, Len(p) + 1, Len(v)) IN
                 Slashes(r) # {} /\ LET k == MinOf(Slashes(r)) IN IsHost(SubSeq(r, 1, k-1)) /\ IsPath(SubSeq(r, k, Len(r)))
Longest == LET S == {k \in 1..Len(t) : IsUrl(SubSeq(t, 1, k))} IN
           UrlEnd(t, 1) = IF S = {} THEN 0 ELSE 1 + CHOOSE k \in S : \A j \in S : j <= k

(* Every writing of a listed URL, and of anything one element below it.     *)
Plain == <<97,46,111,114,103,47,98,46,115>>       \* a.org/b.s
Lics == <<[id |-> <<65>>, type |-> 1, lre |-> <<>>, url |-> Plain]>>
Up(u) == [k \in 1..Len(u) |-> IF u[k] >= 97 /\ u[k] <= 122 THEN u[k] - 32 ELSE u[k]]
Writings(u) == LET S == {p \o u \o q : p \in {<<>>, B_http, B_https}, q \in {<<>>, <<47>>, B_legalcode, B_legalcode \o <<47>>}}
               IN S \cup {Up(v) : v \in S}
AllAlike == \A v \in Writings(Plain) \cup Writings(Plain \o <<47,118>>) : UrlLicense(Lics, v) = 1
NotBelow == \A v \in Writings(Plain \o <<47,118,47,118>>) \cup Writings(Plain \o <<120>>) : UrlLicense(Lics, v) = 0
ASSUME AllAlike /\ NotBelow
=============================================================================
