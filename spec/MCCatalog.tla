-------------------------------- MODULE MCCatalog --------------------------------
(***************************************************************************)
(* The catalog as a state machine: files are added to the directory one by  *)
(* one, in any order, from a small stock.  The order of the list is a total *)
(* order in which special cases come first, and the list depends only on    *)
(* which files there are.                                                   *)
(***************************************************************************)
EXTENDS Catalog, TLC

CONSTANT Depth
(* Names over the pieces whose order matters.                               *)
Pieces0 == {<<>>, <<45>>, <<45, 65>>, <<48>>, <<97>>}
Names == {p \o q : p \in {P_bsd4, P_gfdl, SubSeq(P_bsd4, 1, 5), SubSeq(P_gfdl, 1, 4), <<65>>, <<97>>, <<71>>, <<72>>}, q \in Pieces0}
S(x) == x \o S_lre

A(x) == <<123,123>> \o x \o <<125,125>>            \* {{x}}
Q(x) == <<34>> \o x \o <<34>>                      \* "x"
Sp == <<32>>
Tx(n) == <<109, 97, 121, 32, 96 + n>>              \* may a, may b, ...
File(n, t) == [name |-> n, text |-> t]
(* The stock: plain, typed, blank, a library of definitions, users of it.   *)
Bsd == P_bsd4                       BsdUC == P_bsd4 \o <<45,85,67>>
Gf  == P_gfdl \o <<49>>             GfI == P_gfdl \o <<49,45,105>>
Lib == <<76>>
Stock == {
  File(S(Bsd), Tx(1)),
  File(S(BsdUC), A(K_Type \o Sp \o Q(N_Notice)) \o Tx(2)),
  File(S(Gf), A(<<47,42,32,120,32,42,47>>) \o Tx(3)),
  File(S(GfI), Tx(4) \o A(K_define \o Sp \o Q(S(<<90>>))) \o Tx(5) \o A(K_Type \o Sp \o Q(N_Discouraged)) \o A(K_end)),
  File(S(<<98>>), <<10, 32>>),
  File(S(<<65>>), A(K_if \o Sp \o K_eq \o Sp \o Q(<<120>>) \o Sp \o Q(<<121>>)) \o Tx(6) \o A(K_else) \o Tx(7) \o A(K_end)),
  File(S(Lib), A(K_define \o Sp \o Q(<<112>>)) \o Tx(8) \o A(<<36,118,32>> \o K_set \o Sp \o K_index \o <<32,36,32,49>>) \o A(<<36,118>>) \o A(K_end)
               \o A(K_template \o Sp \o Q(<<112>>) \o Sp \o K_list \o <<32,55,32>> \o Q(<<113>>))) }

VARIABLES dir, n
Files == SetToSortSeq(dir, LAMBDA x, y : Less(x.name, y.name, 1))
Init == dir = {} /\ n = 0
Next == \E f \in Stock \ dir : dir' = dir \cup {f} /\ n' = n + 1
Spec == Init /\ [][Next]_<<dir, n>>
Shallow == n <= Depth + 2

NameOk == n = 0   \* the order is checked once
Total == NameOk => \A x, y \in Names : (Before(x, y) \/ Before(y, x) \/ x = y) /\ ~(Before(x, y) /\ Before(y, x)) /\ ~Before(x, x)
Transitive == NameOk => \A x, y \in Names : Before(x, y) => \A z \in Names : Before(y, z) => Before(x, z)
Ext(x, y) == Len(y) > Len(x) /\ HasAt(y, 1, x)
SpecialFirst == NameOk => \A x, y \in Names : Ext(x, y) =>
                  (Before(y, x) <=> HasAt(x, 1, P_bsd4) \/ HasAt(x, 1, P_gfdl))

L == LresOf(Files)
Sorted == \A j \in 1..(Len(L)-1) : Before(L[j].id, L[j+1].id)
(* Each non-blank file is there once, with its own text and type, whatever  *)
(* the other files are.                                                     *)
Entries(l) == {l[k] : k \in 1..Len(l)}
Stable == LET one(f) == Entries(LresOf(<<f>>)) IN
          Entries(L) = UNION {one(f) : f \in dir} /\ Len(L) = Cardinality(Entries(L))
Inherits == \A k \in 1..Len(L) : TypeOfId(L, L[k].id) = L[k].typ
=============================================================================
