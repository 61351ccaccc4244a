-------------------------------- MODULE MCScan --------------------------------
(***************************************************************************)
(* Bounded instances of ScanMachine: the license sets and the letters of    *)
(* the texts come from a JSON file, the texts are all sequences of at most  *)
(* n symbols (a symbol is a piece of text).                                 *)
(***************************************************************************)
EXTENDS ScanMachine, Json, IOUtils
(* TLC's registers hold what is to be computed only once.                   *)
ASSUME TLCSet(11, JsonDeserialize(IOEnv.MODEL))
ASSUME TLCSet(12, LET l == JsonDeserialize(IOEnv.UTAB) IN
      [r \in {l[k][1] : k \in 1..Len(l)} |->
         LET k == CHOOSE j \in 1..Len(l) : l[j][1] = r IN
         [start |-> l[k][2] = 1, cont |-> l[k][3] = 1, fold |-> l[k][4]]])
Model == TLCGet(11)
MCU(r) == LET u == TLCGet(12) IN IF r \in DOMAIN u THEN u[r] ELSE [start |-> FALSE, cont |-> FALSE, fold |-> r]
ASSUME TLCSet(13, [s \in 1..Len(Model.sets) |-> KitOf(Model.sets[s])])
ASSUME TLCSet(14, [s \in 1..Len(Model.sets) |->
          [l \in 1..Len(Model.sets[s]) |-> Parse(Model.sets[s][l].lre).ast]])
MCNSets == Len(JsonDeserialize(IOEnv.MODEL).sets)
MCLics(s) == TLCGet(11).sets[s]
MCKit(s)  == TLCGet(13)[s]
MCAsts(s) == TLCGet(14)[s]
Flat(x) == FoldLeft(LAMBDA a, b : a \o b, <<>>, x)
MCTexts == LET M == JsonDeserialize(IOEnv.MODEL)
               Symbols == {M.symbols[k] : k \in 1..Len(M.symbols)}
           IN {M.prefix \o Flat(x) \o M.suffix : x \in UNION {[1..n -> Symbols] : n \in 0..M.n}}
=============================================================================
