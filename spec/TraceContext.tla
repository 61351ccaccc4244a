------------------------------ MODULE TraceContext ------------------------------
(* Documents scanned by the real code, against Context.  Trace file:         *)
(*   docs   [letters, lres, skip, pieces, panic, pm, m]: with patterns lres (to find letters *)
(*          and skip from), or, if lres is empty, with the given ones         *)
EXTENDS Context, Json, IOUtils
ASSUME TLCSet(11, JsonDeserialize(IOEnv.TRACE))
Docs == TLCGet(11).docs
ASSUME TLCSet(12, LET l == JsonDeserialize(IOEnv.UTAB) IN
      [r \in {l[k][1] : k \in 1..Len(l)} |->
         LET k == CHOOSE j \in 1..Len(l) : l[j][1] = r IN
         [start |-> l[k][2] = 1, cont |-> l[k][3] = 1, fold |-> l[k][4]]])
UT(r) == LET u == TLCGet(12) IN IF r \in DOMAIN u THEN u[r] ELSE [start |-> FALSE, cont |-> FALSE, fold |-> r]

VARIABLE i
LettersOf(lres) == UNION {UNION {Letters(w) : w \in {p.words[k] : k \in 1..Len(p.words)}} : p \in {Parse(lres[l]) : l \in 1..Len(lres)}}
MaxSkip(lres) == LET S == {Skips(Parse(lres[l]).ast) : l \in 1..Len(lres)} IN MaxOf(S \cup {0})
Check(k) ==
  LET d == Docs[k]
      given == d.lres = <<>>
      letters == IF given THEN {d.letters[n] : n \in 1..Len(d.letters)} ELSE LettersOf(d.lres)
      skip == IF given THEN d.skip ELSE MaxSkip(d.lres)
  IN IF ~Applies(letters, skip, d.pieces) \/ (\E l \in 1..Len(d.lres) : WildLast(Parse(d.lres[l]).ast))
     THEN PrintT(<<"OUTSIDE", k>>)
     ELSE IF ~d.panic /\ PutTogether(d.pieces, d) THEN TRUE
     ELSE PrintT(<<"MISMATCH", "P18", "case", k, <<"pieces", [j \in 1..Len(d.pieces) |-> <<d.pieces[j].kind, Bytes(d.pieces[j]), NWords(d.pieces[j])>>]>>>>)
Init == i = 1
Next == i <= Len(Docs) /\ TRUE = Check(i) /\ i' = i + 1
=============================================================================
