------------------------------ MODULE TraceBuiltin ------------------------------
(***************************************************************************)
(* Scans with the built-in license set recorded from the real code:         *)
(*   lics   the list BuiltinLicenses(): [id, type, lre, url], with a stand- *)
(*          in <<0>> for the text of each pattern                           *)
(*   cases  [text, panic, pm, m, n]: n is the license of which the text is a   *)
(*          sentence (0: none)                                              *)
(* IN names the files of BuiltinParse, one for each pattern.                *)
(***************************************************************************)
EXTENDS Builtin, Json, IOUtils

CONSTANTS Lanes, Props
ASSUME TLCSet(11, JsonDeserialize(IOEnv.TRACE))
Lics  == TLCGet(11).lics
Cases == TLCGet(11).cases
ASSUME TLCSet(12, LET l == JsonDeserialize(IOEnv.UTAB) IN
      [r \in {l[k][1] : k \in 1..Len(l)} |->
         LET k == CHOOSE j \in 1..Len(l) : l[j][1] = r IN
         [start |-> l[k][2] = 1, cont |-> l[k][3] = 1, fold |-> l[k][4]]])
UT(r) == LET u == TLCGet(12) IN IF r \in DOMAIN u THEN u[r] ELSE [start |-> FALSE, cont |-> FALSE, fold |-> r]

ASSUME TLCSet(13, TLCEval([k \in 1..Cardinality({j \in 1..Len(Lics) : Lics[j].lre # <<>>}) |->
                     LET f == JsonDeserialize(IOEnv.IN \o ToString(k) \o ".json")
                     IN [ast |-> f.ast, words |-> f.words,
                         wordset |-> TLCEval({f.words[n] : n \in 1..Len(f.words)}),
                         phrases |-> TLCEval({<<f.phrases[n][1], f.phrases[n][2]>> : n \in 1..Len(f.phrases)})]]))
Pat(k) == TLCGet(13)[k]
MCNPat(z) == Len(TLCGet(13))
ASSUME TLCSet(14, UNION {Pat(k).phrases : k \in 1..MCNPat(0)})
MCAllPhrases(z) == TLCGet(14)
MCPhrasesOf(k) == Pat(k).phrases
MCWordsOf(k) == Pat(k).words
MCWordSetOf(k) == Pat(k).wordset
(* Programs are made when first needed, and kept.                           *)
ASSUME \A k \in 1..MCNPat(0) : TLCSet(1000 + k, <<>>)
MCProgOf(k) == IF TLCGet(1000 + k) # <<>> THEN TLCGet(1000 + k)
               ELSE LET p == CompileOnto(<<>>, Pat(k).ast, k).prog IN IF TLCSet(1000 + k, p) THEN p ELSE p

VARIABLES lane, i

(* P16: the text is one match of license n, all of it, and no license       *)
(* listed earlier means the same text.                                      *)
Itself(c) == /\ Len(c.m) = 1 /\ c.pm = <<100000, 0>>
             /\ c.m[1].id = Lics[c.n].id /\ c.m[1].type = Lics[c.n].type /\ ~c.m[1].url
             /\ c.m[1].s = 0 /\ c.m[1].e = Len(c.text)
Foremost(c) ==
  LET ws == Split(c.text) IN
  /\ Listed(ws, 1)
  /\ \A k \in 1..(c.n - 1) : <<ws[1].w, ws[2].w>> \in Pat(k).phrases => Len(ws) + 1 \notin Exactly(ws, Pat(k).ast, {1})
Case(k) ==
  LET c    == Cases[k]
      t    == c.text
      ws   == Split(t)
      list == BuiltinMatches(ws)
      cv   == Coverage(Lics, Patterns(Lics), t, ws, list)
      exp  == SeenAll(Lics, cv.out)
      ok   == ~c.panic /\ exp = c.m /\ PercentIs(c.pm, cv.total, Len(ws))
  IN IF ~c.panic /\ c.n # 0 /\ ~c.full /\ Itself(c) /\ Foremost(c) THEN TRUE
     ELSE IF ok THEN PrintT(<<"AGREES", k, c.n>>)
     ELSE \A p \in Props : PrintT(<<"MISMATCH", p, "case", k, <<"expected", exp, "words", cv.total, Len(ws)>>>>)

Init == lane \in 1..Lanes /\ i = lane
Next == /\ i <= Len(Cases)
        /\ TRUE = Case(i)
        /\ i' = i + Lanes
        /\ UNCHANGED lane
=============================================================================
