------------------------------- MODULE Matcher -------------------------------
(***************************************************************************)
(* Running the program of a set of patterns over the words of a text.       *)
(*                                                                          *)
(* A license set under consideration ("kit") is a record                    *)
(*   err     the set is rejected                                            *)
(*   prog    the combined program; starts: where each pattern begins        *)
(*   phrases the two-word phrases with which some pattern's texts begin     *)
(*   rank    the order of first appearance of each word in the patterns     *)
(***************************************************************************)
EXTENDS Prog, FiniteSets
LOCAL INSTANCE TLC

RECURSIVE Clo(_, _)
Clo(prog, pc) ==
  LET i == prog[pc] IN
  CASE i.op = "alt" -> Clo(prog, pc+1) \cup Clo(prog, i.a)
    [] i.op = "jmp" -> Clo(prog, i.a)
    [] i.op = "cut" -> {pc} \cup Clo(prog, pc+1)
    [] OTHER        -> {pc}

Trim(prog, S) ==
  LET cuts == {pc \in S : prog[pc].op = "cut"} IN
  {pc \in S : prog[pc].op # "cut" /\ \A k \in cuts : pc < prog[k].a \/ pc > prog[k].b}

Enter(prog, pcs) == Trim(prog, UNION {Clo(prog, pc) : pc \in pcs})

HasAny(prog, S)    == \E pc \in S : prog[pc].op = "any"
HasWord(prog, S, w) == \E pc \in S : prog[pc].op = "w" /\ prog[pc].w = w
Expected(prog, S)  == {prog[pc].w : pc \in {q \in S : prog[q].op = "w"}}
NextWord(prog, S, w) == Enter(prog, {pc+1 : pc \in {q \in S : prog[q].op = "any" \/ (prog[q].op = "w" /\ prog[q].w = w)}})
NextAny(prog, S)   == Enter(prog, {pc+1 : pc \in {q \in S : prog[q].op = "any"}})
Done(prog, S)      == {prog[pc].a : pc \in {q \in S : prog[q].op = "mat"}}
MinOf(S)           == CHOOSE x \in S : \A y \in S : x <= y

(***************************************************************************)
(* Spelling.  want is the normal form of an expected word; have is the      *)
(* folded form of what the text actually says (h of the word).              *)
(***************************************************************************)
CopyrightForms == {W_c, W_copyright, W_copysign, E_copy}
OneEdit(x, y) ==    \* y is x with at most one byte replaced, inserted or removed
  LET a == Len(x)  b == Len(y)
      min == IF a < b THEN a ELSE b
      big == IF a > b THEN a ELSE b
      Run(s) == LET k == SelectInSeq(s, LAMBDA same : ~same) IN IF k = 0 THEN min ELSE k - 1
      pre == Run([j \in 1..min |-> x[j] = y[j]])              \* common beginning
      suf == Run([j \in 1..min |-> x[a-j+1] = y[b-j+1]])      \* common end
  IN a - b \in {-1, 0, 1} /\ pre + suf >= big - 1
CanMisspell(want, have) ==
  \/ (Len(want) >= 4 \/ Len(have) >= 4) /\ OneEdit(want, have)
  \/ want \in {W_c, W_copyright} /\ have \in CopyrightForms
CanJoin(want, have, have2) == want = have \o have2
SplitsAs(want, have) == Len(have) > Len(want) /\ SubSeq(have, 1, Len(want)) = want
RestOf(want, have)   == SubSeq(have, Len(want) + 1, Len(have))

(***************************************************************************)
(* One attempt to match at a given word is a state                          *)
(*   [k, S, lic, end, on]: the next word, the live program locations, the   *)
(*   best match so far (lic = 0: none), and whether the attempt goes on.    *)
(* Its steps: the word is expected (Exact); it and the next word make an    *)
(* expected word (Join); it is two expected words run together (Divide);    *)
(* it is a misspelled expected word (Misspell); a wildcard takes it         *)
(* (Wildcard); or the attempt ends (Stuck).  The first that applies is      *)
(* taken, and expected words are tried in the order of rank.                *)
(***************************************************************************)
Note(kit, m) == LET d == Done(kit.prog, m.S) IN
                IF d = {} THEN m ELSE [m EXCEPT !.lic = MinOf(d), !.end = m.k]

(* Ways to read word k as the expected word x.                              *)
Reading(kit, ws, m, x) ==
  LET have  == ws[m.k].h
      have2 == IF m.k < Len(ws) THEN ws[m.k+1].h ELSE <<>>
      S1    == NextWord(kit.prog, m.S, x)
      rest  == RestOf(x, have)
  IN IF CanJoin(x, have, have2)
     THEN [how |-> "join", S |-> S1, n |-> IF m.k < Len(ws) THEN 2 ELSE 1]
     ELSE IF SplitsAs(x, have) /\ HasWord(kit.prog, S1, rest)
     THEN [how |-> "divide", S |-> NextWord(kit.prog, S1, rest), n |-> 1]
     ELSE IF SplitsAs(x, have) /\ HasAny(kit.prog, S1)
     THEN [how |-> "divide", S |-> NextAny(kit.prog, S1), n |-> 1]
     ELSE IF CanMisspell(x, have)
     THEN [how |-> "misspell", S |-> S1, n |-> 1]
     ELSE [how |-> "no", S |-> {}, n |-> 0]

MatchStep(kit, ws, m0) ==
  LET m == Note(kit, m0)
      w == ws[m.k].w
      rd == [x \in Expected(kit.prog, m.S) |-> TLCEval(Reading(kit, ws, m, x))]
      xs == {x \in DOMAIN rd : rd[x].how # "no"}
      r == rd[CHOOSE y \in xs : \A z \in xs : kit.rank[y] <= kit.rank[z]]
  IN IF HasWord(kit.prog, m.S, w)
     THEN [m EXCEPT !.S = NextWord(kit.prog, m.S, w), !.k = @ + 1, !.how = "exact"]
     ELSE IF xs # {} THEN [m EXCEPT !.S = r.S, !.k = @ + r.n, !.how = r.how]
     ELSE IF HasAny(kit.prog, m.S)
     THEN [m EXCEPT !.S = NextAny(kit.prog, m.S), !.k = @ + 1, !.how = "wild"]
     ELSE [m EXCEPT !.on = FALSE, !.how = "stuck"]

MatchInit(kit, s) == [k |-> s, S |-> Enter(kit.prog, kit.starts), lic |-> 0, end |-> 0, on |-> TRUE, how |-> "start"]

(* Steps until the attempt ends, or to the end of the text.  (They are taken *)
(* 64 at a time so that TLC does not recur deeply.)                         *)
RunStep(kit, ws, m) ==
  IF ~m.on THEN m
  ELSE IF m.k > Len(ws) THEN Note(kit, [m EXCEPT !.k = Len(ws) + 1, !.on = FALSE])
  ELSE MatchStep(kit, ws, m)
Some == [j \in 1..64 |-> j]
RECURSIVE RunMatch(_, _, _)
RunMatch(kit, ws, m) ==
  LET n == FoldLeft(LAMBDA a, j : RunStep(kit, ws, a), m, Some) IN
  IF n.on THEN RunMatch(kit, ws, n) ELSE n

(* The match at word s: [lic, end], end being the first word after it;      *)
(* lic = 0 if there is none.                                                *)
MatchAt(kit, ws, s) ==
  LET m == RunMatch(kit, ws, MatchInit(kit, s)) IN [lic |-> m.lic, end |-> m.end]

(***************************************************************************)
(* All matches: from left to right, each found by attempting every word     *)
(* that begins a known phrase and is not in an earlier match.               *)
(***************************************************************************)
Candidate(kit, ws, s) == s < Len(ws) /\ <<ws[s].w, ws[s+1].w>> \in kit.phrases

AllMatches(kit, ws) ==     \* a sequence of [lic, start, end]
  FoldLeft(LAMBDA a, s :
             IF s < a.from \/ ~Candidate(kit, ws, s) THEN a
             ELSE LET m == MatchAt(kit, ws, s) IN
                  IF m.lic = 0 THEN a
                  ELSE [from |-> m.end, list |-> Append(a.list, [lic |-> m.lic, start |-> s, end |-> m.end])],
           [from |-> 1, list |-> <<>>], [s \in 1..Len(ws) |-> s]).list

(***************************************************************************)
(* Building a kit from the patterns of a license set, in order.             *)
(***************************************************************************)
Ranks(words) ==
  LET firsts == FoldLeft(LAMBDA a, w : IF w \in a.have THEN a
                                       ELSE [have |-> a.have \cup {w}, seq |-> Append(a.seq, w)],
                         [have |-> {}, seq |-> <<>>], words).seq
  IN [w \in {firsts[k] : k \in 1..Len(firsts)} |-> CHOOSE k \in 1..Len(firsts) : firsts[k] = w]

BadKit == [err |-> TRUE, prog |-> <<>>, starts |-> {}, phrases |-> {}, rank |-> <<>>]
Kit(pats) ==
  LET ps == TLCEval([k \in 1..Len(pats) |-> TLCEval(Parse(pats[k]))])
      add(c, k) == LET d == CompileOnto(c.prog, ps[k].ast, k) IN
                   [err |-> c.err \/ d.err, prog |-> d.prog, starts |-> c.starts \cup {Len(c.prog) + 1}]
      all == FoldLeft(add, [err |-> FALSE, prog |-> <<>>, starts |-> {}], [k \in 1..Len(pats) |-> k])
      ph  == UNION {Phrases(ps[k].ast) : k \in 1..Len(pats)}
      wds == FoldLeft(LAMBDA a, k : a \o ps[k].words, <<W_copyright, W_http>>, [k \in 1..Len(pats) |-> k])
  IN IF pats = <<>> \/ (\E k \in 1..Len(pats) : ps[k].err) THEN BadKit
     ELSE IF all.err \/ (\E k \in 1..Len(pats) : ~Searchable(ps[k].ast)) THEN BadKit
     ELSE [err |-> FALSE, prog |-> all.prog, starts |-> all.starts,
           phrases |-> {<<p[1].w, p[2].w>> : p \in ph}, rank |-> Ranks(wds)]
=============================================================================
