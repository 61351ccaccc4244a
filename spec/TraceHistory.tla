------------------------------ MODULE TraceHistory ------------------------------
(***************************************************************************)
(* Checks recorded histories of the real code against History.  A history is *)
(* a list of events [op, a, b, lists, texts, scan, bl, res]: the operation    *)
(* and the whole state after it, as seen by the caller: which pool entry each *)
(* list and text equals (0: none of them), which pool entry the list of       *)
(* BuiltinLicenses equals (1: the built-in list, 2: edited, 0 other) and the   *)
(* results, each the number of a coverage in the table Seen (0: the caller's). *)
(* The table Right says which coverage is right for which contents.           *)
(***************************************************************************)
EXTENDS History, Json, IOUtils
ASSUME TLCSet(11, JsonDeserialize(IOEnv.TRACE))
Hs == TLCGet(11).histories
Right(of, text) == TLCGet(11).right[of + 1][text]     \* number of the right coverage

VARIABLES n, i, ok     \* history, position, still a behaviour of the specification
tvars == <<vars, n, i, ok>>
Ev == Hs[n][i]

Seen(r) == IF r.own THEN 0 ELSE Right(r.of, r.text)
Projected(e) ==        \* the logged state is the state of the specification
  /\ e.lists = lists' /\ e.texts = texts'
  /\ e.bl = (CASE blist' = "none" -> 0 [] blist' = "fresh" -> 1 [] OTHER -> 2)
  /\ e.res = [r \in 1..Len(res') |-> Seen(res'[r])]

Do(e) == CASE e.op = "new"      -> New(e.a, e.b)
           [] e.op = "scan"     -> Scan(e.a, e.b)
           [] e.op = "scanb"    -> ScanBuiltin(e.a)
           [] e.op = "builtin"  -> Builtin
           [] e.op = "editb"    -> EditBuiltin
           [] e.op = "editlist" -> EditList(e.a, e.b)
           [] e.op = "edittext" -> EditText(e.a, e.b)
           [] e.op = "scribble" -> Scribble(e.a)
           [] e.op = "forget"   -> Forget

TInit == Init /\ n \in 1..Len(Hs) /\ i = 1 /\ ok = TRUE
TNext == /\ ok /\ i <= Len(Hs[n])
         /\ Do(Ev)
         /\ ok' = Projected(Ev)
         /\ TRUE = IF ok' THEN TRUE ELSE PrintT(<<"MISMATCH", "P14", "case", n, i>>)
         /\ i' = i + 1 /\ n' = n
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
