-------------------------------- MODULE History --------------------------------
(***************************************************************************)
(* The package as its caller sees it over time: license lists and texts that *)
(* the caller owns and may change at any moment, scanners made from them,    *)
(* lists returned by BuiltinLicenses, and results the caller keeps and may   *)
(* scribble on.  Contents are numbers of entries of pools.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS NL, LV,      \* license lists of the caller; their possible contents 1..LV
          NT, TV,      \* text buffers of the caller; their possible contents 1..TV
          NK,          \* scanners the caller can hold
          NR           \* results the caller can hold

VARIABLES lists,       \* contents of each license list
          texts,       \* contents of each text buffer
          scan,        \* for each scanner, the contents of the list it was made from (0: none)
          blist,       \* the caller's copy of the built-in list: "none", "fresh", "edited"
          res          \* results: [of, text, own]: the answer for list contents of (0: built in) and text
                       \* contents text, as long as the caller has not scribbled on it (own)
vars == <<lists, texts, scan, blist, res>>

Init == /\ lists = [j \in 1..NL |-> 1] /\ texts = [i \in 1..NT |-> 1]
        /\ scan = [k \in 1..NK |-> 0] /\ blist = "none" /\ res = <<>>

(* Calls of the package. *)
New(k, j) == scan' = [scan EXCEPT ![k] = lists[j]] /\ UNCHANGED <<lists, texts, blist, res>>
Scan(k, i) == /\ scan[k] # 0 /\ Len(res) < NR
              /\ res' = Append(res, [of |-> scan[k], text |-> texts[i], own |-> FALSE])
              /\ UNCHANGED <<lists, texts, scan, blist>>
ScanBuiltin(i) == /\ Len(res) < NR
                  /\ res' = Append(res, [of |-> 0, text |-> texts[i], own |-> FALSE])
                  /\ UNCHANGED <<lists, texts, scan, blist>>
Builtin == blist' = "fresh" /\ UNCHANGED <<lists, texts, scan, res>>
(* What the caller does with its own things. *)
EditList(j, v) == lists[j] # v /\ lists' = [lists EXCEPT ![j] = v] /\ UNCHANGED <<texts, scan, blist, res>>
EditText(i, v) == texts[i] # v /\ texts' = [texts EXCEPT ![i] = v] /\ UNCHANGED <<lists, scan, blist, res>>
EditBuiltin == blist = "fresh" /\ blist' = "edited" /\ UNCHANGED <<lists, texts, scan, res>>
Forget == res # <<>> /\ res' = Tail(res) /\ UNCHANGED <<lists, texts, scan, blist>>     \* the oldest result
Scribble(r) == r <= Len(res) /\ ~res[r].own /\ res' = [res EXCEPT ![r].own = TRUE] /\ UNCHANGED <<lists, texts, scan, blist>>

Next == \/ \E k \in 1..NK, j \in 1..NL : New(k, j)
        \/ \E k \in 1..NK, i \in 1..NT : Scan(k, i)
        \/ \E i \in 1..NT : ScanBuiltin(i)
        \/ Builtin \/ EditBuiltin
        \/ \E j \in 1..NL, v \in 1..LV : EditList(j, v)
        \/ \E i \in 1..NT, v \in 1..TV : EditText(i, v)
        \/ \E r \in 1..NR : Scribble(r)
        \/ Forget

(* No call of the package changes what the caller owns, a scanner, or an    *)
(* earlier result; nothing the caller does changes a scanner or a result    *)
(* other than the one scribbled on.                                         *)
Independent ==
  [][/\ (scan' # scan => UNCHANGED <<lists, texts, res>>)
     /\ (Len(res') < Len(res) => res' = Tail(res) /\ UNCHANGED <<lists, texts, scan, blist>>)
     /\ Len(res') >= Len(res) => \A r \in 1..Len(res) : r <= Len(res') /\ res'[r].of = res[r].of /\ res'[r].text = res[r].text
                               /\ (res'[r].own # res[r].own => UNCHANGED <<lists, texts, scan>>)
     /\ (Len(res') > Len(res) => UNCHANGED <<lists, texts, scan, blist>>)]_vars
=============================================================================
