------------------------------ MODULE TraceCatalog ------------------------------
(***************************************************************************)
(* Catalogs recorded from the real code: for a set of files, the list       *)
(* BuiltinLicenses() of a package whose data was generated from them (or    *)
(* that the generator failed).                                              *)
(*   cases: [files: [name, text], urls: [id, url], fail,                    *)
(*           list: [id, bits, lre, url]]                                    *)
(* Each step checks one entry of a list.                                    *)
(***************************************************************************)
EXTENDS Catalog, Json, IOUtils, TLC

ASSUME TLCSet(11, JsonDeserialize(IOEnv.TRACE))
Cases == TLCGet(11)
ASSUME TLCSet(12, [c \in 1..Len(Cases) |-> CatalogOf(Cases[c].files)])
Lres(c) == TLCGet(12)[c].list
Spoiled(c) == TLCGet(12)[c].spoiled

VARIABLES c, k

SetOf(s) == {s[j] : j \in 1..Len(s)}
Want(cc) == IF Spoiled(cc) THEN 0 ELSE Len(Lres(cc)) + Len(Cases[cc].urls)
EntryOk(cc, j) ==
  LET e == Cases[cc].list[j]
      l == Lres(cc)
      m == Len(l)
  IN IF j <= m
     THEN e.id = l[j].id /\ e.url = <<>> /\ SetOf(e.bits) = l[j].typ /\ SamePattern(e.lre, l[j].lre)
     ELSE LET u == Cases[cc].urls[j - m] IN
          e.id = u.id /\ e.url = u.url /\ e.lre = <<>> /\ SetOf(e.bits) = TypeOfId(l, u.id)
Report(kind, cc, j, d) == PrintT(<<"MISMATCH", "P15", kind, cc, j, d>>)

Init == c \in 1..Len(Cases) /\ k = 0
Next == /\ k <= (IF Len(Cases[c].list) < Want(c) THEN Len(Cases[c].list) ELSE Want(c))
        /\ TRUE = IF k = 0
             THEN IF Cases[c].fail # Spoiled(c) THEN Report("verdict", c, 0, Spoiled(c))
                  ELSE IF Len(Cases[c].list) # Want(c) THEN Report("length", c, Len(Cases[c].list), Want(c)) ELSE TRUE
             ELSE IF EntryOk(c, k) THEN TRUE
                  ELSE Report("entry", c, k, IF k <= Len(Lres(c)) THEN <<Lres(c)[k].id, Lres(c)[k].typ>> ELSE <<"url">>)
        /\ k' = k + 1 /\ UNCHANGED c
=============================================================================
