--------------------------------- MODULE Types ---------------------------------
(***************************************************************************)
(* License types: sets of requirements.  A type is a set of bit numbers      *)
(* (0..63); bits 1..7 have names.  Strings are tuples of bytes.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Unrestricted == 1    Notice == 2       ShareChanges == 3   ShareProgram == 4
ShareServer == 5     NonCommercial == 6   Discouraged == 7
Levels   == Unrestricted..ShareServer        \* in increasing order of restriction
Declared == Unrestricted..Discouraged
Bits     == 0..63
Unknown  == {}

(***************************************************************************)
(* Merging the requirements of two types.                                   *)
(***************************************************************************)
MaxOfSet(S) == CHOOSE x \in S : \A y \in S : y <= x
Merge(t, u) ==
  IF t = Unknown \/ u = Unknown THEN Unknown
  ELSE LET all   == t \cup u
           lv    == all \cap Levels
           flags == all \cap {NonCommercial, Discouraged}
           level == IF lv = {} THEN {} ELSE {MaxOfSet(lv)}
       IN flags \cup (IF NonCommercial \in flags THEN level \ {Unrestricted} ELSE level)

(***************************************************************************)
(* Names.                                                                   *)
(***************************************************************************)
N_Unknown       == <<85,110,107,110,111,119,110>>
N_Unrestricted  == <<85,110,114,101,115,116,114,105,99,116,101,100>>
N_Notice        == <<78,111,116,105,99,101>>
N_ShareChanges  == <<83,104,97,114,101,67,104,97,110,103,101,115>>
N_ShareProgram  == <<83,104,97,114,101,80,114,111,103,114,97,109>>
N_ShareServer   == <<83,104,97,114,101,83,101,114,118,101,114>>
N_NonCommercial == <<78,111,110,67,111,109,109,101,114,99,105,97,108>>
N_Discouraged   == <<68,105,115,99,111,117,114,97,103,101,100>>
Name == <<N_Unrestricted, N_Notice, N_ShareChanges, N_ShareProgram, N_ShareServer, N_NonCommercial, N_Discouraged>>
N_Type == <<84,121,112,101,40>>       \* Type(
Bar == 124

(* Hexadecimal, without leading zeros.                                      *)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Nibble(t, k) == Cardinality(t \cap {4*k}) + 2 * Cardinality(t \cap {4*k+1})
                + 4 * Cardinality(t \cap {4*k+2}) + 8 * Cardinality(t \cap {4*k+3})
Hex(t) == LET top == MaxOfSet(t) \div 4 IN
          <<48, 120>> \o [j \in 1..(top+1) |-> HexDigit(Nibble(t, top + 1 - j))]

JoinBar(xs) == FoldLeft(LAMBDA a, x : IF a = <<>> THEN x ELSE a \o <<Bar>> \o x, <<>>, xs)
Str(t) ==
  IF t = Unknown THEN N_Unknown
  ELSE LET known == SelectSeq(<<1,2,3,4,5,6,7>>, LAMBDA b : b \in t)
           rest  == t \ Declared
       IN JoinBar([k \in 1..Len(known) |-> Name[known[k]]]
                  \o (IF rest = {} THEN <<>> ELSE <<N_Type \o Hex(rest) \o <<41>>>>))

(***************************************************************************)
(* Numbers as Go writes them: 10, 0x1f, 0b101, 0o17, 017, with _ between     *)
(* digits.  The value is a set of bits, or Big if it exceeds 64 bits, or     *)
(* Bad if it is no number.                                                   *)
(***************************************************************************)
Bad == {-1}
Big == {-2}
DigitVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
               ELSE IF c >= 97 /\ c <= 102 THEN c - 87
               ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 99
(* x * base + d on bits, least significant first, with a carry.             *)
MulAdd(x, base, d) ==
  IF x = Big \/ x = Bad THEN x
  ELSE LET r == FoldLeft(LAMBDA a, b :
                   LET v == (IF b \in x THEN base ELSE 0) + a.carry IN
                   [bits |-> IF v % 2 = 1 THEN a.bits \cup {b} ELSE a.bits, carry |-> v \div 2],
                   [bits |-> {}, carry |-> d], [k \in 1..64 |-> k - 1])
       IN IF r.carry # 0 THEN Big ELSE r.bits
Digits(s, base) ==
  IF s = <<>> THEN Bad
  ELSE IF \E k \in 1..Len(s) : DigitVal(s[k]) >= base THEN Bad
  ELSE FoldLeft(LAMBDA x, c : MulAdd(x, base, DigitVal(c)), {}, s)
NoUnderscore(s) == SelectSeq(s, LAMBDA c : c # 95)
(* _ only between digits, or between a base prefix and a digit              *)
UnderscoreOk(s, prefixed) ==
  \A k \in 1..Len(s) : s[k] = 95 =>
     /\ k < Len(s) /\ s[k+1] # 95
     /\ (k = 1 => prefixed)
Number(s) ==
  LET two  == IF Len(s) >= 2 /\ s[1] = 48 THEN s[2] ELSE 0
      base == IF two \in {120, 88} THEN 16 ELSE IF two \in {98, 66} THEN 2 ELSE IF two \in {111, 79} THEN 8
              ELSE IF s # <<>> /\ s[1] = 48 THEN 8 ELSE 10
      skip == IF two \in {120, 88, 98, 66, 111, 79} THEN 2 ELSE IF base = 8 THEN 1 ELSE 0
      rest == SubSeq(s, skip + 1, Len(s))
  IN IF s = <<48>> THEN {}
     ELSE IF ~UnderscoreOk(rest, skip > 0) THEN Bad
     ELSE Digits(NoUnderscore(rest), base)

(***************************************************************************)
(* Parsing: fields between bars, from left to right.                        *)
(***************************************************************************)
Fields(s) ==
  LET r == FoldLeft(LAMBDA a, c : IF c = Bar THEN [done |-> Append(a.done, a.cur), cur |-> <<>>]
                                  ELSE [a EXCEPT !.cur = Append(@, c)], [done |-> <<>>, cur |-> <<>>], s)
  IN Append(r.done, r.cur)
FieldType(f) ==
  IF f = N_Unknown THEN {}
  ELSE IF \E b \in Declared : Name[b] = f THEN {CHOOSE b \in Declared : Name[b] = f}
  ELSE IF Len(f) > 5 /\ SubSeq(f, 1, 5) = N_Type /\ f[Len(f)] = 41
       THEN LET v == Number(SubSeq(f, 6, Len(f) - 1)) IN IF v = Big THEN Bad ELSE v
  ELSE Bad
ParseType(s) ==     \* a type, or Bad
  FoldLeft(LAMBDA t, f : LET v == FieldType(f) IN IF t = Bad \/ v = Bad THEN Bad ELSE t \cup v, {}, Fields(s))
=============================================================================
