----------------------------- MODULE VarintModel ----------------------------
(***************************************************************************)
(* Design model of encoding/varint.rs: the encoding loop, the length       *)
(* formula on the number of significant bits, and the three-part decoder.  *)
(***************************************************************************)
EXTENDS Varint, TLC, Json, FiniteSets

CONSTANTS Ds,       \* the digits to choose from
          Positions,\* how many low digits vary
          Bug, Emit

VARIABLES val, todo, out, pc, dec, suf
vars == <<val, todo, out, pc, dec, suf>>

BitLen(v) == \* of v | 1
  LET n == Size(v)
      bl[x \in 0..127] == IF x < 2 THEN 1 ELSE 1 + bl[x \div 2]
  IN 7 * (n - 1) + bl[v[n]]
\* (((value | 1).leading_zeros() ^ 63) * 9 + 73) / 64
LenFormula(v) == ((BitLen(v) - 1) * 9 + (IF Bug = "formula" THEN 64 ELSE 73)) \div 64

Vals == {[i \in 1..Digits |-> IF i <= Positions THEN f[i] ELSE IF i = Digits THEN h ELSE m] :
           f \in [1..Positions -> Ds], m \in Ds, h \in {0, 1}}

Init == /\ val \in Vals /\ todo = val /\ out = <<>> /\ pc = "enc" /\ dec = <<>>
        /\ suf \in {<<>>, <<0>>, <<255>>, <<128, 1>>}

IsSmall(v) == \A i \in 2..Digits : v[i] = 0
Shift(v) == [i \in 1..Digits |-> IF i < Digits THEN v[i + 1] ELSE 0]

EncStep == /\ pc = "enc"
           /\ IF IsSmall(todo) /\ (Bug # "off_by_one" \/ todo[1] # 127)
              THEN out' = Append(out, todo[1]) /\ todo' = todo /\ pc' = "dec"
              ELSE /\ out' = Append(out, todo[1] + 128) /\ todo' = Shift(todo)
                   /\ pc' = IF Len(out) > 12 THEN "dec" ELSE pc
           /\ UNCHANGED <<val, dec, suf>>

\* parts of 4, 4 and 2 bytes, each accumulated and then shifted into place
DecStep ==
  /\ pc = "dec"
  /\ LET b == out \o suf
         d == Dec(b)
         place(i) == IF Bug = "part_shift" /\ i > 4 THEN i - 1 ELSE i
     IN dec' = [ok |-> d.ok, n |-> d.n,
                v |-> IF ~d.ok THEN <<>>
                      ELSE [k \in 1..Digits |->
                              LET src == {i \in 1..d.n : place(i) = k}
                              IN IF src = {} THEN 0 ELSE d.v[CHOOSE i \in src : \A j \in src : i >= j]]]
  /\ pc' = "done"
  /\ IF Emit THEN PrintT(<<"VEC", ToJson([v |-> val])>>) ELSE TRUE
  /\ UNCHANGED <<val, todo, out, suf>>

Next == EncStep \/ DecStep
Spec == Init /\ [][Next]_vars

Canonical == pc # "enc" => out = Enc(val)
Announced == pc # "enc" => LenFormula(val) = Len(out)
Shortest  == pc # "enc" => (Len(out) = 1 \/ out[Len(out)] # 0) /\ Len(out) \in 1..10
RoundTrip == pc = "done" => dec.ok /\ dec.v = val /\ dec.n = Len(out)
=============================================================================
