------------------------------- MODULE Varint -------------------------------
(***************************************************************************)
(* Variable-length integers.  A 64-bit value is its ten base-128 digits,   *)
(* least significant first (the tenth is 0 or 1), because TLC's integers   *)
(* have 32 bits.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Digits == 10
IsValue(v) == Len(v) = Digits /\ (\A i \in 1..Digits : v[i] \in 0..127) /\ v[Digits] \in 0..1

\* number of significant digits, at least one
Size(v) == FoldLeft(LAMBDA a, i : IF v[i] # 0 THEN i ELSE a, 1, [i \in 1..Digits |-> i])

\* the canonical (shortest) form
Enc(v) == LET n == Size(v) IN [i \in 1..n |-> IF i < n THEN v[i] + 128 ELSE v[i]]

\* what a byte string starts with: the digits and the bytes consumed;
\* ok = FALSE if there are ten or more continuation bytes
Dec(b) ==
  LET ends == {i \in 1..(IF Len(b) < Digits THEN Len(b) ELSE Digits) : b[i] < 128}
      n == CHOOSE i \in ends : \A j \in ends : i <= j
  IN IF ends = {} THEN [ok |-> FALSE, v |-> <<>>, n |-> 0]
     ELSE [ok |-> TRUE, n |-> n,
           v |-> [i \in 1..Digits |-> IF i < n THEN b[i] - 128 ELSE IF i = n THEN b[i] ELSE 0]]
=============================================================================
