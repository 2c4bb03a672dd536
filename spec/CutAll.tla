------------------------------- MODULE CutAll --------------------------------
(***************************************************************************)
(* The arithmetic of cutting fixed-width columns into blocks, for every    *)
(* block size and any number of values per buffer (for Apalache, by        *)
(* induction: Inv holds initially, and every step from any state that      *)
(* satisfies it leads to one that does).  The steps are those of           *)
(* ColumnEncoder, reduced to numbers of values; TLC checks on small        *)
(* columns that ColumnEncoder refines this (ColumnCut).                    *)
(***************************************************************************)
EXTENDS Integers

CONSTANT
  \* @type: Str;
  Deviation

VARIABLES
  \* @type: Int;
  w,        \* bytes of a value
  \* @type: Int;
  bs,       \* block size
  \* @type: Int;
  held,     \* values held back
  \* @type: Int;
  rest,     \* values of the buffer that were not consumed
  \* @type: Int;
  given,    \* values written to the column
  \* @type: Int;
  done,     \* values in blocks
  \* @type: Int;
  last,     \* values in the last block that was cut, not flushed
  \* @type: Str;
  pc

vars == <<w, bs, held, rest, given, done, last, pc>>

Times(x) == IF w = 4 THEN 4 * x ELSE IF w = 8 THEN 8 * x ELSE x
\* values needed for so many bytes
Need(b) == CASE w = 4 -> (b \div 4) + (IF b % 4 # 0 THEN 1 ELSE 0)
             [] w = 8 -> (b \div 8) + (IF b % 8 # 0 THEN 1 ELSE 0)
             [] OTHER -> b
Chunk(b) == LET n == IF Deviation = "rounds_down" THEN (IF w = 4 THEN b \div 4 ELSE b \div 8) ELSE Need(b)
            IN IF n < rest THEN n ELSE rest

Init == /\ w \in {1, 4, 8} /\ bs \in Nat /\ bs >= 1
        /\ held = 0 /\ rest = 0 /\ given = 0 /\ done = 0 /\ last = 0 /\ pc = "idle"

\* nulls may be held back without values: then either branch may be taken
Write == /\ pc = "idle"
         /\ rest' \in Nat /\ given' = given + rest'
         /\ pc' \in {"topup", "loop"} /\ (held > 0 => pc' = "topup")
         /\ UNCHANGED <<w, bs, held, done, last>>

TopUp == /\ pc = "topup"
         /\ LET c == Chunk(IF Deviation = "whole_size" THEN bs ELSE bs - Times(held))
                h == held + c
            IN /\ rest' = rest - c
               /\ IF Times(h) < bs
                  THEN held' = h /\ pc' = "idle" /\ UNCHANGED <<done, last>>
                  ELSE held' = 0 /\ pc' = "loop" /\ done' = done + h /\ last' = h
         /\ UNCHANGED <<w, bs, given>>

Cut == /\ pc = "loop"
       /\ IF rest = 0 THEN pc' = "idle" /\ UNCHANGED <<held, rest, done, last>>
          ELSE LET c == Chunk(bs)
               IN /\ rest' = rest - c
                  /\ IF Times(c) < bs
                     THEN held' = held + c /\ pc' = "idle" /\ UNCHANGED <<done, last>>
                     ELSE done' = done + c /\ last' = c /\ UNCHANGED <<held, pc>>
       /\ UNCHANGED <<w, bs, given>>

\* what is held back becomes the last block
Flush == /\ pc = "idle" /\ pc' = "flushed" /\ held' = 0 /\ done' = done + held
         /\ UNCHANGED <<w, bs, rest, given, last>>

Next == Write \/ TopUp \/ Cut \/ Flush
Spec == Init /\ [][Next]_vars

\* C05: a block has at least the block size, and would not without its last value
Full == last = 0 \/ (Times(last) >= bs /\ Times(last - 1) < bs)
\* C05: less than a block is held back
Prompt == Times(held) < bs
\* C01: every value is in a block, held back, or yet to be consumed
Kept == given = done + held + rest /\ (pc \in {"idle", "flushed"} => rest = 0)
        /\ (pc = "flushed" => held = 0)

Inv == /\ w \in {1, 4, 8} /\ bs >= 1
       /\ held >= 0 /\ rest >= 0 /\ given >= 0 /\ done >= 0 /\ last >= 0
       /\ pc \in {"idle", "topup", "loop", "flushed"}
       /\ pc = "loop" => held = 0
       /\ Full /\ Prompt /\ Kept

\* a state that satisfies Inv
IndInit == /\ w \in {1, 4, 8} /\ bs \in Nat /\ held \in Nat /\ rest \in Nat /\ given \in Nat
           /\ done \in Nat /\ last \in Nat /\ pc \in {"idle", "topup", "loop", "flushed"} /\ Inv

\* C05: the loop ends
Shrinks == (pc = "loop" /\ pc' = "loop") => rest' < rest

ConstNone == Deviation = "none"
ConstDown == Deviation = "rounds_down"
ConstWhole == Deviation = "whole_size"
=============================================================================
