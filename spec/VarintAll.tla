------------------------------ MODULE VarintAll ------------------------------
(***************************************************************************)
(* Varints for every 64-bit value and every continuation of the byte       *)
(* string, for Apalache: the digits, the encoding and the bytes that       *)
(* follow are symbolic.  The definitions are those of Varint and           *)
(* VarintModel without recursion.                                          *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int -> Int;
  val,
  \* @type: Int -> Int;
  bytes,
  \* @type: Int;
  size,
  \* @type: Int;
  bits,
  \* @type: Str;
  pc

Byte == 0..255
P2(x) == IF x < 2 THEN 1 ELSE IF x < 4 THEN 2 ELSE IF x < 8 THEN 3 ELSE IF x < 16 THEN 4
         ELSE IF x < 32 THEN 5 ELSE IF x < 64 THEN 6 ELSE 7

\* a value, and a byte string of which the encoding will be the beginning
Init ==
  /\ val \in [1..10 -> 0..127] /\ val[10] <= 1
  /\ bytes \in [1..14 -> Byte]
  /\ size = 0 /\ bits = 0 /\ pc = "encode"

\* the loop: seven bits at a time while there are more
Encode ==
  /\ pc = "encode"
  /\ \E n \in 1..10 :
       /\ \A i \in 1..10 : i > n => val[i] = 0
       /\ n > 1 => val[n] # 0
       /\ size' = n
       /\ bytes' = [i \in 1..14 |-> IF i < n THEN val[i] + 128 ELSE IF i = n THEN val[i] ELSE bytes[i]]
       /\ bits' = 7 * (n - 1) + P2(val[n])
  /\ pc' = "encoded" /\ UNCHANGED val

\* any ten bytes that all continue, for the decoder
Foreign ==
  /\ pc = "encode" /\ \A i \in 1..10 : bytes[i] >= 128
  /\ pc' = "foreign" /\ UNCHANGED <<val, bytes, size, bits>>

Next == Encode \/ Foreign

\* the decoder: up to the first byte that does not continue
Ends(n) == bytes[n] < 128 /\ \A i \in 1..10 : i < n => bytes[i] >= 128
Digit(n, i) == IF i < n THEN bytes[i] - 128 ELSE IF i = n THEN bytes[i] ELSE 0

Announced == pc = "encoded" => ((bits - 1) * 9 + 73) \div 64 = size
RoundTrip == pc = "encoded" =>
               \E n \in 1..10 : Ends(n) /\ n = size /\ \A i \in 1..10 : Digit(n, i) = val[i]
Unique    == pc = "encoded" => \A n \in 1..10 : Ends(n) => n = size
Rejected  == pc = "foreign" => \A n \in 1..10 : ~Ends(n)
Inv == Announced /\ RoundTrip /\ Unique /\ Rejected
\* deviating: the shortest form is not the only one with the announced length
WrongFormula == pc = "encoded" => ((bits - 1) * 9 + 64) \div 64 = size
=============================================================================
