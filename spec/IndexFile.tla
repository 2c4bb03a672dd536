------------------------------ MODULE IndexFile -----------------------------
(***************************************************************************)
(* The index file of a segment: signature, metadata, footer.  The metadata *)
(* is a message of the published schema (segment_metadata.proto) in the    *)
(* protocol buffers wire format; both directions are specified here from   *)
(* the public description of that format.                                  *)
(* Integers are ten base-128 digits (see Varint).                          *)
(***************************************************************************)
EXTENDS Varint, FiniteSets

\* "MEERKAT_IDX1", "MEERKAT_DATA1"
IndexSignature == <<77, 69, 69, 82, 75, 65, 84, 95, 73, 68, 88, 49>>
DataSignature  == <<77, 69, 69, 82, 75, 65, 84, 95, 68, 65, 84, 65, 49>>

Zero == [i \in 1..Digits |-> 0]
Small(n) == [i \in 1..Digits |-> IF i = 1 THEN n % 128 ELSE IF i = 2 THEN (n \div 128) % 128
                                 ELSE IF i = 3 THEN (n \div 16384) % 128
                                 ELSE IF i = 4 THEN (n \div 2097152) % 128 ELSE 0]
\* values below 2^28, or -1
ToInt(v) == IF \E i \in 5..Digits : v[i] # 0 THEN -1
            ELSE v[1] + 128 * v[2] + 16384 * v[3] + 2097152 * v[4]

\* ---- wire format --------------------------------------------------------------
Window(b, at, n) == SubSeq(b, at, IF at + n - 1 < Len(b) THEN at + n - 1 ELSE Len(b))

Bad == [ok |-> FALSE, fields |-> <<>>]

\* the fields of a message: <<number, wire type, value>>
RECURSIVE FieldsFrom(_, _, _)
FieldsFrom(b, at, acc) ==
  IF at > Len(b) THEN [ok |-> TRUE, fields |-> acc]
  ELSE LET k == Dec(Window(b, at, 10)) IN
       IF ~k.ok \/ ToInt(k.v) < 8 THEN Bad
       ELSE LET num  == ToInt(k.v) \div 8
                wire == ToInt(k.v) % 8
                p    == at + k.n
            IN CASE wire = 0 ->
                      LET v == Dec(Window(b, p, 10)) IN
                      IF v.ok THEN FieldsFrom(b, p + v.n, Append(acc, <<num, 0, v.v>>)) ELSE Bad
                 [] wire = 2 ->
                      LET n == Dec(Window(b, p, 10)) IN
                      IF ~n.ok \/ ToInt(n.v) < 0 \/ p + n.n + ToInt(n.v) - 1 > Len(b) THEN Bad
                      ELSE FieldsFrom(b, p + n.n + ToInt(n.v),
                             Append(acc, <<num, 2, SubSeq(b, p + n.n, p + n.n + ToInt(n.v) - 1)>>))
                 [] wire = 1 ->
                      IF p + 7 > Len(b) THEN Bad
                      ELSE FieldsFrom(b, p + 8, Append(acc, <<num, 1, SubSeq(b, p, p + 7)>>))
                 [] wire = 5 ->
                      IF p + 3 > Len(b) THEN Bad
                      ELSE FieldsFrom(b, p + 4, Append(acc, <<num, 5, SubSeq(b, p, p + 3)>>))
                 [] OTHER -> Bad
Fields(b) == FieldsFrom(b, 1, <<>>)

All(f, num) == SelectSeq(f, LAMBDA x : x[1] = num)
Has(f, num) == All(f, num) # <<>>
\* the last occurrence counts; absent fields have their default
Num(f, num) == LET s == All(f, num) IN
               IF s = <<>> \/ s[Len(s)][2] # 0 THEN Zero ELSE s[Len(s)][3]
Bytes(f, num) == LET s == All(f, num) IN
                 IF s = <<>> \/ s[Len(s)][2] # 2 THEN <<>> ELSE s[Len(s)][3]
Sub(f, num) == Fields(Bytes(f, num)).fields

\* ---- the schema ----------------------------------------------------------------
MetaSegment == 1
MetaLayouts == 2
SegId == 1        SegDb == 2        SegTable == 3     SegShard == 4
SegRows == 7      SegColumns == 8
EntryKey == 1     EntryValue == 2
ColName == 1      ColType == 2      ColNullable == 3  ColEncoding == 4   ColIndex == 5
LayNoIndex == 1   LayStringIndex == 2   LayBlockIndex == 3
LayPlain == 4     LayBinaryDict == 5    LaySnappy == 6

\* every length-delimited field has to hold a message of its own
ParseColumnMeta(f) == [key |-> Bytes(f, EntryKey)] @@
  LET m == Sub(f, EntryValue) IN
  [name |-> Bytes(m, ColName), ctype |-> ToInt(Num(m, ColType)),
   nullable |-> ToInt(Num(m, ColNullable)) # 0, enc |-> ToInt(Num(m, ColEncoding)),
   index |-> ToInt(Num(m, ColIndex))]

ParseLayout(f) == [key |-> Bytes(f, EntryKey)] @@
  LET m == Sub(f, EntryValue)
      bi == Sub(m, LayBlockIndex)
      rg == Sub(bi, 1)
  IN [encoders |-> {k \in {LayPlain, LayBinaryDict, LaySnappy} : Has(m, k)},
      located |-> Has(m, LayBlockIndex) /\ Has(bi, 1),
      start |-> ToInt(Num(rg, 1)), end |-> ToInt(Num(rg, 2))]

Parse(b) ==
  LET top == Fields(b)
      s == Fields(Bytes(top.fields, MetaSegment))
      cs == All(s.fields, SegColumns)
      ls == All(top.fields, MetaLayouts)
      good(es) == \A i \in DOMAIN es :
                    es[i][2] = 2 /\ LET e == Fields(es[i][3]) IN e.ok /\ Fields(Bytes(e.fields, EntryValue)).ok
  IN IF ~top.ok \/ ~Has(top.fields, MetaSegment) \/ ~s.ok \/ ~good(cs) \/ ~good(ls)
     THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE,
           id |-> Bytes(s.fields, SegId), db |-> Bytes(s.fields, SegDb), table |-> Bytes(s.fields, SegTable),
           shard |-> Num(s.fields, SegShard), rows |-> Num(s.fields, SegRows),
           cols |-> {ParseColumnMeta(Fields(cs[i][3]).fields) : i \in DOMAIN cs},
           ncols |-> Len(cs),
           layouts |-> {ParseLayout(Fields(ls[i][3]).fields) : i \in DOMAIN ls},
           nlayouts |-> Len(ls)]

\* ---- the file ------------------------------------------------------------------
\* the place the footer gives (bytes before the metadata), or -1
FooterOf(b) ==
  IF Len(b) < 20 THEN -1
  ELSE LET f == SubSeq(b, Len(b) - 7, Len(b)) IN
       IF \E i \in 4..8 : f[i] # 0 THEN -1
       ELSE f[1] + 256 * f[2] + 65536 * f[3]

\* looks like the index file of a closed segment
LooksComplete(b) ==
  LET m == FooterOf(b) IN
  /\ Len(b) >= 20 /\ SubSeq(b, 1, 12) = IndexSignature
  /\ m >= 12 /\ m <= Len(b) - 8
  /\ Parse(SubSeq(b, m + 1, Len(b) - 8)).ok

Metadata(b) == Parse(SubSeq(b, FooterOf(b) + 1, Len(b) - 8))

\* ---- writing (for the design model) ----------------------------------------------
Key(num, wire) == Enc(Small(num * 8 + wire))
FVar(num, v) == IF v = Zero THEN <<>> ELSE Key(num, 0) \o Enc(v)
FBytes(num, b) == IF b = <<>> THEN <<>> ELSE Key(num, 2) \o Enc(Small(Len(b))) \o b
FMsg(num, b) == Key(num, 2) \o Enc(Small(Len(b))) \o b

\* ---- file names ----------------------------------------------------------------
\* 0-9 A-Z a-z - _ in ASCII, in the order of URL-safe base 64
Alphabet == [i \in 0..63 |-> IF i < 26 THEN 65 + i ELSE IF i < 52 THEN 97 + i - 26
                             ELSE IF i < 62 THEN 48 + i - 52 ELSE IF i = 62 THEN 45 ELSE 95]
Base64(b) ==
  LET n == Len(b)
      at(i) == IF i <= n THEN b[i] ELSE 0
      chars == (n * 8 + 5) \div 6
      sextet(k) == \* k-th group of six bits, from 0
        LET byte == (k * 6) \div 8 + 1
            off  == (k * 6) % 8
            w    == at(byte) * 256 + at(byte + 1)
        IN (w \div (2 ^ (10 - off))) % 64
  IN [k \in 1..chars |-> Alphabet[sextet(k - 1)]]
=============================================================================
