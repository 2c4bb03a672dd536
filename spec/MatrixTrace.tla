------------------------------ MODULE MatrixTrace ------------------------------
(***************************************************************************)
(* Judges what asking for a value type and an encoding gave (C18).         *)
(***************************************************************************)
EXTENDS Column, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, err
vars == <<t, l, err>>
T == Traces[t]

Init == t \in 1..Len(Traces) /\ l = 0 /\ err = ""

EncName == <<"RAW", "BIT_PACKED", "DELTA_BINARY_PACKED", "RLE_DICTIONARY", "SNAPPY">>
Layout == (0 :> "Plain") @@ (4 :> "Snappy")
\* what is not readable afterwards
Lossy ==
  LET v == ValuesErr(T.rows, T.blocks, TRUE)
      w == ValidityErr(T.rows, T.blocks, T.nullable, TRUE)
  IN IF Len(T.blocks) # T.announced THEN "blocks are missing"
     ELSE IF v # "" THEN v ELSE w

Judge ==
  IF T.crash # "" THEN T.crash
  ELSE IF T.res = "refused"
  THEN IF T.enc = 0 THEN "the raw encoding is refused"
       ELSE IF T.blocks # <<>> \/ T.announced # 0 THEN "refused, but something is written" ELSE ""
  ELSE IF T.res = "error"
  THEN IF T.enc = 0 THEN "the raw encoding fails"
       ELSE IF T.announced # 0 THEN "an error after something was written"
       ELSE IF T.taken # 0 THEN "an error after rows were accepted" ELSE ""
  ELSE IF T.res # "ok" THEN T.res
  \* the layout tells a reader how the blocks are to be decoded
  ELSE IF T.via = "encoder" /\ T.enc \in DOMAIN Layout /\ T.layout # Layout[T.enc]
  THEN "the layout is that of another encoding"
  ELSE IF Lossy = "" THEN ""
  ELSE IF T.kind = "bin" /\ T.enc = 4
  THEN IF PrintT(<<"KNOWN", "silently-lossy:" \o T.kind \o ":" \o EncName[T.enc + 1], t>>) THEN "" ELSE ""
  ELSE "accepted, but the rows cannot be read back: " \o Lossy

Open == l = 0 /\ l' = 1 /\ err' = Judge /\ UNCHANGED t
Next == Open
Spec == Init /\ [][Next]_vars
Conforms == err = ""
================================================================================
