---------------------------- MODULE VarintTrace -----------------------------
(* Judges recorded uses of encoding/varint.rs against Varint (C07). *)
EXTENDS Varint, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, err
vars == <<t, l, err>>
T == Traces[t]

Init == t \in 1..Len(Traces) /\ l = 0 /\ err = ""

EncErr ==
  LET e == Enc(T.v) IN
  IF T.bytes # e THEN "the encoded bytes are not the shortest form"
  ELSE IF T.n # Len(e) \/ ~T.clean THEN "the encoder wrote a different number of bytes than it returned"
  ELSE IF T.len # Len(e) THEN "the announced length is not the number of bytes written"
  ELSE IF T.put # e \/ ~T.pre THEN "appending to a vector does not append the encoded bytes"
  ELSE IF T.dec.res # "ok" THEN "an encoded value cannot be read: " \o T.dec.res
  ELSE IF T.dec.v # T.v THEN "reading gives another value"
  ELSE IF T.dec.n # Len(e) THEN "reading consumes a different number of bytes"
  ELSE ""

DecErr ==
  LET d == Dec(T.b) IN
  IF ~d.ok /\ Len(T.b) >= 10 /\ T.dec.res # "error" THEN "ten continuation bytes are not rejected: " \o T.dec.res
  ELSE IF d.ok /\ T.b = Enc(d.v) /\ (T.dec.res # "ok" \/ T.dec.v # d.v \/ T.dec.n # d.n)
  THEN "a canonical encoding is read wrongly"
  ELSE ""

Next == /\ l = 0 /\ l' = 1 /\ UNCHANGED t
        /\ err' = IF T.crash # "" THEN T.crash
                  ELSE IF T.op = "enc" THEN EncErr ELSE DecErr
Spec == Init /\ [][Next]_vars
Conforms == err = ""
=============================================================================
