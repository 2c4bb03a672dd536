-------------------------------- MODULE Matrix --------------------------------
(***************************************************************************)
(* Asking for a column writer with a value type and an encoding: the       *)
(* request is honoured, and then every row that is written can be read     *)
(* back, or it is refused before anything is written.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json

CONSTANTS Encodings,   \* 0 is the raw one
          MaxRows, Bug, Emit

Kinds == {"i32", "i64", "u64", "f64", "bin"}
Raw == 0
Null == -1

VARIABLES kind, enc, nullable, pc, rows, bufs, disk
vars == <<kind, enc, nullable, pc, rows, bufs, disk>>

\* the encodings that are implemented
Has(k, e) == IF Bug = "no_raw" THEN k # "u64" /\ e = Raw ELSE e = Raw \/ (Bug \in {"discard", "late"} /\ e # Raw /\ k = "bin")

Init == /\ kind \in Kinds /\ enc \in Encodings /\ nullable \in BOOLEAN
        /\ pc = "ask" /\ rows = <<>> /\ bufs = <<>> /\ disk = <<>>

Ask == /\ pc = "ask" /\ pc' = IF Has(kind, enc) THEN "open" ELSE "refused"
       /\ UNCHANGED <<kind, enc, nullable, rows, bufs, disk>>

Stored(b) == IF Bug = "discard" /\ enc # Raw THEN <<>>
             ELSE IF Bug = "forget_nulls" THEN SelectSeq(b, LAMBDA x : x # Null) ELSE b

\* the rows of a buffer are 1..n; nulls anywhere
Write == /\ pc = "open"
         /\ \E n \in 0..(MaxRows - Len(rows)), nulls \in SUBSET (1..MaxRows) :
              /\ nulls = {} \/ (nullable /\ nulls \subseteq 1..n)
              /\ LET b == [i \in 1..n |-> IF i \in nulls THEN Null ELSE Len(rows) + i] IN
                 /\ rows' = rows \o b /\ bufs' = Append(bufs, b) /\ disk' = disk \o Stored(b)
         /\ Len(bufs) < 2
         /\ pc' = IF Bug = "late" /\ enc # Raw THEN "error" ELSE "open"
         /\ UNCHANGED <<kind, enc, nullable>>
Close == /\ pc = "open" /\ pc' = "closed" /\ UNCHANGED <<kind, enc, nullable, rows, bufs, disk>>

Done == /\ Emit /\ pc \in {"closed", "refused"}
        /\ PrintT(<<"VEC", ToJson([enc |-> enc, nullable |-> nullable, kind |-> kind,
                                   bufs |-> bufs, refused |-> pc = "refused"])>>)
        /\ pc' = "done" /\ UNCHANGED <<kind, enc, nullable, rows, bufs, disk>>
Next == Ask \/ Write \/ Close \/ Done
Spec == Init /\ [][Next]_vars

Honest == pc = "closed" => disk = rows
RefusedClean == pc \in {"refused", "error"} => disk = <<>>
RawAvailable == enc = Raw => pc \notin {"refused", "error"}
===============================================================================
