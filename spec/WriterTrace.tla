----------------------------- MODULE WriterTrace ----------------------------
(***************************************************************************)
(* Judges recorded histories of a block writer (C15): whenever all calls   *)
(* up to a flush or sync returned success, the file has every byte.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, given, ok, clean, err
vars == <<t, l, given, ok, clean, err>>
T == Traces[t]

Init == t \in 1..Len(Traces) /\ l = 0 /\ given = 0 /\ ok = TRUE /\ clean = "no" /\ err = ""

Calls == SelectSeq(T.log, LAMBDA e : e.op = "api")
Open == /\ l = 0 /\ l' = 1
        /\ err' = IF T.crash # "" THEN T.crash
                  ELSE IF T.soft /\ \E i \in DOMAIN Calls : Calls[i].res # "ok"
                  THEN "a call fails although no file operation does"
                  ELSE ""
        /\ UNCHANGED <<t, given, ok, clean>>

Step ==
  /\ l >= 1 /\ err = "" /\ T.crash = "" /\ l <= Len(T.log)
  /\ LET e == T.log[l] IN
     CASE e.op = "api" ->
            /\ ok' = (ok /\ e.res = "ok")
            /\ given' = IF e.call = "write" THEN given + e.c ELSE given
            /\ err' = IF ok /\ e.res = "ok" /\ e.call = "sync" /\ clean # "yes"
                      THEN "sync returns success, but the file is not synchronised" ELSE ""
            /\ UNCHANGED clean
       [] e.op = "seen" ->
            /\ err' = IF ok /\ e.size # given THEN "bytes are missing in the file"
                      ELSE IF ok /\ ~e.same THEN "the file has other bytes" ELSE ""
            /\ UNCHANGED <<given, ok, clean>>
       [] OTHER ->
            /\ clean' = IF clean = "failed" THEN clean   \* trying again does not help
                        ELSE IF e.call \in {"write", "pwrite"} /\ e.ret > 0 THEN "no"
                        ELSE IF e.call \in {"fsync", "fdatasync"}
                        THEN (IF e.ret = 0 THEN "yes" ELSE "failed") ELSE clean
            /\ err' = "" /\ UNCHANGED <<given, ok>>
  /\ l' = l + 1 /\ UNCHANGED t

Next == Open \/ Step
Spec == Init /\ [][Next]_vars
Conforms == err = ""
=============================================================================
