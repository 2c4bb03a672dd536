----------------------------- MODULE ReaderTrace ----------------------------
(***************************************************************************)
(* Judges recorded batch reads (C13, C14).  A trace has the operations     *)
(* with their shape                                                        *)
(*   ok       inside the file                                              *)
(*   fault    inside the file, but a read of it fails                      *)
(*   bad      reversed or not inside the file                              *)
(* and what a consumer saw: items, pending polls, the end; under a         *)
(* schedule also the reads that were started after every step.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Depth == 2

VARIABLES t, l,
          taken,  \* results received
          must,   \* operations up to this one have to be started
          polled, lost,
          failed, \* operations whose read was made to fail
          err
vars == <<t, l, taken, must, polled, lost, failed, err>>

T == Traces[t]

Init == /\ t \in 1..Len(Traces) /\ l = 0 /\ taken = 0 /\ must = 0 /\ polled = FALSE
        /\ lost = FALSE /\ failed = {} /\ err = ""

N == Len(T.ops)
Sched == T.mode = "sched"

ItemErr(e, k) ==
  IF k > N THEN "more results than operations"
  ELSE LET o == T.ops[k] IN
       IF e.info # o.info THEN "a result carries the user data of another operation"
       ELSE IF e.ok /\ o.shape = "bad" THEN "a range that is not in the file is read"
       ELSE IF e.ok /\ (e.lo # o.start \/ e.hi # o.end) THEN "a result has other bytes than the requested ones"
       ELSE IF ~e.ok /\ o.shape = "ok" /\ k \notin failed THEN "an operation fails although its read does not"
       ELSE ""

Order(e) ==
  IF e.op # "poll" THEN ""
  ELSE IF e.out = "item" THEN ItemErr(e, taken + 1)
  ELSE IF e.out = "end" /\ taken # N THEN "the stream ends before all results"
  ELSE IF e.out = "stall" /\ ~lost THEN "results are missing"
  ELSE ""

Bounds(e, got, need) ==
  IF e.op = "poll" /\ e.out = "stall" THEN "the stream stalls"
  ELSE IF e.op = "poll" /\ e.out = "end" /\ taken # N THEN "the consumer does not receive all results"
  ELSE IF ~Sched THEN ""
  ELSE IF e.outstanding > Depth THEN "more than two reads are outstanding"
  ELSE IF \E i \in DOMAIN e.started : e.started[i] > got + Depth
  THEN "a read is started too far ahead of the consumer"
  ELSE IF ~polled /\ e.op # "poll" /\ e.started # <<>> THEN "a read is started before the stream is polled"
  ELSE IF e.op = "rel" /\ ~e.found THEN "a read that has to be outstanding is not"
  ELSE IF e.op = "poll" /\ \E k \in 1..need :
            T.ops[k].start # T.ops[k].end /\ T.ops[k].shape # "bad"
            /\ \A i \in DOMAIN e.started : e.started[i] # k
  THEN "a pending read keeps the next one from being started"
  ELSE ""

Open == /\ l = 0 /\ l' = 1
        /\ err' = IF T.crash # "" THEN T.crash
                  ELSE IF Prop = "C14" /\ T.max > Depth THEN "more than two reads are outstanding"
                  ELSE IF Prop = "C13" /\ ~T.cut /\ T.len # T.size THEN "the reader reports another length"
                  ELSE IF ~Sched /\ (T.ev = <<>> \/ T.ev[Len(T.ev)].out = "item") THEN "more results than operations"
                  ELSE ""
        /\ UNCHANGED <<t, taken, must, polled, lost, failed>>

Step ==
  /\ l >= 1 /\ err = "" /\ T.crash = "" /\ l <= Len(T.ev)
  /\ LET e == T.ev[l]
         item == e.op = "poll" /\ e.out = "item"
         got == taken + (IF item THEN 1 ELSE 0)
         need == IF e.op = "poll" /\ e.out = "pending"
                 THEN (IF N < got + Depth THEN N ELSE got + Depth) ELSE must
     IN /\ taken' = got /\ must' = need
        /\ polled' = (polled \/ e.op = "poll")
        /\ lost' = (lost \/ (e.op = "rel" /\ ~e.found))
        /\ failed' = IF e.op = "rel" /\ e.act \in {"EIO", "zero"} THEN failed \cup {e.k} ELSE failed
        /\ err' = IF Prop = "C13" THEN Order(e) ELSE Bounds(e, got, need)
  /\ l' = l + 1 /\ UNCHANGED t

Next == Open \/ Step
Spec == Init /\ [][Next]_vars

Conforms == err = ""
=============================================================================
