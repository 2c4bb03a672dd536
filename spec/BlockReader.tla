----------------------------- MODULE BlockReader ----------------------------
(***************************************************************************)
(* Design of the batch reads of io/unix_disk_block_reader.rs: a consumer   *)
(* polls a stream over N read operations; polling pulls operations into a  *)
(* window of Depth reads in flight, starts them in the background, and     *)
(* yields results in the order of the request.  Background reads finish in *)
(* any order, with any result.                                             *)
(*                                                                         *)
(* Kinds of operations: "ok" reads something; "free" finishes without a    *)
(* read of its own accord (an empty range, or one that is not in the       *)
(* file).  A behaviour doubles as a schedule for the implementation:       *)
(* polls, completions of reads with a result, and dropping the stream.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS N, Kinds, Acts, Depth,
          Spurious,   \* the consumer also polls without having been woken
          Drops,      \* the consumer may drop the stream
          Bug, Emit

VARIABLES kind,   \* of every operation
          pulled, \* operations taken from the request
          q,      \* operations in the window
          st,     \* of every operation: idle, run, done
          res,    \* result of the operations that are done
          out,    \* what was yielded
          ended, dropped, polled, awake,
          must,   \* operations up to this one have to be started by now
          quiet,  \* nothing happened since the last poll
          hist
vars == <<kind, pulled, q, st, res, out, ended, dropped, polled, awake, must, quiet, hist>>

Ops == 1..N
Window == IF Bug = "unbounded" THEN N ELSE IF Bug = "serial" THEN 1 ELSE Depth

Init ==
  /\ kind \in [Ops -> Kinds] /\ pulled = 0 /\ q = <<>> /\ out = <<>>
  /\ st = [k \in Ops |-> IF Bug = "eager" /\ k = 1 THEN "run" ELSE "idle"]
  /\ res = [k \in Ops |-> "none"]
  /\ ended = FALSE /\ dropped = FALSE /\ polled = FALSE /\ awake = TRUE /\ must = 0 /\ quiet = FALSE
  /\ hist = <<[op |-> "look", started |-> 0]>>

Elems(s) == {s[i] : i \in DOMAIN s}

\* operations that had to be started: those that read something
Started(m) == Cardinality({k \in 1..m : kind[k] = "ok"})
Least(a, b) == IF a < b THEN a ELSE b

\* polling starts the operations of the window; those without a read are done
Begin(S, s) == [k \in Ops |-> IF k \in S /\ s[k] = "idle"
                              THEN IF kind[k] = "ok" THEN "run" ELSE "done" ELSE s[k]]
BeginRes(S) == [k \in Ops |-> IF k \in S /\ st[k] = "idle" /\ kind[k] # "ok" THEN "free" ELSE res[k]]

Log(step, m) == hist' = IF Emit THEN Append(hist, step @@ [started |-> Started(m)]) ELSE hist

Poll ==
  /\ ~ended /\ ~dropped
  /\ awake \/ (Spurious /\ ~quiet)
  /\ LET add  == Least(Window - Len(q), N - pulled)
         q1   == q \o [i \in 1..add |-> pulled + i]
         s1   == Begin(Elems(q1), st)
         \* reads that are done are noticed before others are started
         S    == IF q1 # <<>> /\ s1[q1[1]] = "done" THEN {{q1[1]}, Elems(q1)} ELSE {Elems(q1)}
         skip(k) == Bug = "error_drops" /\ res[k] = "EIO"
     IN \E A \in S :
        LET s2 == Begin(A, st)
            r2 == BeginRes(A)
            ready == IF q1 = <<>> THEN {}
                     ELSE IF Bug = "unordered" THEN {i \in 1..Len(q1) : s2[q1[i]] = "done"}
                     ELSE IF s2[q1[1]] = "done" THEN {1} ELSE {}
        IN /\ st' = s2 /\ res' = r2 /\ pulled' = pulled + add /\ polled' = TRUE
           /\ IF q1 = <<>>
              THEN /\ ended' = TRUE /\ q' = q1 /\ awake' = FALSE /\ quiet' = TRUE /\ must' = must
                   /\ Log([op |-> "poll", out |-> "end"], must) /\ UNCHANGED out
              ELSE IF ready = {}
              THEN /\ q' = q1 /\ awake' = FALSE /\ quiet' = TRUE /\ UNCHANGED <<out, ended>>
                   /\ must' = Least(N, Len(out) + Depth)
                   /\ Log([op |-> "poll", out |-> "pending"], Least(N, Len(out) + Depth))
              ELSE \E i \in ready :
                   /\ out' = IF skip(q1[i]) THEN out ELSE Append(out, <<q1[i], r2[q1[i]]>>)
                   /\ q' = SubSeq(q1, 1, i - 1) \o SubSeq(q1, i + 1, Len(q1))
                   /\ awake' = TRUE /\ quiet' = FALSE
                   /\ ended' = (Bug = "error_ends" /\ r2[q1[i]] = "EIO")
                   /\ must' = must
                   /\ Log([op |-> "poll", out |-> "item"], must)
  /\ UNCHANGED <<kind, dropped>>

\* a read finishes; only reads that are known to have started can be released
Finish(k, a) ==
  /\ st[k] = "run" /\ (Emit => k <= must)
  /\ st' = [st EXCEPT ![k] = "done"] /\ res' = [res EXCEPT ![k] = a]
  /\ awake' = IF Bug = "no_wake" /\ k # q[1] THEN awake ELSE IF Bug = "never_wakes" THEN awake ELSE TRUE
  /\ quiet' = FALSE
  /\ Log([op |-> "rel", k |-> k, act |-> a], must)
  /\ UNCHANGED <<kind, pulled, q, out, ended, dropped, polled, must>>

Drop ==
  /\ Drops /\ ~dropped /\ ~ended /\ dropped' = TRUE
  /\ Log([op |-> "drop"], must)
  /\ UNCHANGED <<kind, pulled, q, st, res, out, ended, polled, awake, must, quiet>>

Over == ended \/ dropped
Done == /\ Emit /\ Over /\ hist # <<>>
        /\ PrintT(<<"VEC", ToJson([kind |-> kind, steps |-> hist])>>)
        /\ hist' = <<>>
        /\ UNCHANGED <<kind, pulled, q, st, res, out, ended, dropped, polled, awake, must, quiet>>

Next == \/ ~(Emit /\ Over) /\ (Poll \/ Drop \/ \E k \in Ops, a \in Acts : Finish(k, a))
        \/ Done

Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Poll) /\ \A k \in Ops : WF_vars(\E a \in Acts : Finish(k, a))

\* ---- properties -------------------------------------------------------------
Outstanding == {k \in Ops : st[k] = "run"}
\* C13: one result per operation, in order, with its own result
InOrder == \A i \in 1..Len(out) : out[i][1] = i /\ out[i][2] = res[i]
Complete == ended => Len(out) = N
\* C14
InFlight  == Cardinality(Outstanding) <= Depth
Buffered  == \A k \in Ops : st[k] # "idle" => k <= Len(out) + Depth
Lazy      == ~polled => \A k \in Ops : st[k] = "idle"
ReadAhead == \A k \in 1..must : st[k] # "idle"
AfterDrop == [][dropped => \A k \in Ops : st[k] = "idle" => st'[k] = "idle"]_vars
Progress  == <>(Over)
=============================================================================
