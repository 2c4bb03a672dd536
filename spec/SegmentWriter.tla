---------------------------- MODULE SegmentWriter ---------------------------
(***************************************************************************)
(* Design of writing a segment: a caller's operations on two files whose   *)
(* writes are performed one at a time in the background (a write returns   *)
(* when its last chunk was handed over, and reports the error of an        *)
(* earlier one).  The state of the files on disk is what remains if the    *)
(* process is killed in that state; what was synchronised is what remains  *)
(* after a power loss.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS MaxBlocks,   \* blocks of one or two chunks
          MaxFaults, Bug, Emit

VARIABLES blocks, pc, part,       \* the program, where the caller is
          disk, given, busy, bad, \* per file
          synced, result, faults,
          nth, over, env          \* writes performed, and those of the other file meanwhile
vars == <<blocks, pc, part, disk, given, busy, bad, synced, result, faults, nth, over, env>>

Blocks == UNION {[1..n -> {1, 2}] : n \in 0..MaxBlocks}

Files == {"idx", "dat"}
Other(f) == IF f = "idx" THEN "dat" ELSE "idx"

DataChunks == FoldLeft(LAMBDA a, n : a + n, 1, blocks)
IndexChunks == 3   \* signature, metadata, footer

\* the operations of the caller: <<operation, file, chunks>>
Program ==
  LET flush(f, b) == IF Bug \in {b, "sync_without_flush"} THEN <<>> ELSE << <<"flush", f, 0>> >>
      sync(f, b) == IF Bug = b THEN <<>>
                    ELSE (IF Bug = "sync_without_flush" THEN <<>> ELSE << <<"flush", f, 0>> >>)
                         \o << <<"sync", f, 0>> >>
      meta == << <<"write", "idx", 1>>, <<"write", "idx", 1>> >>
  IN << <<"write", "idx", 1>>, <<"write", "dat", 1>> >>
     \o [i \in DOMAIN blocks |-> <<"write", "dat", blocks[i]>>]
     \o (IF Bug = "flush_after_footer" THEN meta \o flush("dat", "") ELSE flush("dat", "no_data_flush") \o meta)
     \o flush("idx", "no_index_flush")
     \o << <<"closed", "idx", 0>> >>
     \o sync("idx", "sync_data_only") \o sync("dat", "sync_index_only")
     \o << <<"synced", "idx", 0>> >>

PerFile(x) == [f \in Files |-> x]
Init ==
  /\ blocks \in Blocks /\ pc = 1 /\ part = 0
  /\ disk = PerFile(<<>>) /\ given = PerFile(0) /\ busy = PerFile(0) /\ bad = PerFile(FALSE)
  /\ synced = PerFile(<<>>) /\ result = "running" /\ faults = 0
  /\ nth = PerFile(0) /\ over = PerFile(0) /\ env = <<>>

Op == Program[pc]
Running == result \in {"running", "closed"} /\ pc <= Len(Program)

\* an operation on a file waits for the write in progress, and reports its error
Ready(f) == busy[f] = 0

Caller ==
  /\ Running
  /\ LET o == Op[1]  f == Op[2] IN
     \/ /\ o = "closed" /\ result' = "closed" /\ pc' = pc + 1
        /\ UNCHANGED <<part, given, busy, bad, synced>>
     \/ /\ o = "synced" /\ result' = "synced" /\ pc' = pc + 1
        /\ UNCHANGED <<part, given, busy, bad, synced>>
     \/ /\ o \in {"write", "flush"} /\ Ready(f) /\ bad[f] /\ Bug # "swallow"
        /\ result' = "error" /\ UNCHANGED <<pc, part, given, busy, bad, synced>>
     \/ /\ o = "write" /\ Ready(f) /\ (~bad[f] \/ Bug = "swallow")
        /\ given' = [given EXCEPT ![f] = @ + 1]
        /\ busy' = [busy EXCEPT ![f] = given[f] + 1]
        /\ bad' = [bad EXCEPT ![f] = FALSE]
        /\ IF part + 1 = Op[3] THEN pc' = pc + 1 /\ part' = 0 ELSE pc' = pc /\ part' = part + 1
        /\ UNCHANGED <<synced, result>>
     \/ /\ o = "flush" /\ Ready(f) /\ (~bad[f] \/ Bug = "swallow")
        /\ pc' = pc + 1 /\ UNCHANGED <<part, given, busy, bad, synced, result>>
     \/ \* does not look at errors of writes
        /\ o = "sync" /\ Ready(f)
        /\ synced' = [synced EXCEPT ![f] = disk[f]]
        /\ pc' = pc + 1 /\ UNCHANGED <<part, given, busy, bad, result>>
     \/ \* the synchronisation fails
        /\ o = "sync" /\ Ready(f) /\ faults < MaxFaults /\ result' = "error"
        /\ UNCHANGED <<pc, part, given, busy, bad, synced>>
  /\ UNCHANGED <<blocks, disk, faults, nth, over, env>>

\* a write in the background ends
Background(f, ok) ==
  /\ busy[f] # 0 /\ (ok \/ faults < MaxFaults)
  /\ disk' = IF ok THEN [disk EXCEPT ![f] = Append(@, busy[f])] ELSE disk
  /\ bad' = IF ok THEN bad ELSE [bad EXCEPT ![f] = TRUE]
  /\ faults' = IF ok THEN faults ELSE faults + 1
  /\ busy' = [busy EXCEPT ![f] = 0]
  /\ nth' = [nth EXCEPT ![f] = @ + 1]
  /\ over' = [over EXCEPT ![f] = 0, ![Other(f)] = IF busy[Other(f)] # 0 THEN @ + 1 ELSE 0]
  /\ env' = IF ok /\ over[f] = 0 THEN env
            ELSE Append(env, [file |-> f, nth |-> nth[f] + 1, ok |-> ok, other |-> over[f]])
  /\ UNCHANGED <<blocks, pc, part, given, synced, result>>

Stop == result \in {"synced", "error"} /\ busy = PerFile(0)
Done == /\ Emit /\ Stop /\ blocks # <<0>>
        /\ PrintT(<<"VEC", ToJson([blocks |-> blocks, env |-> env, result |-> result])>>)
        /\ blocks' = <<0>>
        /\ UNCHANGED <<pc, part, disk, given, busy, bad, synced, result, faults, nth, over, env>>

Next == \/ blocks # <<0>> /\ (Caller \/ \E f \in Files, ok \in BOOLEAN : Background(f, ok))
        \/ Done
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Caller) /\ \A f \in Files : WF_vars(\E ok \in BOOLEAN : Background(f, ok))

Upto(n) == [i \in 1..n |-> i]
Footer == Len(disk["idx"]) > 0 /\ disk["idx"][Len(disk["idx"])] = IndexChunks

\* C17: killed at any moment
FooterImpliesData == blocks # <<0>> /\ Footer => disk["dat"] = Upto(DataChunks)
\* C15
NothingLost == blocks # <<0>> /\ result \in {"closed", "synced"}
                 => disk["dat"] = Upto(DataChunks) /\ disk["idx"] = Upto(IndexChunks)
\* C16
Durable == blocks # <<0>> /\ result = "synced"
                 => synced["dat"] = Upto(DataChunks) /\ synced["idx"] = Upto(IndexChunks)
\* every call returns
Returns == <>(result \in {"synced", "error"})
=============================================================================
