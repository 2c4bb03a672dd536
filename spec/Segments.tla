------------------------------ MODULE Segments ------------------------------
(***************************************************************************)
(* Several segments in one directory, in any interleaving of their calls.  *)
(* The directory maps names to contents; names come from the ids.          *)
(***************************************************************************)
EXTENDS IndexFile, TLC, Json

CONSTANTS Ids,     \* byte sequences
          N,       \* segments
          Calls,   \* calls of a segment between its creation and the end
          Bug, Emit

VARIABLES id, at, dir, open, sched
vars == <<id, at, dir, open, sched>>

Segs == 1..N
\* "shared" truncates names, "caseless" is a file name that ignores case
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
NameOf(i) ==
  LET b == Base64(id[i]) IN
  IF Bug = "truncated" THEN SubSeq(b, 1, 2)
  ELSE IF Bug = "caseless" THEN [k \in DOMAIN b |-> Lower(b[k])]
  ELSE IF Bug = "constant" THEN <<65>> ELSE b
DataName(i) == <<"dat", NameOf(i)>>
IndexName(i) == IF Bug = "one_file" THEN <<"dat", NameOf(i)>> ELSE <<"idx", NameOf(i)>>

Init == /\ id \in [Segs -> Ids] /\ (\A i, j \in Segs : i # j => id[i] # id[j])
        /\ at = [i \in Segs |-> 0] /\ dir = <<>> /\ open = {} /\ sched = <<>>

Put(d, name, x) == (name :> (IF name \in DOMAIN d THEN Append(d[name], x) ELSE <<x>>)) @@ d
Create(d, name) == (name :> <<>>) @@ d

New(i) == /\ at[i] = 0
          /\ dir' = Put(Put(Create(Create(dir, IndexName(i)), DataName(i)), IndexName(i), <<i, "sig">>),
                        DataName(i), <<i, "sig">>)
Call(i) == /\ at[i] \in 1..Calls /\ dir' = Put(dir, DataName(i), <<i, at[i]>>)
Close(i) == /\ at[i] = Calls + 1 /\ dir' = Put(dir, IndexName(i), <<i, "meta">>)

Step(i) == /\ New(i) \/ Call(i) \/ Close(i)
           /\ at' = [at EXCEPT ![i] = @ + 1] /\ sched' = Append(sched, i - 1)
           /\ UNCHANGED <<id, open>>
Over == \A i \in Segs : at[i] = Calls + 2
Done == /\ Emit /\ Over /\ sched # <<>> /\ PrintT(<<"VEC", ToJson(sched)>>)
        /\ sched' = <<>> /\ UNCHANGED <<id, at, dir, open>>
Next == (\E i \in Segs : Step(i)) \/ Done
Spec == Init /\ [][Next]_vars

Expected(i) == <<<<i, "sig">>>> \o [k \in 1..(IF at[i] > Calls THEN Calls ELSE at[i] - 1) |-> <<i, k>>]
OwnFiles ==
  \A i \in Segs : at[i] > 0 =>
    /\ dir[DataName(i)] = Expected(i)
    /\ dir[IndexName(i)] = <<<<i, "sig">>>> \o (IF at[i] = Calls + 2 THEN <<<<i, "meta">>>> ELSE <<>>)
\* three bytes are four characters: AAAA, AAAa, AAaA, __-_
IdsDef == {<<0, 0, 0>>, <<0, 0, 26>>, <<0, 6, 128>>, <<255, 255, 191>>}
TwoFiles == Cardinality(DOMAIN dir) = 2 * Cardinality({i \in Segs : at[i] > 0})
=============================================================================
