------------------------------ MODULE RleTrace ------------------------------
(***************************************************************************)
(* Judges recorded uses of the validity bitmap encoder and decoder (C06):  *)
(* bits put one by one or from ranges of bitmaps, flushes and clears.      *)
(* given: the bits put since the last clear, as runs.                      *)
(***************************************************************************)
EXTENDS BlockFormat, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, given, err
vars == <<t, l, given, err>>
T == Traces[t]

Init == t \in 1..Len(Traces) /\ l = 0 /\ given = <<>> /\ err = ""

Total(runs) == FoldLeft(LAMBDA a, r : a + r[2], 0, runs)
Put(runs, more) == FoldLeft(LAMBDA a, r : BitRun(a, r[1], r[2]), runs, more)

\* the bits from `start` up to and including the num-th set one
TakeOnes(runs, start, num) ==
  FoldLeft(LAMBDA a, r :
      LET skip == IF a.skip < r[2] THEN a.skip ELSE r[2]
          n == r[2] - skip
          k == IF a.num = 0 THEN 0 ELSE IF r[1] = 0 THEN n ELSE IF n < a.num THEN n ELSE a.num
      IN [skip |-> a.skip - skip, num |-> a.num - r[1] * k,
          acc |-> BitRun(a.acc, r[1], k), end |-> a.end + k],
    [skip |-> start, num |-> num, acc |-> <<>>, end |-> start], runs)

\* set positions as intervals
SetOf(runs) ==
  FoldLeft(LAMBDA a, r : [pos |-> a.pos + r[2],
                          set |-> IF r[1] = 1 THEN Append(a.set, <<a.pos, a.pos + r[2] - 1>>) ELSE a.set],
           [pos |-> 0, set |-> <<>>], runs).set

\* maximal runs of equal bytes over the frames
ByteRun(acc, x, n) ==
  IF n = 0 THEN acc
  ELSE IF Len(acc) > 0 /\ acc[Len(acc)][1] = x
       THEN [acc EXCEPT ![Len(acc)] = <<x, @[2] + n>>] ELSE Append(acc, <<x, n>>)
ByteRuns(frames) ==
  FoldLeft(LAMBDA a, f : IF f[1] = "run" THEN ByteRun(a, f[2], f[3])
                         ELSE FoldLeft(LAMBDA b, x : ByteRun(b, x, 1), a, f[2]), <<>>, frames)

FlushErr(e) ==
  LET f == Frames(e.bytes, 1, <<>>)
      bits == FoldLeft(FrameBits, <<>>, f.frames)
      pad == Total(bits) - Total(given)
      runs == ByteRuns(f.frames)
      long == SelectSeq(runs, LAMBDA r : r[2] >= 3)
      rf == SelectSeq(f.frames, LAMBDA x : x[1] = "run")
      lits == FoldLeft(LAMBDA a, x : IF x[1] = "lit" THEN a + x[3] ELSE a, 0, f.frames)
      short == FoldLeft(LAMBDA a, r : IF r[2] < 3 THEN a + r[2] ELSE a, 0, runs)
  IN IF ~f.ok THEN "the flushed bytes are not a sequence of frames"
     ELSE IF pad < 0 \/ pad > 7 \/ BitRun(given, 0, pad) # bits
     THEN "the frames do not hold the bits that were put"
     ELSE IF e.dec # "ok" THEN "the decoder fails: " \o e.dec
     ELSE IF e.n # Ones(given) \/ e.set # SubSeq(SetOf(given), 1, IF Len(SetOf(given)) < 2000 THEN Len(SetOf(given)) ELSE 2000)
     THEN "the decoder gives other positions"
     ELSE IF [i \in DOMAIN rf |-> <<rf[i][2], rf[i][3]>>] # long
     THEN "a run of three or more equal bytes is not one frame"
     ELSE IF lits # short THEN "a byte is stored more than once"
     ELSE ""

Step(e) ==
  CASE e.crash # "" -> [given |-> given, err |-> e.op \o ": " \o e.crash]
    [] e.op = "put" -> [given |-> Put(given, e.runs), err |-> ""]
    [] e.op = "from" ->
         LET r == TakeOnes(e.runs, e.start, e.num)
         IN [given |-> Put(given, r.acc),
             err |-> IF e.ret # r.end THEN "putting a range ends at the wrong position" ELSE ""]
    [] e.op = "clear" -> [given |-> <<>>, err |-> ""]
    [] e.op = "flush" -> [given |-> given, err |-> FlushErr(e)]

Open == /\ l = 0 /\ l' = 1 /\ err' = T.crash /\ UNCHANGED <<t, given>>
Call == /\ l >= 1 /\ err = "" /\ l <= Len(T.ev)
        /\ LET r == Step(T.ev[l]) IN given' = r.given /\ err' = r.err
        /\ l' = l + 1 /\ UNCHANGED t
Next == Open \/ Call
Spec == Init /\ [][Next]_vars
Conforms == err = ""
=============================================================================
