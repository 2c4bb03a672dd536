------------------------------ MODULE RleModel ------------------------------
(***************************************************************************)
(* Design model of encoding/bitmap_rle.rs: the state machine of the        *)
(* encoder on bytes (Init, Literal, StartOfRun, Run), with clear() and     *)
(* reuse.  Bytes are the values of Alphabet; frames are abstract.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json

CONSTANTS Alphabet, MaxLen, Rounds, Bug, Emit

VARIABLES input, state, buffer, repeats, runStart, lastv, frames, flushed, round, hist
vars == <<input, state, buffer, repeats, runStart, lastv, frames, flushed, round, hist>>

Init == /\ input = <<>> /\ state = "Init" /\ buffer = <<>> /\ repeats = 0 /\ runStart = 0
        /\ lastv = 0 /\ frames = <<>> /\ flushed = FALSE /\ round = 1 /\ hist = <<>>

Lit(bs) == IF bs = <<>> THEN <<>> ELSE << <<"lit", bs>> >>

Put(x) ==
  /\ ~flushed /\ Len(input) < MaxLen
  /\ input' = Append(input, x) /\ lastv' = x
  /\ CASE state = "Init" ->
            /\ state' = "Literal" /\ buffer' = Append(buffer, x)
            /\ UNCHANGED <<repeats, runStart, frames>>
       [] state = "Literal" ->
            /\ buffer' = Append(buffer, x)
            /\ IF lastv = x
               THEN state' = "StartOfRun" /\ repeats' = 2 /\ runStart' = Len(buffer) - 1
               ELSE UNCHANGED <<state, repeats, runStart>>
            /\ UNCHANGED frames
       [] state = "StartOfRun" ->
            IF lastv # x
            THEN /\ buffer' = Append(buffer, x) /\ state' = "Literal" /\ repeats' = 0 /\ runStart' = 0
                 /\ UNCHANGED frames
            ELSE \* the third of its kind: what precedes the run is a literal
                 /\ frames' = frames \o Lit(SubSeq(buffer, 1, IF Bug = "run_start" /\ runStart > 1
                                                              THEN runStart - 1 ELSE runStart))
                 /\ buffer' = <<>> /\ repeats' = 3 /\ state' = "Run"
                 /\ UNCHANGED runStart
       [] state = "Run" ->
            IF lastv # x
            THEN /\ frames' = Append(frames, <<"run", lastv, repeats>>)
                 /\ buffer' = <<x>> /\ state' = "Literal" /\ repeats' = 0 /\ runStart' = 0
            ELSE /\ repeats' = repeats + 1 /\ UNCHANGED <<state, buffer, runStart, frames>>
  /\ UNCHANGED <<flushed, round, hist>>

Flush ==
  /\ ~flushed /\ flushed' = TRUE
  /\ frames' = CASE state = "Init" -> frames
                 [] state = "Run" -> IF Bug = "flush_run" THEN frames
                                     ELSE Append(frames, <<"run", lastv, repeats>>)
                 [] OTHER -> frames \o Lit(buffer)
  /\ hist' = Append(hist, input)
  /\ IF Emit /\ round = Rounds THEN PrintT(<<"VEC", ToJson(hist')>>) ELSE TRUE
  /\ UNCHANGED <<input, state, buffer, repeats, runStart, lastv, round>>

Clear ==
  /\ flushed /\ round < Rounds
  /\ round' = round + 1 /\ flushed' = FALSE /\ input' = <<>> /\ frames' = <<>>
  /\ state' = IF Bug = "clear_state" THEN state ELSE "Init"
  /\ buffer' = IF Bug = "clear_buffer" THEN buffer ELSE <<>>
  /\ repeats' = 0 /\ runStart' = 0
  /\ UNCHANGED <<lastv, hist>>

Next == (\E x \in Alphabet : Put(x)) \/ Flush \/ Clear
Spec == Init /\ [][Next]_vars

Rep(x, n) == [i \in 1..n |-> x]
Decoded == FoldLeft(LAMBDA a, f : IF f[1] = "lit" THEN a \o f[2] ELSE a \o Rep(f[2], f[3]), <<>>, frames)

\* maximal runs of equal bytes
ByteRuns(s) ==
  FoldLeft(LAMBDA a, x : IF a # <<>> /\ a[Len(a)][1] = x
                         THEN [a EXCEPT ![Len(a)] = <<x, @[2] + 1>>] ELSE Append(a, <<x, 1>>), <<>>, s)
LongRuns(s) == SelectSeq(ByteRuns(s), LAMBDA r : r[2] >= 3)
RunFrames == SelectSeq(frames, LAMBDA f : f[1] = "run")
LitBytes == FoldLeft(LAMBDA a, f : IF f[1] = "lit" THEN a + Len(f[2]) ELSE a, 0, frames)
ShortBytes(s) == FoldLeft(LAMBDA a, r : IF r[2] < 3 THEN a + r[2] ELSE a, 0, ByteRuns(s))

Lossless == flushed => Decoded = input
Compact == flushed => /\ [i \in DOMAIN RunFrames |-> <<RunFrames[i][2], RunFrames[i][3]>>] = LongRuns(input)
                      /\ LitBytes = ShortBytes(input)
\* literals are as long as possible: never two in a row
Maximal == \A i \in 1..(Len(frames) - 1) : ~(frames[i][1] = "lit" /\ frames[i + 1][1] = "lit")
=============================================================================
