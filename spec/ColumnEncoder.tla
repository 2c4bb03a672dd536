--------------------------- MODULE ColumnEncoder ----------------------------
(***************************************************************************)
(* Design model of the column encoders (encoding/raw/{primitive,binary}_enc*)
(* and the append_from / append_nulls_from / put_from operations they use):*)
(* the buffer being encoded, the rows held back ("remaining"), the row     *)
(* counter and the announced blocks, one action per step of encode().      *)
(* The invariants are those of Column, which also judge the traces of the  *)
(* implementation; the histories of this model are replayed against it.    *)
(*                                                                         *)
(* An item is a row: 99 (Null) for null, else the length of its value.     *)
(* Bug selects a deviation ("none" for the design): each of them was a     *)
(* defect of the code or is a plausible one, and makes an invariant fail.  *)
(***************************************************************************)
EXTENDS Column, TLC, Json

CONSTANTS Faults,     \* the sink may refuse a block
          Items,      \* the rows to choose from
          MaxRows,    \* rows of the column
          MaxBufs,    \* buffers written
          BlockSizes,
          Bug,
          Emit        \* print every complete history

Null == 99

VARIABLES bs, hist, col, buf, bpos, vpos, rem, nrows, blocks, nfinal, pc,
          refused     \* the sink refused a block
vars == <<bs, hist, col, buf, bpos, vpos, rem, nrows, blocks, nfinal, pc, refused>>

\* ---- sequences of items ----
Vals(s) == SelectSeq(s, LAMBDA x : x # Null)
Bytes(s) == Sum(Vals(s))
RowsOf(s) == [i \in DOMAIN s |-> IF s[i] = Null THEN <<0, 1, 0>> ELSE <<1, 1, s[i]>>]
Nullable == Null \in Items

\* the row after the k-th value that follows row `from`
RowAfter(s, from, k) ==
  IF k = 0 THEN from
  ELSE IF Cardinality({i \in (from + 1)..Len(s) : s[i] # Null}) < k THEN Len(s)
  ELSE LET cnt(j) == Cardinality({i \in (from + 1)..j : s[i] # Null})
       IN CHOOSE j \in (from + 1)..Len(s) : cnt(j) = k /\ s[j] # Null

\* how many of the values v[start+1..] are needed for min bytes; all if too few
Chunk(v, start, min) ==
  LET size(e) == Sum(SubSeq(v, start + 1, e))
      ends == {e \in start..Len(v) : size(e) >= min}
      e == IF ends = {} THEN Len(v) ELSE CHOOSE x \in ends : \A y \in ends : x <= y
  IN IF Bug = "whole_values_only" /\ ends # {} /\ e > start + 1 /\ size(e) > min THEN e - 1 ELSE e

\* the block for the rows s (ending with a value), the first value of which is
\* the one after the values of `before`
Block(s, before, row) ==
  LET k == Len(Vals(s)) IN
  [row |-> row, ok |-> TRUE, n |-> k,
   ids |-> IF k = 0 THEN <<>> ELSE << <<before + 1, before + k>> >>,
   dlen |-> Bytes(s), last |-> IF k = 0 THEN 0 ELSE Vals(s)[k],
   vok |-> TRUE,
   valid |-> IF Nullable THEN Norm([i \in DOMAIN s |-> <<IF s[i] = Null THEN 0 ELSE 1, 1>>]) ELSE <<>>]

TypeOK ==
  /\ bs \in BlockSizes /\ pc \in {"idle", "topup", "loop", "tail", "flushed", "failed"}
  /\ bpos \in 0..MaxRows /\ vpos \in 0..MaxRows /\ nrows \in 0..(3 * MaxRows)
  /\ Len(blocks) <= MaxRows + 1

Init == /\ bs \in BlockSizes /\ hist = <<>> /\ col = <<>> /\ buf = <<>>
        /\ bpos = 0 /\ vpos = 0 /\ rem = <<>> /\ nrows = 0 /\ blocks = <<>>
        /\ nfinal = 0 /\ pc = "idle" /\ refused = FALSE

Bufs == UNION {[1..n -> Items] : n \in 0..MaxRows}

Write == /\ pc = "idle" /\ Len(hist) < MaxBufs
         /\ \E b \in Bufs :
              /\ Len(col) + Len(b) <= MaxRows
              /\ hist' = Append(hist, b) /\ col' = col \o b /\ buf' = b
         /\ bpos' = 0 /\ vpos' = 0
         /\ pc' = IF (IF Bug = "remaining_values_only" THEN Vals(rem) # <<>> ELSE rem # <<>>)
                  THEN "topup" ELSE "loop"
         /\ UNCHANGED <<bs, rem, nrows, blocks, nfinal>>

\* fill up the rows held back
TopUp ==
  /\ pc = "topup"
  /\ LET v == Vals(buf)
         held == IF Bug = "count_instead_of_bytes" THEN Len(Vals(rem)) ELSE Bytes(rem)
         end == Chunk(v, 0, bs - Bytes(rem))
         after == RowAfter(buf, 0, end)
         r == rem \o SubSeq(buf, 1, after)
         nulls == SubSeq(buf, after + 1, Len(buf))
         newsize == IF Bug = "count_instead_of_bytes" THEN Len(Vals(r)) ELSE Bytes(r)
     IN IF newsize < bs
        THEN IF Bug = "count_instead_of_bytes" \/ Bug = "forget_nulls_after_topup"
             THEN \* (the values after `end` are lost as well)
                  /\ rem' = r /\ pc' = "idle" /\ UNCHANGED <<bpos, vpos, nrows, blocks>>
             ELSE /\ rem' = r \o nulls /\ pc' = "idle"
                  /\ UNCHANGED <<bpos, vpos, nrows, blocks>>
        ELSE LET n == nrows + Len(r)
             IN /\ blocks' = Append(blocks, Block(r, NumVals(blocks), n - 1))
                /\ nrows' = n
                /\ rem' = IF Bug = "keep_remaining" THEN r ELSE <<>>
                /\ bpos' = end /\ vpos' = after /\ pc' = "loop"
  /\ UNCHANGED <<bs, hist, col, buf, nfinal>>

\* cut blocks off the buffer
Cut ==
  /\ pc = "loop"
  /\ LET v == Vals(buf)
         end == Chunk(v, bpos, bs)
         size == Sum(SubSeq(v, bpos + 1, end))
         after == RowAfter(buf, vpos, end - bpos)
     IN IF bpos >= Len(v)
        THEN /\ pc' = "tail" /\ UNCHANGED <<bpos, vpos, rem, nrows, blocks>>
        ELSE IF size < bs
        THEN /\ rem' = rem \o SubSeq(buf, vpos + 1, after)
             /\ vpos' = after /\ bpos' = end /\ pc' = "tail"
             /\ UNCHANGED <<nrows, blocks>>
        ELSE LET s == SubSeq(buf, vpos + 1, after)
                 n == nrows + (IF Bug = "absolute_row_count" THEN after ELSE Len(s))
             IN /\ blocks' = Append(blocks, Block(s, NumVals(blocks), n - 1))
                /\ nrows' = n
                /\ bpos' = IF Bug = "relative_end" THEN end - bpos ELSE end
                /\ vpos' = after
                /\ UNCHANGED <<rem, pc>>
  /\ UNCHANGED <<bs, hist, col, buf, nfinal>>

\* the nulls after the last value of the buffer
Tail_ ==
  /\ pc = "tail"
  /\ rem' = IF Bug = "forget_trailing_nulls" THEN rem
            ELSE rem \o SubSeq(buf, vpos + 1, Len(buf))
  /\ pc' = "idle"
  /\ UNCHANGED <<bs, hist, col, buf, bpos, vpos, nrows, blocks, nfinal>>

Flush ==
  /\ pc = "idle"
  /\ LET k == Len(Vals(rem))
         s == SubSeq(rem, 1, RowAfter(rem, 0, k))
         n == nrows + (IF Bug = "flush_counts_all_rows" THEN Len(rem) ELSE Len(s))
     IN IF k > 0
        THEN /\ blocks' = Append(blocks, Block(s, NumVals(blocks), n - 1))
             /\ nrows' = n /\ nfinal' = 1 /\ rem' = <<>>
        ELSE /\ UNCHANGED <<blocks, nrows, nfinal, rem>>
  /\ pc' = "flushed"
  /\ IF Emit THEN PrintT(<<"VEC", ToJson([bs |-> bs, bufs |-> hist])>>) ELSE TRUE
  /\ UNCHANGED <<bs, hist, col, buf, bpos, vpos>>

\* the next step hands a block to the sink
Full(s) == Bytes(s) >= bs
HandsOver ==
  LET v == Vals(buf) IN
  CASE pc = "topup" -> Full(rem \o SubSeq(v, 1, Chunk(v, 0, bs - Bytes(rem))))
    [] pc = "loop"  -> bpos < Len(v) /\ Full(SubSeq(v, bpos + 1, Chunk(v, bpos, bs)))
    [] pc = "idle"  -> Vals(rem) # <<>>
    [] OTHER        -> FALSE

\* the sink refuses the block: the call returns the error
Refuse ==
  /\ Faults /\ HandsOver /\ ~refused /\ refused' = TRUE
  /\ IF Bug = "ignore_refusal" THEN pc' = IF pc = "idle" THEN "flushed" ELSE "idle" ELSE pc' = "failed"
  /\ IF Emit THEN PrintT(<<"VEC", ToJson([bs |-> bs, bufs |-> hist, fail |-> Len(blocks),
                                          flush |-> pc = "idle"])>>) ELSE TRUE
  /\ UNCHANGED <<bs, hist, col, buf, bpos, vpos, rem, nrows, blocks, nfinal>>

Next == \/ (Write \/ TopUp \/ Cut \/ Tail_ \/ Flush) /\ UNCHANGED refused
        \/ Refuse
Spec == Init /\ [][Next]_vars /\ WF_vars((TopUp \/ Cut \/ Tail_) /\ UNCHANGED refused)

\* ---- properties ----
Rows == RowsOf(col)
Settled == pc \in {"idle", "flushed"}
Flushed == pc = "flushed"

Values    == Settled => ValuesErr(Rows, blocks, Flushed) = ""
Prefix    == ~Settled => ValuesErr(Rows, blocks, FALSE) = ""
Validity  == Settled => ValidityErr(Rows, blocks, Nullable, Flushed) = ""
RowIds    == Settled => RowIdErr(Rows, blocks, Nullable, Flushed) = ""
Sizes     == Settled => SizeErr(Rows, blocks, bs, Flushed, nfinal) = ""
\* C15: no call returns success when the sink refused a block, and what was
\* announced before is intact
Reported  == /\ refused => pc = "failed"
             /\ pc = "failed" => ValuesErr(Rows, blocks, FALSE) = ""
\* C05: a write always terminates
Terminates == (pc \in {"topup", "loop", "tail"}) ~> (pc \in {"idle", "failed"})
\* C19: the blocks are a function of the rows: those of writing them at once
Canonical ==
  LET v == Vals(col)
      cuts[k \in 0..Len(v)] ==          \* ends of the blocks after value k
        LET e == Chunk(v, k, bs)
        IN IF k = Len(v) \/ Sum(SubSeq(v, k + 1, e)) < bs THEN <<>> ELSE <<e>> \o cuts[e]
      full == cuts[0]
      ends == IF Flushed /\ Len(v) > (IF full = <<>> THEN 0 ELSE full[Len(full)])
              THEN Append(full, Len(v)) ELSE full
      start(i) == IF i = 1 THEN 0 ELSE ends[i - 1]
      rowAfter(k) == RowAfter(col, 0, k)
  IN Settled => blocks = [i \in DOMAIN ends |->
        Block(SubSeq(col, rowAfter(start(i)) + 1, rowAfter(ends[i])), start(i), rowAfter(ends[i]) - 1)]
=============================================================================
