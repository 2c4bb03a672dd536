------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* A whole segment, from the rows given to its column writers to the rows  *)
(* a reader gets back: columns are opened one after the other, buffers are *)
(* written to them, they are closed or abandoned, the segment is closed,   *)
(* and the blocks of every closed column are read back by its block index. *)
(*                                                                         *)
(* The data file is a sequence of units.  A block of d units of values     *)
(* takes d + 1 of them, and a piece of the file can be decoded only if it  *)
(* is exactly one block: a wrong offset, a missing block or a block of     *)
(* another column shows when the file is read.                             *)
(*                                                                         *)
(* ColumnEncoder describes how the encoder comes to its blocks and that    *)
(* they are a function of the rows; here the blocks are that function      *)
(* (Cuts), and the subject is what surrounds the encoder: the data writer, *)
(* the block index that is shared by the columns, the metadata.            *)
(***************************************************************************)
EXTENDS Column, TLC, Json

CONSTANTS MaxCols, MaxRows, MaxBufs, Lens, BS, Bug, Emit

Null == 99
SigLen == 1          \* units of the signature

VARIABLES file,      \* units of the data file: <<column, block, piece>>
          index,     \* the block index of the segment writer: <<row, offset>>
          pend,      \* rows the encoder holds back
          nrows,     \* rows in the blocks of the column
          nblk,      \* blocks of the column
          cols,      \* the columns opened so far
          meta,      \* columns in the metadata, with their block index
          blocks,    \* what was written: block -> its rows and first value
          state      \* "idle", "column", "closed"
vars == <<file, index, pend, nrows, nblk, cols, meta, blocks, state>>

Vals(s) == SelectSeq(s, LAMBDA x : x # Null)
Bytes(s) == Sum(Vals(s))
RowsOf(s) == [i \in DOMAIN s |-> IF s[i] = Null THEN <<0, 1, 0>> ELSE <<1, 1, s[i]>>]

\* rows s from row `from`: the first row that completes a block, or 0
FirstCut(s, from) ==
  LET ends == {e \in (from + 1)..Len(s) : s[e] # Null /\ Bytes(SubSeq(s, from + 1, e)) >= BS}
  IN IF ends = {} THEN 0 ELSE CHOOSE e \in ends : \A x \in ends : e <= x

RECURSIVE CutsFrom(_, _)
CutsFrom(s, from) == LET e == FirstCut(s, from) IN IF e = 0 THEN <<>> ELSE <<e>> \o CutsFrom(s, e)
Cuts(s) == CutsFrom(s, 0)

LastVal(s) == LET is == {i \in DOMAIN s : s[i] # Null}
              IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : j <= i

Init == /\ file = [i \in 1..SigLen |-> <<0, 0, i>>]
        /\ index = <<>> /\ pend = <<>> /\ nrows = 0 /\ nblk = 0
        /\ cols = <<>> /\ meta = <<>> /\ blocks = <<>> /\ state = "idle"

Cur == Len(cols)
Total == FoldLeft(LAMBDA a, c : a + Len(c.rows), 0, cols)

Open == /\ state = "idle" /\ Cur < MaxCols
        /\ \E nl \in BOOLEAN :
             cols' = Append(cols, [nullable |-> nl, rows |-> <<>>, bufs |-> <<>>, closed |-> FALSE])
        /\ index' = IF Bug = "index_not_cleared" THEN index ELSE <<>>
        /\ pend' = IF Bug = "encoder_shared" THEN pend ELSE <<>>
        /\ nrows' = IF Bug = "rows_continue" THEN nrows ELSE 0
        /\ nblk' = 0
        /\ meta' = IF Bug = "registered_at_open" THEN Append(meta, [col |-> Cur + 1, index |-> <<>>]) ELSE meta
        /\ state' = "column"
        /\ UNCHANGED <<file, blocks>>

\* what writing the row sequences bs as blocks does to file and index
Units(c, k, s) == [i \in 1..(Bytes(s) + 1) |-> <<c, k, i>>]
Add(acc, s) ==
  LET k == acc.n + 1
      f == acc.file \o Units(Cur, k, s)
      rows == acc.rows + Len(s)
      off == IF Bug = "offset_before_write" THEN Len(acc.file) ELSE Len(f)
  IN [n |-> k, rows |-> rows,
      file |-> IF Bug = "data_at_column_start" /\ k = 1 THEN SubSeq(acc.file, 1, SigLen) \o Units(Cur, k, s) ELSE f,
      index |-> Append(acc.index, <<rows - 1, off>>),
      blocks |-> (<<Cur, k>> :> s) @@ acc.blocks]
After(ss) == FoldLeft(Add, [n |-> nblk, rows |-> nrows, file |-> file, index |-> index, blocks |-> blocks], ss)
Put(r) == /\ nblk' = r.n /\ nrows' = r.rows /\ file' = r.file /\ blocks' = r.blocks /\ index' = r.index

Bufs(nl) == UNION {[1..n -> Lens \cup (IF nl THEN {Null} ELSE {})] : n \in 0..MaxRows}

Write == /\ state = "column" /\ Len(cols[Cur].bufs) < MaxBufs
         /\ \E b \in Bufs(cols[Cur].nullable) :
              /\ Total + Len(b) <= MaxRows
              /\ cols' = [cols EXCEPT ![Cur].rows = @ \o b, ![Cur].bufs = Append(@, b)]
              /\ LET s == pend \o b
                     es == Cuts(s)
                     from(i) == IF i = 1 THEN 1 ELSE es[i - 1] + 1
                     last == IF es = <<>> THEN 0 ELSE es[Len(es)]
                     ss == [i \in DOMAIN es |-> SubSeq(s, from(i), es[i])]
                 IN /\ Put(After(ss))
                    /\ pend' = SubSeq(s, last + 1, Len(s))
         /\ UNCHANGED <<meta, state>>

\* close the column: the rows held back become a block, the block index is
\* written, the column is registered.  Nulls after the last value stay implied
CloseCol ==
  /\ state = "column"
  /\ LET ss == IF LastVal(pend) = 0 \/ Bug = "close_keeps_rows" THEN <<>> ELSE << SubSeq(pend, 1, LastVal(pend)) >>
         r == After(ss)
         ix == r.index
     IN /\ Put(r)
        /\ meta' = IF Bug = "registered_at_open" THEN [meta EXCEPT ![Len(meta)].index = ix]
                   ELSE IF Bug = "only_with_blocks" /\ ix = <<>> THEN meta
                   ELSE Append(meta, [col |-> Cur, index |-> IF Bug = "index_before_last" THEN index ELSE ix])
        /\ pend' = IF Bug = "encoder_shared" THEN pend ELSE <<>>
  /\ cols' = [cols EXCEPT ![Cur].closed = TRUE]
  /\ state' = "idle"

\* the column writer is dropped: its blocks stay, the column does not exist
Abandon == /\ state = "column" /\ state' = "idle"
           /\ UNCHANGED <<file, index, pend, nrows, nblk, cols, meta, blocks>>

Hist == [cols |-> [i \in DOMAIN cols |->
            [nullable |-> cols[i].nullable, bufs |-> cols[i].bufs, closed |-> cols[i].closed]]]
Close == /\ state = "idle" /\ state' = "closed"
         /\ IF Emit THEN PrintT(<<"VEC", ToJson(Hist)>>) ELSE TRUE
         /\ UNCHANGED <<file, index, pend, nrows, nblk, cols, meta, blocks>>

Next == Open \/ Write \/ CloseCol \/ Abandon \/ Close
Spec == Init /\ [][Next]_vars

\* ---- reading ---------------------------------------------------------------
\* the block that is exactly file[from+1..to], or <<0, 0>>
Decode(from, to) ==
  IF ~(SigLen <= from /\ from < to /\ to <= Len(file)) THEN <<0, 0>>
  ELSE LET c == file[from + 1][1]
           k == file[from + 1][2]
       IN IF <<c, k>> \in DOMAIN blocks /\ SubSeq(file, from + 1, to) = Units(c, k, blocks[<<c, k>>])
          THEN <<c, k>> ELSE <<0, 0>>

\* where the first block of the i-th column begins: after the blocks of the
\* columns before it
StartOf(c) == LET before == {i \in DOMAIN file : file[i][1] < c}
              IN Cardinality(before)

ReadBack(m) ==
  LET start(i) == IF i = 1 THEN StartOf(m.col) ELSE m.index[i - 1][2]
      at(i) == Decode(start(i), m.index[i][2])
      valsBefore(c, k) == Sum([j \in 1..(k - 1) |-> Len(Vals(blocks[<<c, j>>]))])
  IN [i \in DOMAIN m.index |->
        LET b == at(i) IN
        IF b = <<0, 0>> \/ b[1] # m.col
        THEN [row |-> m.index[i][1], ok |-> FALSE, n |-> 0, ids |-> <<>>, dlen |-> 0, last |-> 0,
              vok |-> FALSE, valid |-> <<>>]
        ELSE LET s == blocks[b]
                 v == Vals(s)
                 p == valsBefore(b[1], b[2])
             IN [row |-> m.index[i][1], ok |-> TRUE, n |-> Len(v), ids |-> << <<p + 1, p + Len(v)>> >>,
                 dlen |-> Sum(v), last |-> v[Len(v)], vok |-> TRUE,
                 valid |-> IF cols[m.col].nullable
                           THEN Norm([j \in DOMAIN s |-> <<IF s[j] = Null THEN 0 ELSE 1, 1>>]) ELSE <<>>]]

\* ---- properties --------------------------------------------------------------
TypeOK == /\ state \in {"idle", "column", "closed"} /\ Len(cols) <= MaxCols /\ Total <= MaxRows

\* the file is the signature and then the blocks, one after the other
DataFile == /\ SubSeq(file, 1, SigLen) = [i \in 1..SigLen |-> <<0, 0, i>>]
            /\ \A i \in (SigLen + 1)..Len(file) :
                 \/ file[i][3] = 1 /\ (i = SigLen + 1 \/ file[i - 1][3] = Bytes(blocks[<<file[i - 1][1], file[i - 1][2]>>]) + 1)
                 \/ i > SigLen + 1 /\ file[i][3] = file[i - 1][3] + 1 /\ file[i][1] = file[i - 1][1] /\ file[i][2] = file[i - 1][2]
            /\ Len(file) = SigLen + FoldLeft(LAMBDA a, b : a + Bytes(blocks[b]) + 1, 0, SetToSeq(DOMAIN blocks))

\* C11: the columns of the metadata are the closed ones
Described == LET cs == SelectSeq([i \in DOMAIN cols |-> i], LAMBDA i : cols[i].closed)
             IN state # "column" => [i \in DOMAIN meta |-> meta[i].col] = cs

\* C10, C04, C05, C01..C03: what is read back is what was written
Readable ==
  \A i \in DOMAIN meta :
    LET m == meta[i]
        c == cols[m.col]
        rows == RowsOf(c.rows)
        bs == ReadBack(m)
        nf == IF bs # <<>> /\ bs[Len(bs)].dlen < BS THEN 1 ELSE 0
    IN c.closed =>
         /\ ValuesErr(rows, bs, TRUE) = ""
         /\ ValidityErr(rows, bs, c.nullable, TRUE) = ""
         /\ RowIdErr(rows, bs, c.nullable, TRUE) = ""
         /\ SizeErr(rows, bs, BS, TRUE, nf) = ""

\* every block belongs to exactly one column and, if that is closed, to its index
NoOrphans ==
  \A b \in DOMAIN blocks :
    state # "column" /\ cols[b[1]].closed =>
      \E i \in DOMAIN meta : meta[i].col = b[1] /\ Len(meta[i].index) >= b[2]
=============================================================================
