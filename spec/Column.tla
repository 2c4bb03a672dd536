------------------------------- MODULE Column -------------------------------
(***************************************************************************)
(* What a column is, and what its sequence of blocks has to be.            *)
(*                                                                         *)
(* A column is a sequence of rows, written as runs <<kind, n, len>>:       *)
(* n consecutive rows that are null (kind 0) or values of len bytes        *)
(* (kind 1).  Values are identified by their ordinal (from 1).             *)
(*                                                                         *)
(* A block, as announced to the block sink and decoded, is a record        *)
(*   row    row id announced for the block                                 *)
(*   ok     its value data could be decoded                                *)
(*   n      number of its values                                           *)
(*   ids    the ordinals of its values, as intervals <<first, last>>       *)
(*   dlen   bytes of value data                                            *)
(*   last   length of its last value                                       *)
(*   vok    its validity information could be decoded                      *)
(*   valid  its validity, as runs <<bit, n>>, up to its last set bit       *)
(*                                                                         *)
(* The operators below are used as invariants of the design model          *)
(* (ColumnEncoder) and to judge what the implementation does (ColumnTrace).*)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

\* ---- rows -----------------------------------------------------------------
IsVal(run) == run[1] = 1

NRows(rows) == FoldLeft(LAMBDA a, r : a + r[2], 0, rows)
NVals(rows) == FoldLeft(LAMBDA a, r : a + r[1] * r[2], 0, rows)
NBytes(rows) == FoldLeft(LAMBDA a, r : a + r[1] * r[2] * r[3], 0, rows)

\* the row (from 0) of the k-th value
RowOfVal(rows, k) ==
  FoldLeft(LAMBDA a, r :
      IF a.left = 0 THEN a
      ELSE IF r[1] = 0 THEN [a EXCEPT !.row = @ + r[2]]
      ELSE IF a.left <= r[2] THEN [row |-> a.row + a.left - 1, left |-> 0]
      ELSE [row |-> a.row + r[2], left |-> a.left - r[2]],
    [row |-> 0, left |-> k], rows).row

\* the bytes of the first k values
BytesOfFirst(rows, k) ==
  FoldLeft(LAMBDA a, r :
      IF a.left = 0 \/ r[1] = 0 THEN a
      ELSE IF a.left <= r[2] THEN [b |-> a.b + a.left * r[3], left |-> 0]
      ELSE [b |-> a.b + r[2] * r[3], left |-> a.left - r[2]],
    [b |-> 0, left |-> k], rows).b

\* runs of bits, merged
AddRun(acc, b, n) ==
  IF n = 0 THEN acc
  ELSE IF Len(acc) > 0 /\ acc[Len(acc)][1] = b
       THEN [acc EXCEPT ![Len(acc)] = <<b, @[2] + n>>]
       ELSE Append(acc, <<b, n>>)

Norm(runs) == FoldLeft(LAMBDA a, r : AddRun(a, r[1], r[2]), <<>>, runs)

\* the validity of the rows up to (not including) row n
ValidityUpTo(rows, n) ==
  FoldLeft(LAMBDA a, r :
      LET k == IF r[2] <= a.left THEN r[2] ELSE a.left
      IN [acc |-> AddRun(a.acc, r[1], k), left |-> a.left - k],
    [acc |-> <<>>, left |-> n], rows).acc

\* rows as a canonical description: the row structure and the value lengths
NormRows(rows) ==
  FoldLeft(LAMBDA a, r :
      IF r[2] = 0 THEN a
      ELSE LET l == IF r[1] = 0 THEN 0 ELSE r[3]
           IN IF Len(a) > 0 /\ a[Len(a)][1] = r[1] /\ a[Len(a)][3] = l
              THEN [a EXCEPT ![Len(a)] = <<r[1], @[2] + r[2], l>>]
              ELSE Append(a, <<r[1], r[2], l>>),
    <<>>, rows)

\* ---- blocks ---------------------------------------------------------------
NumVals(blocks) == FoldLeft(LAMBDA a, b : a + b.n, 0, blocks)
DataLen(blocks) == FoldLeft(LAMBDA a, b : a + b.dlen, 0, blocks)

\* intervals that follow each other, merged
AddIds(acc, i) ==
  IF Len(acc) > 0 /\ i[1] # 0 /\ acc[Len(acc)][2] + 1 = i[1]
  THEN [acc EXCEPT ![Len(acc)] = <<@[1], i[2]>>]
  ELSE Append(acc, <<i[1], i[2]>>)
MergeIds(blocks) == FoldLeft(LAMBDA a, b : FoldLeft(AddIds, a, b.ids), <<>>, blocks)

\* C01, C02: the values of the blocks are the first values of the column, each
\* once and in order; after a flush, all of them
ValuesErr(rows, blocks, flushed) ==
  LET n == NumVals(blocks) IN
  IF \E i \in DOMAIN blocks : ~blocks[i].ok THEN "a block cannot be decoded"
  ELSE IF n = 0 /\ NVals(rows) = 0 THEN ""
  ELSE IF n > 0 /\ MergeIds(blocks) # << <<1, n>> >>
       THEN "the blocks are not a prefix of the values"
  ELSE IF n > NVals(rows) THEN "more values than were appended"
  ELSE IF flushed /\ n # NVals(rows) THEN "values are missing after the flush"
  ELSE ""

\* C03: the rows of the values, from the announced rows and the validity
ValidityOf(blocks) ==
  FoldLeft(LAMBDA a, b :
      LET used == FoldLeft(LAMBDA x, r : x + r[2], 0, b.valid)
          acc  == FoldLeft(LAMBDA x, r : AddRun(x, r[1], r[2]), a.acc, b.valid)
          gap  == b.row + 1 - (a.next + used)
      IN [acc  |-> IF gap > 0 THEN AddRun(acc, 0, gap) ELSE acc,
          next |-> b.row + 1, bad |-> a.bad \/ gap < 0],
    [acc |-> <<>>, next |-> 0, bad |-> FALSE], blocks)

ValidityErr(rows, blocks, nullable, flushed) ==
  IF ~nullable \/ blocks = <<>>
  THEN IF nullable /\ flushed /\ NVals(rows) > 0 THEN "no blocks after the flush" ELSE ""
  ELSE IF \E i \in DOMAIN blocks : ~blocks[i].vok THEN "validity cannot be decoded"
  ELSE LET v == ValidityOf(blocks)
           ones == FoldLeft(LAMBDA a, r : a + r[1] * r[2], 0, v.acc)
           \* nothing after the last value: trailing nulls are implied
           expect == IF ones > NVals(rows) THEN <<>>
                     ELSE ValidityUpTo(rows, RowOfVal(rows, ones) + 1)
           drop(s) == IF Len(s) > 0 /\ s[Len(s)][1] = 0 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
       IN IF v.bad THEN "the validity of a block goes beyond its last row"
          ELSE IF drop(v.acc) # expect THEN "values are assigned to the wrong rows"
          ELSE IF \E i \in DOMAIN blocks : blocks[i].ok /\
                    FoldLeft(LAMBDA a, r : a + r[1] * r[2], 0, blocks[i].valid) # blocks[i].n
               THEN "the validity of a block does not match its values"
          ELSE IF flushed /\ ones # NVals(rows) THEN "rows are missing after the flush"
          ELSE ""

\* C04: announced rows
\* the number of values that the announced row and the data length stand for
\* d: the bytes of the values up to the end of the block
BadRow(rows, r, d) ==
  LET \* the values up to row r
      k == IF r + 1 > NRows(rows) THEN -1
           ELSE FoldLeft(LAMBDA a, x :
                  LET m == IF x[2] <= a.left THEN x[2] ELSE a.left
                  IN [n |-> a.n + x[1] * m, left |-> a.left - m],
                  [n |-> 0, left |-> r + 1], rows).n
  IN \/ r < 0 \/ k <= 0
     \/ RowOfVal(rows, k) # r
     \/ BytesOfFirst(rows, k) # d
RowIdErr(rows, blocks, nullable, flushed) ==
  LET all == FoldLeft(LAMBDA a, b :
               LET d == a.d + b.dlen
               IN [d |-> d, bad |-> a.bad \/ BadRow(rows, b.row, d)], [d |-> 0, bad |-> FALSE], blocks)
  IN IF \E i \in 1..(Len(blocks) - 1) : blocks[i].row >= blocks[i + 1].row
     THEN "row ids are not increasing"
     ELSE IF all.bad
     THEN "a block is announced with the wrong last row"
     ELSE IF flushed /\ NVals(rows) > 0 /\
             (blocks = <<>> \/ blocks[Len(blocks)].row # RowOfVal(rows, NVals(rows)))
     THEN "the last row id is not the row of the last value"
     ELSE ""

\* C05: sizes; nfinal is the number of blocks written by the flush
SizeErr(rows, blocks, bs, flushed, nfinal) ==
  LET full == SubSeq(blocks, 1, Len(blocks) - nfinal) IN
  IF nfinal > 1 THEN "the flush wrote more than one block"
  ELSE IF \E i \in DOMAIN blocks : blocks[i].ok /\ blocks[i].n = 0
  THEN "a block has no values"
  ELSE IF \E i \in DOMAIN full : full[i].dlen < bs
  THEN "a block before the last one is smaller than the block size"
  ELSE IF \E i \in DOMAIN blocks : blocks[i].ok /\ blocks[i].dlen - blocks[i].last >= bs
  THEN "a block was not cut at the block size"
  ELSE IF ~flushed /\ NBytes(rows) - DataLen(blocks) >= bs
  THEN "a block size or more of values is held back"
  ELSE ""
=============================================================================
