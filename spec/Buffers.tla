------------------------------ MODULE Buffers -------------------------------
(***************************************************************************)
(* What a column buffer holds and what it reports (C08), and what copying  *)
(* a range of one buffer to another means (C09).                           *)
(*                                                                         *)
(* The contents of a buffer are runs <<kind, n, x, first>>: n consecutive  *)
(* rows that are null (kind 0) or values (kind 1) of length x (for boolean *)
(* buffers: equal to x); the values are the ones with the ordinals         *)
(* first, first + 1, ...  A bitmap is a sequence of runs <<bit, n, 0, 0>>. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Count(rows) == FoldLeft(LAMBDA a, r : a + r[2], 0, rows)
Values(rows) == FoldLeft(LAMBDA a, r : a + r[1] * r[2], 0, rows)

Merge(acc, b, n) ==
  IF n = 0 THEN acc
  ELSE IF Len(acc) > 0 /\ acc[Len(acc)][1] = b
       THEN [acc EXCEPT ![Len(acc)] = <<b, @[2] + n>>]
       ELSE Append(acc, <<b, n>>)

\* the k-th component of the rows that satisfy Keep, as merged runs
Runs(rows, k, Keep(_)) ==
  FoldLeft(LAMBDA a, r : IF Keep(r) THEN Merge(a, r[k], r[2]) ELSE a, <<>>, rows)

\* ordinals of the values, as merged intervals
Ordinals(rows) ==
  FoldLeft(LAMBDA a, r :
      IF r[1] = 0 \/ r[2] = 0 THEN a
      ELSE IF Len(a) > 0 /\ a[Len(a)][2] + 1 = r[4]
           THEN [a EXCEPT ![Len(a)] = <<@[1], r[4] + r[2] - 1>>]
           ELSE Append(a, <<r[4], r[4] + r[2] - 1>>),
    <<>>, rows)

\* rows from (inclusive) to to (exclusive)
Slice(rows, from, to) ==
  FoldLeft(LAMBDA a, r :
      LET lo == IF from > a.pos THEN from - a.pos ELSE 0
          hi == IF to - a.pos < r[2] THEN to - a.pos ELSE r[2]
      IN [pos |-> a.pos + r[2],
          out |-> IF hi > lo
                  THEN Append(a.out, <<r[1], hi - lo, r[3], r[4] + r[1] * lo>>)
                  ELSE a.out],
    [pos |-> 0, out |-> <<>>], rows).out

\* the row (from 0) of the k-th value
RowOf(rows, k) ==
  FoldLeft(LAMBDA a, r :
      IF a.left = 0 THEN a
      ELSE IF r[1] = 0 THEN [a EXCEPT !.row = @ + r[2]]
      ELSE IF a.left <= r[2] THEN [row |-> a.row + a.left - 1, left |-> 0]
      ELSE [row |-> a.row + r[2], left |-> a.left - r[2]],
    [row |-> 0, left |-> k], rows).row

\* copying values start..end (exclusive, from 0) beginning at row: the rows
\* that are appended, and the row after them
CopyEnd(src, start, end, row) == IF end = start THEN row ELSE RowOf(src, end) + 1
Copied(src, start, end, row) == Slice(src, row, CopyEnd(src, start, end, row))
\* a row from which values start.. can be copied
CopyFrom(src, start, row) == Values(Slice(src, 0, row)) = start

\* ---- reports ----------------------------------------------------------------
\* the first difference between a report o and the contents
ReportErr(type, nullable, rows, o) ==
  LET isval(r) == r[1] = 1
      all(r) == TRUE
      nv == Values(rows)
  IN IF type = "bitmap"
     THEN IF o.len # Count(rows) THEN "wrong length"
          ELSE IF o.bits # Runs(rows, 1, all) THEN "wrong bits" ELSE ""
     ELSE IF ~o.offs THEN "the offsets are not those of the items"
     ELSE IF o.nullable # nullable THEN "wrong nullability"
     ELSE IF o.len # (IF type = "bool" THEN Count(rows) ELSE nv) THEN "wrong length"
     ELSE IF o.rows # Count(rows) THEN "wrong number of rows"
     ELSE IF o.nvals # nv THEN "wrong number of values"
     ELSE IF type = "bool" /\ o.bits # Runs(rows, 3, isval) THEN "wrong values"
     ELSE IF type # "bool" /\ o.ids # Ordinals(rows) THEN "wrong values"
     ELSE IF type = "bin" /\ o.lens # Runs(rows, 3, isval) THEN "wrong value boundaries"
     ELSE IF o.hasv # nullable THEN "wrong presence of validity"
     ELSE IF nullable /\ o.validity # Runs(rows, 1, all) THEN "wrong null positions"
     ELSE IF o.has_nulls # (Count(rows) # nv) THEN "wrong has-nulls answer"
     ELSE ""
=============================================================================
