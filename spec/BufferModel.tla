----------------------------- MODULE BufferModel ----------------------------
(***************************************************************************)
(* Design model of store/indexing_buffer.rs: the growable bitmap (a vector *)
(* of bytes of W bits and a length), the sparse storage of values with     *)
(* cumulative offsets, and range appends.  Two buffers: dst and the source *)
(* of range appends.  Refines says that both report exactly the rows they  *)
(* were given.                                                             *)
(***************************************************************************)
EXTENDS Buffers, TLC, Json

CONSTANTS Items,     \* value lengths, and 99 for a null
          MaxOps,    \* operations in a history
          W, Cap,    \* bits per byte, initial bytes of a bitmap
          Bug, Emit

VARIABLES rep,     \* the buffers as they are represented
          con,    \* the rows they should hold
          ord,   \* values appended so far
          hist, srcHist, phase, ret
vars == <<rep, con, ord, hist, srcHist, phase, ret>>

Null == 99
Zeros(n) == [i \in 1..n |-> [j \in 1..W |-> 0]]
NewBitmap == [bytes |-> Zeros(Cap), len |-> 0]

\* ---- bitmap -------------------------------------------------------------------
Put(m, bit) ==
  LET idx == (m.len \div W) + 1
      n   == Len(m.bytes)
      grow == IF idx > n THEN m.bytes \o Zeros(IF n = 0 /\ Bug # "grow_zero" THEN 1 ELSE n) ELSE m.bytes
      pos == (m.len % W) + 1
  IN IF idx > Len(grow) THEN [m EXCEPT !.len = -1000]      \* index out of bounds
     ELSE [bytes |-> IF bit = 1 THEN [grow EXCEPT ![idx][pos] = 1] ELSE grow,
           len |-> m.len + 1]
IsSet(m, i) == m.bytes[(i \div W) + 1][(i % W) + 1] = 1   \* from 0

RECURSIVE CopyBits(_, _, _, _)
CopyBits(d, s, pos, n) ==
  IF n = 0 \/ pos >= s.len THEN [d |-> d, pos |-> pos]
  ELSE LET v == IF IsSet(s, pos) THEN 1 ELSE 0
       IN CopyBits(Put(d, v), s, pos + 1, IF Bug = "copy_rows" THEN n - 1 ELSE n - v)

ClearBits(m) ==
  IF Bug = "clear_keeps_bits" THEN [m EXCEPT !.len = 0]
  ELSE [bytes |-> Zeros(Cap), len |-> 0]

\* ---- buffers ------------------------------------------------------------------
NewBuf == [data |-> <<>>, offs |-> <<0>>, val |-> NewBitmap]

PutValue(x, len) ==
  [data |-> x.data \o [i \in 1..len |-> <<ord + 1, i>>],
   offs |-> Append(x.offs, Len(x.data) + len),
   val  |-> Put(x.val, 1)]
PutNull(x) == [x EXCEPT !.val = Put(@, 0)]
ClearBuf(x) == [data |-> <<>>,
                offs |-> IF Bug = "clear_keeps_offsets" THEN <<x.offs[Len(x.offs)]>> ELSE <<0>>,
                val  |-> IF Bug = "clear_keeps_validity" THEN x.val ELSE ClearBits(x.val)]

CopyBuf(d, s, start, end, row) ==
  LET base == d.offs[Len(d.offs)]
      lens == [i \in 1..(end - start) |-> s.offs[start + i + 1] - s.offs[start + i]]
      more == FoldLeft(LAMBDA a, n : Append(a, (IF a = <<>> THEN base ELSE a[Len(a)]) + n), <<>>, lens)
      abs  == [i \in 1..(end - start) |-> base + s.offs[start + i + 1]]
      from == IF Bug = "copy_from_first" /\ end > start
              THEN CHOOSE p \in row..(s.val.len - 1) : IsSet(s.val, p) /\ \A q \in row..(p - 1) : ~IsSet(s.val, q)
              ELSE row
      c    == CopyBits(d.val, s.val, from, end - start)
  IN [d |-> [data |-> d.data \o SubSeq(s.data, s.offs[start + 1] + 1, s.offs[end + 1]),
             offs |-> d.offs \o (IF Bug = "absolute_offsets" THEN abs ELSE more),
             val |-> c.d],
      pos |-> IF Bug = "returns_count" THEN end - start ELSE c.pos]

\* ---- what is reported ---------------------------------------------------------
Report(x) ==
  LET k == Len(x.offs) - 1
      good == \A i \in 1..k : x.offs[i] <= x.offs[i + 1] /\ x.offs[i + 1] <= Len(x.data)
      lens == [i \in 1..k |-> x.offs[i + 1] - x.offs[i]]
  IN [nvals |-> k,
      items |-> IF good THEN [i \in 1..k |-> SubSeq(x.data, x.offs[i] + 1, x.offs[i + 1])] ELSE << << <<-1, -1>> >> >>,
      bits  |-> [i \in 1..(IF x.val.len < 0 THEN 0 ELSE x.val.len) |-> IF IsSet(x.val, i - 1) THEN 1 ELSE 0],
      nulls |-> x.val.len - k]

Expected(rows) ==
  LET vals == SelectSeq(rows, LAMBDA x : x[1] = 1)
  IN [nvals |-> Len(vals),
      items |-> [i \in 1..Len(vals) |-> [j \in 1..vals[i][3] |-> <<vals[i][4], j>>]],
      bits  |-> [i \in 1..Len(rows) |-> rows[i][1]],
      nulls |-> Len(rows) - Len(vals)]

\* ---- histories ----------------------------------------------------------------
Init == /\ rep = [src |-> NewBuf, dst |-> NewBuf] /\ con = [src |-> <<>>, dst |-> <<>>]
        /\ ord = 0 /\ hist = <<>> /\ srcHist = <<>> /\ phase = "dst" /\ ret = <<>>

\* operations on dst come before those on src, to leave out equivalent orders
May(w) == Len(hist) < MaxOps /\ (w = "src" \/ phase = "dst")

Note(w, op) == IF w = "dst" THEN hist' = Append(hist, op) /\ srcHist' = srcHist
               ELSE hist' = Append(hist, <<"s">>) /\ srcHist' = Append(srcHist, op)

DoValue(w, n) ==
  /\ May(w) /\ rep' = [rep EXCEPT ![w] = PutValue(@, n)]
  /\ con' = [con EXCEPT ![w] = Append(@, <<1, 1, n, ord + 1>>)]
  /\ ord' = ord + 1 /\ Note(w, <<"a", 1, n>>) /\ phase' = w /\ ret' = <<>>
DoNull(w) ==
  /\ May(w) /\ Null \in Items /\ rep' = [rep EXCEPT ![w] = PutNull(@)]
  /\ con' = [con EXCEPT ![w] = Append(@, <<0, 1, 0, 0>>)]
  /\ Note(w, <<"n", 1>>) /\ phase' = w /\ ret' = <<>> /\ UNCHANGED ord
DoClear(w) ==
  /\ May(w) /\ con[w] # <<>> /\ rep' = [rep EXCEPT ![w] = ClearBuf(@)]
  /\ con' = [con EXCEPT ![w] = <<>>]
  /\ Note(w, <<"c">>) /\ phase' = w /\ ret' = <<>> /\ UNCHANGED ord
DoCopy(start, end, row) ==
  LET c == CopyBuf(rep.dst, rep.src, start, end, row) IN
  /\ Len(hist) < MaxOps /\ phase = "src"
  /\ rep' = [rep EXCEPT !.dst = c.d]
  /\ con' = [con EXCEPT !.dst = @ \o Copied(con.src, start, end, row)]
  /\ ret' = <<c.pos, CopyEnd(con.src, start, end, row)>>
  /\ hist' = Append(hist, <<"f", srcHist, start, end, row>>)
  /\ \/ phase' = "src" \/ phase' = "dst"
  /\ UNCHANGED <<ord, srcHist>>

Next == /\ \/ \E w \in {"src", "dst"} :
                \/ \E n \in Items \ {Null} : DoValue(w, n)
                \/ DoNull(w) \/ DoClear(w)
           \/ \E row \in 0..Count(con.src) : \E end \in 0..Values(con.src) :
                LET start == Values(Slice(con.src, 0, row)) IN
                start <= end /\ DoCopy(start, end, row)
        /\ IF Emit /\ Len(hist') = MaxOps
           THEN PrintT(<<"VEC", ToJson(SelectSeq(hist', LAMBDA x : x # <<"s">>))>>) ELSE TRUE

Spec == Init /\ [][Next]_vars

Refines == /\ Report(rep.dst) = Expected(con.dst)
           /\ Report(rep.src) = Expected(con.src)
Position == ret = <<>> \/ ret[1] = ret[2]
=============================================================================
