---------------------------- MODULE BuffersTrace ----------------------------
(***************************************************************************)
(* Judges recorded histories of buffer operations against Buffers.         *)
(***************************************************************************)
EXTENDS Buffers, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, rows, ord, err
vars == <<t, l, rows, ord, err>>

T == Traces[t]

Init == t \in 1..Len(Traces) /\ l = 0 /\ rows = <<>> /\ ord = 0 /\ err = ""

\* the contents after a simple operation, and the next ordinal
Apply(s, a) ==
  CASE a[1] = "a" -> [rows |-> IF a[2] = 0 THEN s.rows
                               ELSE Append(s.rows, <<1, a[2], a[3], s.ord + 1>>),
                      ord |-> s.ord + a[2]]
    [] a[1] = "b" -> [rows |-> IF a[3] = 0 THEN s.rows
                               ELSE Append(s.rows, IF T.type = "bitmap"
                                                   THEN <<a[2], a[3], 0, 0>>
                                                   ELSE <<1, a[3], a[2], 0>>),
                      ord |-> s.ord]
    [] a[1] = "n" -> [rows |-> IF a[2] = 0 THEN s.rows ELSE Append(s.rows, <<0, a[2], 0, 0>>),
                      ord |-> s.ord]
    [] a[1] = "c" -> [rows |-> <<>>, ord |-> s.ord]
    [] OTHER -> s

Seen(e, rs) ==
  IF e.obs = <<>> THEN "" ELSE ReportErr(T.type, T.nullable, rs, e.obs[1])

Open == /\ l = 0 /\ l' = 1 /\ err' = T.crash /\ UNCHANGED <<t, rows, ord>>

Step ==
  /\ l >= 1 /\ err = "" /\ T.crash = "" /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] IN
     IF e.crash # "" THEN err' = e.op \o ": " \o e.crash /\ UNCHANGED <<rows, ord>>
     ELSE IF e.op # "f"
     THEN LET s == Apply([rows |-> rows, ord |-> ord], e.args) IN
          /\ rows' = s.rows /\ ord' = s.ord
          /\ err' = LET x == Seen(e, s.rows) IN IF x = "" THEN "" ELSE "after " \o e.op \o ": " \o x
     ELSE LET src == FoldLeft(Apply, [rows |-> <<>>, ord |-> ord], e.src)
              bm == T.type = "bitmap"
              row == IF bm THEN e.start ELSE e.row
              start == IF bm THEN Values(Slice(src.rows, 0, row)) ELSE e.start
              end == IF bm THEN start + e.end ELSE e.end
              rs == rows \o Copied(src.rows, start, end, row)
              x == Seen(e, rs)
          IN /\ rows' = rs /\ ord' = src.ord
             /\ err' = IF ~CopyFrom(src.rows, start, row) \/ start > end \/ end > Values(src.rows)
                       THEN "TOOL: not a range of the source"
                       ELSE IF x # "" THEN "after a range append: " \o x
                       ELSE IF ~e.same THEN "the source of a range append changed"
                       ELSE IF (bm \/ T.nullable) /\ e.ret # CopyEnd(src.rows, start, end, row)
                       THEN "wrong position returned by a range append"
                       ELSE ""
  /\ l' = l + 1 /\ UNCHANGED t

Next == Open \/ Step
Spec == Init /\ [][Next]_vars

Conforms == err = ""
=============================================================================
