---------------------------- MODULE ColumnTrace -----------------------------
(***************************************************************************)
(* Judges recorded executions of the column encoders against Column.       *)
(* A trace is one column: its kind, nullability and block size, and the    *)
(* calls made (write, flush) with the rows written and the blocks that     *)
(* were announced.  Every trace is a behaviour of the state machine below: *)
(* one transition per recorded call; err stays "" as long as the calls are *)
(* allowed by the specification.  Prop selects the clause that is judged.  *)
(***************************************************************************)
EXTENDS Column, BlockFormat, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES t, l, rows, blocks, err
vars == <<t, l, rows, blocks, err>>

T == Traces[t]

Init == /\ t \in 1..Len(Traces) /\ l = 0
        /\ rows = <<>> /\ blocks = <<>> /\ err = ""

\* Blocks given as bytes are decoded here; the others were projected by the
\* harness.
Decode(b, before) ==
  IF ~T.raw THEN b
  ELSE LET d == IF T.w = 0
                THEN DecodeBinary(b.bytes, T.nullable, b.row - before)
                ELSE DecodePrimitive(b.bytes, T.w, T.nullable)
       IN [b EXCEPT !.ok = d.ok, !.n = Len(d.values), !.dlen = d.dlen,
                    !.vok = d.vok, !.valid = d.valid,
                    !.last = IF d.values = <<>> THEN 0 ELSE Len(d.values[Len(d.values)]),
                    !.ids = <<>>] @@ [values |-> d.values]

\* the ordinals of decoded values: the next expected one if it is equal
WithIds(bs, next) ==
  IF ~T.raw THEN bs
  ELSE LET step(a, b) ==
             LET k == Len(b.values)
                 good == \A i \in 1..k : a.next + i - 1 <= Len(T.vals)
                                         /\ T.vals[a.next + i - 1] = b.values[i]
             IN [next |-> a.next + k,
                 out  |-> Append(a.out, [b EXCEPT !.ids =
                            IF k = 0 THEN <<>>
                            ELSE IF good THEN << <<a.next, a.next + k - 1>> >>
                            ELSE << <<0, 0>> >>])]
       IN FoldLeft(step, [next |-> next, out |-> <<>>], bs).out

NewBlocks(e) ==
  LET prev(i) == IF i = 1
                 THEN IF blocks = <<>> THEN -1 ELSE blocks[Len(blocks)].row
                 ELSE e.blocks[i - 1].row
  IN WithIds([i \in DOMAIN e.blocks |-> Decode(e.blocks[i], prev(i))],
             NumVals(blocks) + 1)

\* C19: all ways of writing the rows give the same blocks
BatchErr ==
  LET rs == T.runs IN
  IF rs = <<>> THEN ""
  ELSE IF \E i \in DOMAIN rs : NormRows(FlattenSeq(rs[i].bufs)) # NormRows(FlattenSeq(rs[1].bufs))
  THEN "TOOL: the runs do not write the same rows"
  ELSE IF \E i \in DOMAIN rs : rs[i].res # rs[1].res
  THEN "writing the same rows succeeds or fails depending on the batches"
  ELSE IF \E i \in DOMAIN rs : rs[i].blocks # rs[1].blocks
  THEN "the blocks depend on how the rows were batched"
  ELSE ""

Judge(rs, bs, e) ==
  LET flushed == e.op = "flush"
      nfinal == IF flushed THEN Len(e.blocks) ELSE 0
  IN CASE Prop = "C15" /\ e.refused /\ ~e.error ->
            IF e.res = "ok" THEN e.op \o " returns success although a block was refused" ELSE e.res
       [] Prop = "C15" /\ e.refused -> ValuesErr(rs, bs, FALSE)
       [] e.res # "ok" -> e.op \o ": " \o e.res
       [] Prop = "C01" -> IF T.w = 0 THEN "" ELSE ValuesErr(rs, bs, flushed)
       [] Prop = "C02" -> IF T.w # 0 THEN "" ELSE ValuesErr(rs, bs, flushed)
       [] Prop = "C03" -> ValidityErr(rs, bs, T.nullable, flushed)
       [] Prop = "C04" -> RowIdErr(rs, bs, T.nullable, flushed)
       [] Prop = "C15" -> ValuesErr(rs, bs, flushed)
       [] Prop = "C05" -> SizeErr(rs, bs, T.bs, flushed, nfinal)
       [] OTHER -> ""

\* the first transition looks at the execution as a whole
Open == /\ l = 0 /\ err = "" /\ l' = 1
        /\ err' = IF T.crash # "" THEN T.crash
                  ELSE IF Prop = "C19" THEN BatchErr ELSE ""
        /\ UNCHANGED <<t, rows, blocks>>

Call == /\ l >= 1 /\ err = "" /\ T.crash = "" /\ Prop # "C19" /\ l <= Len(T.ev)
        /\ LET e == T.ev[l]
               rs == rows \o e.rows
               bs == blocks \o NewBlocks(e)
           IN /\ rows' = rs /\ blocks' = bs
              /\ err' = Judge(rs, bs, e)
        /\ l' = l + 1 /\ UNCHANGED t

Next == Open \/ Call
Spec == Init /\ [][Next]_vars

Conforms == err = ""
=============================================================================
