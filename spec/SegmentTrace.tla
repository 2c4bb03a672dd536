---------------------------- MODULE SegmentTrace ----------------------------
(***************************************************************************)
(* Judges recorded executions of segment writers: the calls and their      *)
(* results, every system call on the files of the directory in their       *)
(* order, and what is in the directory afterwards.  The log is replayed on *)
(* an abstract file system: the size of every file and whether it was      *)
(* synchronised since its last write.  PROP selects the property.          *)
(***************************************************************************)
EXTENDS Column, IndexFile, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
BlockSize == 131072

VARIABLES t, l,
          size,    \* file name -> bytes in the file, for the files seen
          clean,   \* files synchronised since their last write
          failed,  \* files with a failed synchronisation
          total,   \* segment -> bytes its data file has to have so far
          done,    \* segment -> "", "closed" or "synced"
          stems,   \* segment -> what its file names start with
          err
vars == <<t, l, size, clean, failed, total, done, stems, err>>

T == Traces[t]
Segs == DOMAIN T.segs

\* ---- names -----------------------------------------------------------------
Chr == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
CharOf == [c \in {Alphabet[i] : i \in 0..63} |->
             LET i == CHOOSE i \in 0..63 : Alphabet[i] = c IN SubSeq(Chr, i + 1, i + 1)]
Stem(id) == FoldLeft(LAMBDA a, c : a \o CharOf[c], "", Base64(id))

Init == /\ t \in 1..Len(Traces) /\ l = 0
        /\ size = <<>> /\ clean = {} /\ failed = {} /\ total = <<>> /\ done = <<>> /\ err = ""
        /\ stems = [i \in Segs |-> Stem(T.segs[i].id)]

Dat(i) == "d/" \o stems[i] \o ".dat"
Idx(i) == "d/" \o stems[i] \o ".idx"
Mine == {Dat(i) : i \in Segs} \cup {Idx(i) : i \in Segs}

\* ---- whole executions -------------------------------------------------------
BlocksOf(s) == FlattenSeq([c \in DOMAIN s.cols |-> s.cols[c].blocks])
ColsClosed(s) == SelectSeq(s.cols, LAMBDA c : c.closed)

\* places in a data file are given in MiB and bytes
AfterSig == <<0, 13>>
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])

\* C10
DataErr(s) ==
  LET bs == BlocksOf(s)
      good(i) == bs[i].from = (IF i = 1 THEN AfterSig ELSE bs[i - 1].to) /\ ~Before(bs[i].to, bs[i].from)
      colerr(c) == LET v == ValuesErr(c.rows, c.blocks, c.closed)
                       w == ValidityErr(c.rows, c.blocks, c.nullable, c.closed)
                   IN IF v # "" THEN v ELSE w
      badcols == {c \in DOMAIN s.cols : colerr(s.cols[c]) # ""}
  IN IF s.sig # DataSignature THEN "the data file does not start with its signature"
     ELSE IF \E i \in DOMAIN bs : ~good(i) THEN "the blocks do not follow each other"
     ELSE IF s.dat_size # (IF bs = <<>> THEN AfterSig ELSE bs[Len(bs)].to)
     THEN "the data file does not end with the last block"
     ELSE IF \E i \in DOMAIN bs : ~bs[i].read THEN "the block reader does not return a block"
     ELSE IF badcols # {} THEN "a column read back: " \o colerr(s.cols[CHOOSE c \in badcols : TRUE])
     ELSE ""

\* C04 and C05 on the blocks of a segment
RowErr(s) ==
  LET e(c) == RowIdErr(c.rows, c.blocks, c.nullable, c.closed)
      b == {c \in DOMAIN s.cols : e(s.cols[c]) # ""}
  IN IF b = {} THEN "" ELSE "block index of a segment: " \o e(s.cols[CHOOSE c \in b : TRUE])
OffsetErr(s) ==
  LET bs == BlocksOf(s) IN
  IF \E i \in DOMAIN bs : ~bs[i].ok
     \/ ~bs[i].read THEN "block index of a segment: an offset is not the end of a block" ELSE ""
SizesErr(s) ==
  LET e(c) == IF c.closed
              THEN LET n == Len(c.blocks)
                       last == IF n > 0 /\ c.blocks[n].dlen < BlockSize THEN 1 ELSE 0
                   IN SizeErr(c.rows, c.blocks, BlockSize, TRUE, last)
              ELSE SizeErr(c.rows, c.blocks, BlockSize, FALSE, 0)
      b == {c \in DOMAIN s.cols : e(s.cols[c]) # ""}
  IN IF b = {} THEN "" ELSE "blocks of a segment: " \o e(s.cols[CHOOSE c \in b : TRUE])

\* C11
LayoutOf(enc) == CASE enc = 0 -> {LayPlain} [] enc = 3 -> {LayBinaryDict} [] enc = 4 -> {LaySnappy} [] OTHER -> {}
UnlocatedToken == "block-index-not-located:range=0..0"
IndexErr(s) ==
  IF s.idx_size > Len(s.idx) THEN "TOOL: index file too long"
  ELSE IF Len(s.idx) < 12 \/ SubSeq(s.idx, 1, 12) # IndexSignature
  THEN "the index file does not start with its signature"
  ELSE IF FooterOf(s.idx) < 12 \/ FooterOf(s.idx) > Len(s.idx) - 8
  THEN "the footer is not a place in the index file"
  ELSE IF ~LooksComplete(s.idx) THEN "there is no metadata message where the footer points"
  ELSE
  LET d == Metadata(s.idx)
      pos == FooterOf(s.idx)
      cs == ColsClosed(s)
      want == {[key |-> c.name, name |-> c.name, ctype |-> c.ctype, nullable |-> c.nullable,
                enc |-> c.enc, index |-> c.index] : c \in {cs[i] : i \in DOMAIN cs}}
      lay(c) == CHOOSE y \in d.layouts : y.key = c.name
      nolay(c) == Cardinality({y \in d.layouts : y.key = c.name}) # 1
      unlocated(c) == LET y == lay(c) IN y.located /\ y.start = 0 /\ y.end = 0 /\ c.blocks # <<>>
      bad(c) == LET y == lay(c) IN
                ~unlocated(c) /\ (~y.located \/ (c.blocks # <<>> /\ ~(12 <= y.start /\ y.start < y.end /\ y.end <= pos)))
      C == {cs[i] : i \in DOMAIN cs}
  IN IF d.id # s.id THEN "wrong segment id"
     ELSE IF d.db # s.db THEN "wrong database name"
     ELSE IF d.table # s.table THEN "wrong table name"
     ELSE IF d.shard # s.shard THEN "wrong shard id"
     ELSE IF d.rows # s.rows THEN "wrong number of rows"
     ELSE IF d.ncols # Len(cs) \/ {c.key : c \in d.cols} # {c.name : c \in C}
     THEN "the columns are not the closed ones"
     ELSE IF d.cols # want THEN "wrong description of a column"
     ELSE IF d.nlayouts # Len(cs) \/ \E c \in C : nolay(c) THEN "the layouts are not those of the columns"
     ELSE IF \E c \in C : lay(c).encoders # LayoutOf(c.enc) THEN "wrong encoder layout"
     ELSE IF \E c \in C : bad(c) THEN "a block index is not located inside the index file"
     ELSE IF \E c \in C : unlocated(c)
          THEN IF PrintT(<<"KNOWN", UnlocatedToken, t>>) THEN "" ELSE ""
     ELSE ""

\* C12
FilesErr ==
  LET names == [i \in DOMAIN T.files |-> T.files[i][1]]
      kept == {T.preexist[i][1] : i \in DOMAIN T.preexist}
      have == {names[i] : i \in DOMAIN names}
      opened == {i \in Segs : T.segs[i].ok}
      must == {Dat(i) : i \in opened} \cup {Idx(i) : i \in opened}
  IN IF ~(have \subseteq (Mine \cup kept)) THEN "there is a file that belongs to no segment"
     ELSE IF ~(must \subseteq have) THEN "a file of a segment is missing or has another name"
     ELSE IF \E i \in DOMAIN T.preexist :
               T.preexist[i][1] \notin Mine /\
               ~\E j \in DOMAIN T.files : T.files[j][1] = T.preexist[i][1] /\ T.files[j][2] = T.preexist[i][2]
     THEN "a file of another program was touched"
     ELSE ""

First(es) == LET b == SelectSeq(es, LAMBDA e : e # "") IN IF b = <<>> THEN "" ELSE b[1]
OfClosed(F(_)) == First([i \in Segs |-> IF T.segs[i].closed /\ T.segs[i].ok THEN F(T.segs[i]) ELSE ""])

Whole ==
  IF T.crash # "" THEN T.crash
  ELSE IF T.soft /\ \E i \in Segs : ~T.segs[i].ok
  THEN IF Prop \in {"C15", "C10", "C11", "C12"}
       THEN "a call fails although no write does: " \o First([i \in Segs |-> T.segs[i].failed]) ELSE ""
  ELSE CASE Prop = "C10" -> OfClosed(DataErr)
         [] Prop = "C11" -> OfClosed(IndexErr)
         [] Prop = "C12" -> LET a == FilesErr
                                b == OfClosed(DataErr)
                                c == OfClosed(LAMBDA s : IF LooksComplete(s.idx) /\ Metadata(s.idx).id = s.id
                                                         THEN "" ELSE "an index file is not that of its segment")
                            IN First(<<a, b, c>>)
         [] Prop = "C15" -> First(<<OfClosed(DataErr),
                                    OfClosed(LAMBDA s : IF LooksComplete(s.idx) THEN ""
                                                        ELSE "closed without an error, but the index file is not complete")>>)
         [] Prop = "C04" -> First(<<OfClosed(RowErr), OfClosed(OffsetErr)>>)
         [] Prop = "C05" -> OfClosed(SizesErr)
         [] Prop = "C17" -> First([i \in Segs |->
                              IF T.segs[i].stop = "drop" /\ ~T.segs[i].closed /\ LooksComplete(T.segs[i].idx)
                              THEN "the index file of a segment that was not closed looks complete" ELSE ""])
         [] OTHER -> ""

Open == /\ l = 0 /\ l' = 1 /\ err' = Whole
        /\ total' = [i \in Segs |-> 13] /\ done' = [i \in Segs |-> ""]
        /\ UNCHANGED <<t, size, clean, failed, stems>>

\* ---- the log ------------------------------------------------------------------
SizeOf(f) == IF f \in DOMAIN size THEN size[f] ELSE 0
Prefix(i, n) == SubSeq(T.segs[i].idx, 1, n)

\* the segment whose file this is, or 0
Owner(f) == IF \E i \in Segs : f \in {Dat(i), Idx(i)}
            THEN CHOOSE i \in Segs : f \in {Dat(i), Idx(i)} ELSE 0

\* bytes the data file of a segment needs in the end
Final(i) == LET es == {k \in DOMAIN T.log : T.log[k].op = "api" /\ T.log[k].call = "entries"
                                            /\ T.log[k].s + 1 = i /\ T.log[k].pos > 0}
            IN IF es = {} THEN 13 ELSE T.log[CHOOSE k \in es : \A j \in es : k >= j].pos

Sys(e) ==
  LET f == e.f
      n == IF e.size >= 0 THEN e.size ELSE SizeOf(f)
      wrote == e.call \in {"write", "pwrite", "truncate"} /\ e.ret # -1 /\ (e.call = "truncate" \/ e.ret > 0)
      opened == e.call = "open" /\ e.ret = 0 /\ f \notin DOMAIN size
      o == Owner(f)
      now == IF wrote \/ opened THEN (f :> (IF wrote THEN n ELSE 0)) @@ size ELSE size
      fsync == e.call \in {"fsync", "fdatasync"}
  IN /\ size' = now
     /\ clean' = IF wrote THEN clean \ {f} ELSE IF fsync /\ e.ret = 0 THEN clean \cup {f} ELSE clean
     /\ failed' = IF fsync /\ e.ret # 0 THEN failed \cup {f} ELSE failed
     /\ err' = IF Prop = "C12" /\ e.call # "read" /\ f \notin Mine
               THEN "a file that belongs to no segment is touched"
               ELSE IF Prop = "C12" /\ e.call \in {"unlink", "rename"} THEN "a file is removed or renamed"
               ELSE IF Prop = "C17" /\ o # 0 /\ wrote /\ f = Idx(o) /\ LooksComplete(Prefix(o, n))
                       /\ (IF Dat(o) \in DOMAIN now THEN now[Dat(o)] ELSE 0) < Final(o)
               THEN "the index file is complete before the data file"
               ELSE IF Prop = "C16" /\ o # 0 /\ wrote /\ done[o] = "synced"
               THEN "a file is written after it was synchronised"
               ELSE ""
     /\ UNCHANGED <<total, done>>

Api(e) ==
  LET i == e.s + 1 IN
  /\ total' = IF e.call = "entries" /\ e.pos > 0 THEN [total EXCEPT ![i] = e.pos] ELSE total
  /\ done' = IF e.res = "ok" /\ e.call = "close" THEN [done EXCEPT ![i] = "closed"]
             ELSE IF e.res = "ok" /\ e.call = "sync" THEN [done EXCEPT ![i] = "synced"] ELSE done
  /\ err' = IF e.res # "ok" \/ e.call \notin {"close", "sync"} THEN ""
            ELSE IF Prop = "C15" /\ (SizeOf(Dat(i)) # total[i] \/ SizeOf(Idx(i)) # T.segs[i].idx_size
                                     \/ ~LooksComplete(T.segs[i].idx))
            THEN e.call \o " returns success, but bytes are missing in a file"
            ELSE IF Prop = "C16" /\ e.call = "sync" /\ {Dat(i), Idx(i)} \cap failed # {}
            THEN "sync returns success although a synchronisation failed"
            ELSE IF Prop = "C16" /\ e.call = "sync" /\
                    (~({Dat(i), Idx(i)} \subseteq clean) \/ SizeOf(Dat(i)) # total[i]
                     \/ ~LooksComplete(Prefix(i, SizeOf(Idx(i)))))
            THEN "sync returns success, but a file is not synchronised"
            ELSE IF Prop = "C15" /\ e.call = "sync" /\ {Dat(i), Idx(i)} \cap failed # {}
            THEN "no call reports a failed synchronisation"
            ELSE ""
  /\ UNCHANGED <<size, clean, failed>>

Replayed == Prop \in {"C12", "C15", "C16", "C17"}
Step == /\ l >= 1 /\ err = "" /\ T.crash = "" /\ Replayed /\ l <= Len(T.log)
        /\ LET e == T.log[l] IN IF e.op = "sys" THEN Sys(e) ELSE Api(e)
        /\ l' = l + 1 /\ UNCHANGED <<t, stems>>

Next == Open \/ Step
Spec == Init /\ [][Next]_vars

Conforms == err = ""
=============================================================================
