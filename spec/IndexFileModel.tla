--------------------------- MODULE IndexFileModel ---------------------------
(***************************************************************************)
(* Design model of SegmentWriter::close for the index file: what is        *)
(* written is read back by the specified reader, whatever is in the        *)
(* metadata; no proper prefix of the file looks complete; names are        *)
(* different for different ids.                                            *)
(***************************************************************************)
EXTENDS IndexFile, SequencesExt, TLC

CONSTANTS Names, Numbers, MaxCols, Bug

VARIABLES meta, file, pc
vars == <<meta, file, pc>>

\* columns: name, type, encoding (with its layout), nullable; the names are different
Attrs == [ctype : {0, 8}, nullable : BOOLEAN, index : {0, 3}]
ColSets ==
  UNION {{{[name |-> n, enc |-> 0] @@ f[n] : n \in S} : f \in [S -> Attrs]} :
         S \in {S \in SUBSET Names : Cardinality(S) <= MaxCols}}
FewSets == {{}, {[name |-> n, enc |-> 0, ctype |-> 8, nullable |-> TRUE, index |-> 0] : n \in Names}}
Infos == [id : {<<0, 255, 16>>, <<>>}, db : Names, table : Names, shard : Numbers, rows : Numbers]
OneInfo == CHOOSE i \in Infos : i.id # <<>> /\ i.db # <<>> /\ i.table # i.db /\ i.shard # Zero /\ i.rows # i.shard

Init ==
  /\ meta \in {[cols |-> c] @@ i : c \in FewSets, i \in Infos} \cup {[cols |-> c] @@ OneInfo : c \in ColSets}
  /\ file = <<>> /\ pc = "header"

ColSeq(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]

ColBytes(c) ==
  FBytes(ColName, c.name) \o FVar(ColType, Small(c.ctype))
  \o FVar(IF Bug = "field_swap" THEN ColEncoding ELSE ColNullable, Small(IF c.nullable THEN 1 ELSE 0))
  \o FVar(IF Bug = "field_swap" THEN ColNullable ELSE ColEncoding, Small(c.enc))
  \o FVar(ColIndex, Small(c.index))
LayBytes == FMsg(LayBlockIndex, FMsg(1, FVar(1, Small(12)) \o FVar(2, Small(12))))
            \o FMsg(LayPlain, <<>>)
Entry(k, v) == FBytes(EntryKey, k) \o FMsg(EntryValue, v)

Cat(s, F(_)) == FoldLeft(LAMBDA a, c : a \o F(c), <<>>, s)
SegBytes(m) ==
  FBytes(SegId, m.id) \o FBytes(SegDb, m.db) \o FBytes(SegTable, m.table)
  \o FVar(SegShard, m.shard) \o FVar(SegRows, m.rows)
  \o Cat(IF Bug = "first_column" /\ m.cols # {} THEN SubSeq(ColSeq(m.cols), 1, 1) ELSE ColSeq(m.cols),
         LAMBDA c : FMsg(SegColumns, Entry(c.name, ColBytes(c))))
MetaBytes(m) ==
  FMsg(MetaSegment, SegBytes(m))
  \o Cat(ColSeq(m.cols), LAMBDA c : FMsg(MetaLayouts, Entry(c.name, LayBytes)))

Footer(n) == LET le == <<n % 256, (n \div 256) % 256, n \div 65536, 0, 0, 0, 0, 0>>
             IN IF Bug = "big_endian" THEN [i \in 1..8 |-> le[9 - i]] ELSE le

Header == pc = "header" /\ file' = IndexSignature /\ pc' = "meta" /\ UNCHANGED meta
Meta   == pc = "meta" /\ file' = file \o MetaBytes(meta) /\ pc' = "footer" /\ UNCHANGED meta
Foot   == pc = "footer" /\ pc' = "closed" /\ UNCHANGED meta
          /\ file' = file \o Footer(IF Bug = "end_pos" THEN Len(file) ELSE 12)
Next == Header \/ Meta \/ Foot
Spec == Init /\ [][Next]_vars

Back(c) == [name |-> c.name, ctype |-> c.ctype, nullable |-> c.nullable, index |-> c.index, enc |-> c.enc]
Faithful ==
  pc = "closed" =>
    LET d == Metadata(file) IN
    /\ LooksComplete(file) /\ FooterOf(file) = 12
    /\ d.id = meta.id /\ d.db = meta.db /\ d.table = meta.table
    /\ d.shard = meta.shard /\ d.rows = meta.rows
    /\ d.ncols = Cardinality(meta.cols)
    /\ {Back(c) : c \in d.cols} = meta.cols
    /\ \A c \in d.cols : c.key = c.name
    /\ {l.key : l \in d.layouts} = {c.name : c \in meta.cols}
    /\ \A l \in d.layouts : l.encoders = {LayPlain} /\ l.located /\ l.start = 12
NotBefore ==
  \* nothing that was on disk before the last byte looks complete
  \A n \in 0..(IF pc = "closed" THEN Len(file) - 1 ELSE Len(file)) : ~LooksComplete(SubSeq(file, 1, n))
NamesDef == {<<>>, <<97>>, <<98, 98, 98>>}
NumbersDef == {Zero, Small(127), Small(2097153)}
=============================================================================
