---------------------------- MODULE BlockFormat -----------------------------
(***************************************************************************)
(* The documented formats, as functions from bytes (sequences of 0..255).  *)
(*                                                                         *)
(* Primitive block: data length (varint), data, RLE validity.              *)
(* Binary block: data length (varint), data, number of bits (1 byte),      *)
(*   value lengths bit-packed in groups of 128 (four interleaved 32-bit    *)
(*   lanes), RLE validity.                                                 *)
(* RLE bitmap: frames; header varint h, h odd: h \div 2 literal bytes,     *)
(*   h even: one byte repeated h \div 2 times.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Pow2 == [i \in 0..30 |-> 2 ^ i]

\* <<value, bytes read>>; read = 0 if there is none. Values below 2^28.
Varint(b, at) ==
  LET go[i \in 0..5] ==
        IF at + i > Len(b) \/ i >= 4 THEN <<0, 0>>
        ELSE LET x == b[at + i] IN
             IF x < 128 THEN <<x * Pow2[7 * i], i + 1>>
             ELSE LET r == go[i + 1] IN
                  IF r[2] = 0 THEN <<0, 0>>
                  ELSE <<(x - 128) * Pow2[7 * i] + r[1], r[2]>>
  IN go[0]

Bit(x, k) == (x \div Pow2[k]) % 2

\* frames of an RLE bitmap: sequence of <<"run", byte, n>> / <<"lit", bytes, n>>,
\* or [ok |-> FALSE]
RECURSIVE Frames(_, _, _)
Frames(b, at, acc) ==
  IF at > Len(b) THEN [ok |-> TRUE, frames |-> acc]
  ELSE LET h == Varint(b, at)
           n == h[1] \div 2
       IN IF h[2] = 0 \/ n = 0 THEN [ok |-> FALSE, frames |-> <<>>]
          ELSE IF h[1] % 2 = 1
               THEN IF at + h[2] + n - 1 > Len(b) THEN [ok |-> FALSE, frames |-> <<>>]
                    ELSE Frames(b, at + h[2] + n,
                                Append(acc, <<"lit", SubSeq(b, at + h[2], at + h[2] + n - 1), n>>))
               ELSE IF at + h[2] > Len(b) THEN [ok |-> FALSE, frames |-> <<>>]
                    ELSE Frames(b, at + h[2] + 1, Append(acc, <<"run", b[at + h[2]], n>>))

BitRun(acc, v, n) ==
  IF n = 0 THEN acc
  ELSE IF Len(acc) > 0 /\ acc[Len(acc)][1] = v
       THEN [acc EXCEPT ![Len(acc)] = <<v, @[2] + n>>]
       ELSE Append(acc, <<v, n>>)

ByteBits(acc, x) ==
  IF x = 0 THEN BitRun(acc, 0, 8)
  ELSE IF x = 255 THEN BitRun(acc, 1, 8)
  ELSE FoldLeft(LAMBDA a, k : BitRun(a, Bit(x, k), 1), acc, <<0, 1, 2, 3, 4, 5, 6, 7>>)

RECURSIVE RepeatByte(_, _, _)
RepeatByte(acc, x, n) == IF n = 0 THEN acc ELSE RepeatByte(ByteBits(acc, x), x, n - 1)

FrameBits(acc, f) ==
  IF f[1] = "lit" THEN FoldLeft(ByteBits, acc, f[2])
  ELSE IF f[2] = 0 THEN BitRun(acc, 0, 8 * f[3])
  ELSE IF f[2] = 255 THEN BitRun(acc, 1, 8 * f[3])
  ELSE RepeatByte(acc, f[2], f[3])

\* the bits of an RLE bitmap as runs
RleBits(b) ==
  LET f == Frames(b, 1, <<>>)
  IN IF f.ok THEN [ok |-> TRUE, runs |-> FoldLeft(FrameBits, <<>>, f.frames)]
     ELSE [ok |-> FALSE, runs |-> <<>>]

UpToLastOne(runs) ==
  IF Len(runs) > 0 /\ runs[Len(runs)][1] = 0 THEN SubSeq(runs, 1, Len(runs) - 1) ELSE runs

Ones(runs) == FoldLeft(LAMBDA a, r : a + r[1] * r[2], 0, runs)

\* the i-th (from 0) of the 128 lengths packed with nb bits in the bytes after `at`
Packed(b, at, nb, i) ==
  LET lane == i % 4
      start == (i \div 4) * nb
      bit(k) == LET p == start + k
                    byte == at + 16 * (p \div 32) + 4 * lane + (p % 32) \div 8
                IN Bit(b[byte], p % 8)
  IN FoldLeft(LAMBDA a, k : a + bit(k) * Pow2[k], 0, [k \in 1..nb |-> k - 1])

Malformed == [ok |-> FALSE, values |-> <<>>, dlen |-> 0, vok |-> FALSE, valid |-> <<>>]

DecodePrimitive(b, w, nullable) ==
  LET h == Varint(b, 1)
      n == h[1]
      rest == SubSeq(b, h[2] + n + 1, Len(b))
      rle == RleBits(rest)
  IN IF h[2] = 0 \/ h[2] + n > Len(b) \/ n % w # 0 THEN Malformed
     ELSE [ok |-> TRUE, dlen |-> n,
           values |-> [i \in 1..(n \div w) |->
                         SubSeq(b, h[2] + (i - 1) * w + 1, h[2] + i * w)],
           vok |-> IF nullable THEN rle.ok ELSE rest = <<>>,
           valid |-> IF nullable THEN UpToLastOne(rle.runs) ELSE <<>>]

\* nrows: the rows of the block according to the announced row ids
DecodeBinary(b, nullable, nrows) ==
  LET h == Varint(b, 1)
      n == h[1]
      at == h[2] + n + 1               \* the number of bits
  IN IF h[2] = 0 \/ at > Len(b) THEN Malformed
     ELSE LET nb == b[at]
              chunk == 16 * nb
              maxChunks == IF chunk = 0 THEN 0 ELSE (Len(b) - at) \div chunk
              lens(c) == [i \in 1..(128 * c) |->
                            Packed(b, at + 1 + ((i - 1) \div 128) * chunk, nb, (i - 1) % 128)]
              \* c chunks are plausible
              try(c) ==
                LET ls == lens(c)
                    tail == SubSeq(b, at + 1 + c * chunk, Len(b))
                    rle == RleBits(tail)
                    total == FoldLeft(LAMBDA a, x : a + x, 0, ls)
                    used == FoldLeft(LAMBDA a, i : IF ls[i] # 0 THEN i ELSE a, 0,
                                     [i \in 1..(128 * c) |-> i])
                    count == IF nullable THEN Ones(rle.runs)
                             ELSE IF nrows >= used /\ (chunk = 0 \/ nrows <= 128 * c)
                                  THEN nrows ELSE used
                    \* no more groups than the values need: otherwise a reader
                    \* would look for the validity in the wrong place
                    groups == chunk = 0 \/ c = (count + 127) \div 128
                    fits == /\ total = n
                            /\ IF nullable
                               THEN rle.ok /\ count >= used /\ groups
                               ELSE tail = <<>> /\ (nrows >= used /\ nrows <= 128 * c => groups)
                    len(i) == IF i <= 128 * c THEN ls[i] ELSE 0
                    starts == FoldLeft(LAMBDA a, i : Append(a, a[Len(a)] + len(i)), <<h[2]>>,
                                       [i \in 1..count |-> i])
                IN IF ~fits THEN Malformed
                   ELSE [ok |-> TRUE, dlen |-> n,
                         values |-> [i \in 1..count |-> SubSeq(b, starts[i] + 1, starts[i + 1])],
                         vok |-> TRUE,
                         valid |-> IF nullable THEN UpToLastOne(rle.runs) ELSE <<>>]
              good == {c \in 0..maxChunks : try(c).ok}
          IN IF nb > 30 \/ good = {} THEN [Malformed EXCEPT !.dlen = n]
             ELSE try(CHOOSE c \in good : \A d \in good : c <= d)
=============================================================================
