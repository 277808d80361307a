-------------------------------- MODULE BitIO --------------------------------
(***************************************************************************)
(* BitBuffer and BitBufferWriter as state machines over a position (and,   *)
(* for the writer, memory).  64-bit values are four 16-bit limbs, most     *)
(* significant first.                                                      *)
(***************************************************************************)
EXTENDS Bits

ZeroLimbs == <<0, 0, 0, 0>>
\* the w <= 64 bits at p, right aligned
LimbsAt(b, p, w) ==
  LET limb(i) ==                         \* i = 0: least significant
        LET hi == w - 16 * i
            k  == Min2(hi, 16)
        IN  IF hi <= 0 THEN 0 ELSE BitsAcc(b, p + w - 16 * i - k, k, 0)
  IN  <<limb(3), limb(2), limb(1), limb(0)>>
U32Limbs(v) ==                           \* v: int32 representation
  <<0, 0, IF v >= 0 THEN v \div 65536 ELSE 32768 + (((v + 2147483647) + 1) \div 65536), v % 65536>>
LimbBits(a) == BitSeq(a[1], 16) \o BitSeq(a[2], 16) \o BitSeq(a[3], 16) \o BitSeq(a[4], 16)

(***************************************************************************)
(* Truncated binary ("non-symmetric") codes of 0..N-1, 1 <= N <= 2^31;     *)
(* N = 0 stands for 2^31, whose codes are all of 31 bits.                  *)
(***************************************************************************)
NsWidth(N) == IF N = 0 THEN 32 ELSE Width(N)
NsShort(N) ==                            \* how many values get the short code
  IF NsWidth(N) = 31 THEN (2147483647 - N) + 1 ELSE P2(NsWidth(N)) - N
\* [ok, v, n], and mid: the bits read before the failure
ReadNs(b, p, n, N) ==
  LET w == NsWidth(N)
      v == BitsAcc(b, p, w - 1, 0)
  IN  IF p + w - 1 > n THEN [ok |-> FALSE, v |-> 0, n |-> 0, mid |-> 0]
      ELSE IF N = 0 \/ v < NsShort(N) THEN [ok |-> TRUE, v |-> v, n |-> w - 1, mid |-> 0]
      ELSE IF p + w > n THEN [ok |-> FALSE, v |-> 0, n |-> 0, mid |-> w - 1]
      ELSE [ok |-> TRUE, v |-> (v - NsShort(N)) + v + BitAt(b, p + w - 1), n |-> w, mid |-> 0]
NsBits(v, N) ==
  LET w == NsWidth(N)
  IN  IF N = 0 \/ v < NsShort(N) THEN (IF w = 1 THEN <<>> ELSE BitSeq(v, w - 1))
      ELSE UBits(v + NsShort(N), w)

(***************************************************************************)
(* Reader: the outcome [ok, v, n] of an operation at p; n bits are         *)
(* consumed.  An operation that cannot complete consumes nothing.          *)
(***************************************************************************)
No == [ok |-> FALSE, v |-> ZeroLimbs, n |-> 0, mid |-> 0]
ReadW(b, p, n, w, max, keep) ==
  IF w < 1 \/ w > max \/ w > n - p THEN No
  ELSE [ok |-> TRUE, v |-> LimbsAt(b, p, w), n |-> IF keep THEN 0 ELSE w, mid |-> 0]
Moved(ok, d) == [ok |-> ok, v |-> ZeroLimbs, n |-> IF ok THEN d ELSE 0, mid |-> 0]
SeekOk(n, byte, bit) == byte * 8 <= n /\ bit <= 7 /\ ~(byte * 8 = n /\ bit > 0)
ReaderOp(b, p, s) ==
  LET n == 8 * Len(b)  a == s.a[1]
  IN CASE s.o = "u8"   -> ReadW(b, p, n, 8, 8, FALSE)
       [] s.o = "u16"  -> ReadW(b, p, n, 16, 16, FALSE)
       [] s.o = "u32"  -> ReadW(b, p, n, 32, 32, FALSE)
       [] s.o = "rb32" -> ReadW(b, p, n, a, 32, FALSE)
       [] s.o = "rb64" -> ReadW(b, p, n, a, 64, FALSE)
       [] s.o = "pk32" -> ReadW(b, p, n, a, 32, TRUE)
       [] s.o = "pk64" -> ReadW(b, p, n, a, 64, TRUE)
       [] s.o = "ue"   -> LET r == UE(b, p, n)
                          IN  [ok |-> r.ok, v |-> IF r.ok THEN U32Limbs(r.v) ELSE ZeroLimbs,
                               n |-> r.n, mid |-> 0]
       [] s.o = "se"   -> LET r == UE(b, p, n)
                          IN  [ok |-> r.ok, v |-> IF r.ok THEN U32Limbs(SEMap(r.v)) ELSE ZeroLimbs,
                               n |-> r.n, mid |-> 0]
       [] s.o = "ns"   -> LET r == ReadNs(b, p, n, a)
                          IN  [r EXCEPT !.v = IF r.ok THEN U32Limbs(r.v) ELSE ZeroLimbs]
       [] s.o = "cb"   -> Moved(a <= n - p, a)
       [] s.o = "cB"   -> IF a > Len(b) THEN No ELSE Moved(8 * a <= n - p, 8 * a)
       [] s.o = "seek" -> IF a > Len(b) THEN No
                          ELSE Moved(SeekOk(n, a, s.a[2]), 8 * a + s.a[2] - p)

\* <<>>, or the first difference <<impl, spec>>
ReaderDiff(b, steps) ==
  FoldLeft(LAMBDA acc, s :
    IF acc.bad # <<>> THEN acc
    ELSE LET r == ReaderOp(b, acc.p, s)
             ok == /\ (s.ok = 1) = r.ok
                   /\ s.v = r.v
                   /\ s.p \in {acc.p + r.n, acc.p + r.n + r.mid}
                   /\ s.r = 8 * Len(b) - s.p
         IN  IF ok THEN [acc EXCEPT !.p = s.p]
             ELSE [acc EXCEPT !.bad = <<s, [at |-> acc.p] @@ r>>],
    [p |-> 0, bad |-> <<>>], steps).bad

(***************************************************************************)
(* Writer: an operation writes a bit string at p, or fails and leaves      *)
(* memory and position alone.                                              *)
(***************************************************************************)
WriterBits(s) ==     \* <<TRUE, bits>> or <<FALSE, <<>>>>
  LET v32 == Hi16Lo16(s.a[3], s.a[4])
  IN CASE s.o = "u8"  -> <<TRUE, SubSeq(LimbBits(s.a), 57, 64)>>
       [] s.o = "u16" -> <<TRUE, SubSeq(LimbBits(s.a), 49, 64)>>
       [] s.o = "u32" -> <<TRUE, SubSeq(LimbBits(s.a), 33, 64)>>
       [] s.o = "wb"  -> IF s.b > 64 THEN <<FALSE, <<>>>>
                         ELSE <<TRUE, SubSeq(LimbBits(s.a), 65 - s.b, 64)>>
       [] s.o = "ns"  -> <<TRUE, NsBits(v32, s.b)>>
       [] s.o = "ue"  -> IF v32 = -1 THEN <<FALSE, <<>>>> ELSE <<TRUE, UEBits(v32)>>
       [] s.o = "se"  -> IF v32 = ((-2147483647) - 1) THEN <<FALSE, <<>>>> ELSE <<TRUE, SEBits(v32)>>
Overlay(mem, p, bits) ==     \* mem: bits
  [i \in 1..Len(mem) |-> IF i > p /\ i <= p + Len(bits) THEN bits[i - p] ELSE mem[i]]
MemBits(n, fill) == [i \in 1..(8 * n) |-> BitAt(<<fill>>, (i - 1) % 8)]

WriterDiff(size, fill, steps) ==
  FoldLeft(LAMBDA acc, s :
    IF acc.bad # <<>> THEN acc
    ELSE LET n == 8 * size
             move == s.o \in {"cb", "seek"}
             a  == IF s.a[1] # 0 \/ s.a[2] # 0 \/ s.a[3] > 32767 THEN 2147483647
                   ELSE Hi16Lo16(s.a[3], s.a[4])
             w  == IF move THEN <<FALSE, <<>>>> ELSE WriterBits(s)
             ok == CASE s.o = "cb"   -> a <= n - acc.p
                     [] s.o = "seek" -> a <= size /\ SeekOk(n, a, s.b)
                     [] OTHER        -> w[1] /\ Len(w[2]) <= n - acc.p
             p  == IF ~ok THEN acc.p
                   ELSE CASE s.o = "cb"   -> acc.p + a
                          [] s.o = "seek" -> 8 * a + s.b
                          [] OTHER        -> acc.p + Len(w[2])
             mem == IF ok /\ ~move THEN Overlay(acc.mem, acc.p, w[2]) ELSE acc.mem
             good == /\ (s.ok = 1) = ok
                     /\ s.p = p
                     /\ s.m = Pack(mem)
                     /\ s.o = "ns" => s.sz = Len(w[2])
         IN  IF good THEN [acc EXCEPT !.p = p, !.mem = mem]
             ELSE [acc EXCEPT !.bad = <<s, [ok |-> ok, p |-> p, m |-> Pack(mem), at |-> acc.p]>>],
    [p |-> 0, mem |-> MemBits(size, fill), bad |-> <<>>], steps).bad
=============================================================================
