-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Bytes, bits and 32-bit integers.                                        *)
(*                                                                         *)
(* A buffer is a sequence of bytes (0..255).  A position is a bit offset   *)
(* from its start, most significant bit first.  TLC's integers are 32-bit  *)
(* and trap on overflow, so a value of the code's uint32_t is represented  *)
(* by the int32 with the same bit pattern (2^32-1 is -1); the driver emits *)
(* its values with the same cast.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, FiniteSets, SequencesExt

Pow2Tab == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192,
             16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152,
             4194304, 8388608, 16777216, 33554432, 67108864, 134217728,
             268435456, 536870912, 1073741824>>
P2(n) == Pow2Tab[n + 1]                                   \* 0 <= n <= 30

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
OneTo(n) == [i \in 1..n |-> i]

BitAt(b, p) == (b[(p \div 8) + 1] \div P2(7 - (p % 8))) % 2

\* the value of the n <= 30 bits at bit position p
RECURSIVE BitsAcc(_, _, _, _)
BitsAcc(b, p, n, acc) ==
  IF n = 0 THEN acc
  ELSE LET o == p % 8
           k == Min2(8 - o, n)
           v == (b[(p \div 8) + 1] \div P2(8 - o - k)) % P2(k)
       IN  BitsAcc(b, p + k, n - k, acc * P2(k) + v)

Hi16Lo16(hi, lo) ==             \* (hi << 16) + lo as an int32
  IF hi >= 32768 THEN ((hi - 65536) * 65536) + lo ELSE (hi * 65536) + lo

\* the value of the n bits (1 <= n <= 32) at bit position p, as an int32
BitsVal(b, p, n) ==
  IF n <= 16 THEN BitsAcc(b, p, n, 0)
  ELSE Hi16Lo16(BitsAcc(b, p, n - 16, 0), BitsAcc(b, p + n - 16, 16, 0))

\* number of zero bits at p, looking at no more than `left` bits
RECURSIVE ZeroRun(_, _, _)
ZeroRun(b, p, left) ==
  IF left = 0 THEN 0
  ELSE IF p % 8 = 0 /\ left >= 8 /\ b[(p \div 8) + 1] = 0
       THEN 8 + ZeroRun(b, p + 8, left - 8)
       ELSE IF BitAt(b, p) = 1 THEN 0 ELSE 1 + ZeroRun(b, p + 1, left - 1)

(***************************************************************************)
(* Exp-Golomb (H.264 9.1).  [ok, v, n]: n is the number of bits consumed,  *)
(* 0 when the code does not fit in what is left or has more than 31        *)
(* leading zeros.                                                          *)
(***************************************************************************)
NoUE == [ok |-> FALSE, v |-> 0, n |-> 0]
UE(b, p, total) ==
  LET z == ZeroRun(b, p, total - p)
  IN  IF z > 31 \/ p + 2 * z + 1 > total THEN NoUE
      ELSE IF z = 31
           THEN LET x == BitsVal(b, p + 32, 31)
                IN  [ok |-> TRUE, n |-> 63,
                     v |-> IF x = 0 THEN 2147483647
                           ELSE ((-2147483647) - 1) + (x - 1)]
           ELSE [ok |-> TRUE, n |-> 2 * z + 1,
                 v |-> BitsVal(b, p + z, z + 1) - 1]

\* codeNum k -> (-1)^(k+1) Ceil(k/2), k given in the int32 representation
SEMap(k) ==
  IF k >= 0 THEN IF k % 2 = 0 THEN -(k \div 2) ELSE (k \div 2) + 1
  ELSE \* k = 2^31 + y, 0 <= y <= 2^31 - 2
       LET y == (k + 2147483647) + 1
       IN  IF y % 2 = 0 THEN -(1073741824 + (y \div 2))
           ELSE 1073741824 + ((y + 1) \div 2)

(***************************************************************************)
(* Writing.                                                                *)
(***************************************************************************)
\* v's n low bits, msb first (1 <= n <= 30, 0 <= v < 2^n)
BitSeq(v, n) == [i \in 1..n |-> (v \div P2(n - i)) % 2]
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Width(_)
Width(v) == IF v = 0 THEN 0 ELSE 1 + Width(v \div 2)

\* n bits of an int32-represented value, n in 1..32
UBits(v, n) ==
  IF n <= 30 THEN BitSeq(v, n)
  ELSE LET hi == IF v >= 0 THEN v \div 65536
                 ELSE 32768 + (((v + 2147483647) + 1) \div 65536)
       IN  BitSeq(hi, n - 16) \o BitSeq(v % 65536, 16)

\* ue(v) of an int32-represented value (all but 2^32-1)
UEBits(v) ==
  IF v >= 0 /\ v < 1073741823
  THEN LET w == Width(v + 1) IN Zeros(w - 1) \o BitSeq(v + 1, w)
  ELSE IF v >= 0 /\ v < 2147483647
  THEN Zeros(30) \o <<1>> \o BitSeq((v + 1) - 1073741824, 30)
  ELSE IF v = 2147483647 THEN Zeros(31) \o <<1>> \o Zeros(31)
  ELSE LET x == ((v + 2147483647) + 1) + 1          \* v + 1 - 2^31
       IN  Zeros(31) \o <<1>> \o BitSeq(x \div 1073741824, 1)
                     \o BitSeq(x % 1073741824, 30)

\* the codeNum of a signed value (v > -2^31)
SECode(v) ==
  IF v > 0 THEN IF v <= 1073741824 THEN 2 * (v - 1) + 1
                ELSE ((-2147483647) - 1) + (2 * (v - 1073741825) + 1)
  ELSE IF v >= -1073741823 THEN 2 * (-v)
       ELSE ((-2147483647) - 1) + 2 * ((-v) - 1073741824)
SEBits(v) == UEBits(SECode(v))

RECURSIVE PackAt(_, _, _)
PackByte(bits, i) ==
  LET B(k) == IF i + k <= Len(bits) THEN bits[i + k] ELSE 0
  IN  128*B(0) + 64*B(1) + 32*B(2) + 16*B(3) + 8*B(4) + 4*B(5) + 2*B(6) + B(7)
PackAt(bits, i, n) == [k \in 1..n |-> PackByte(bits, i + 8 * (k - 1))]
\* bits -> bytes, zero padded
Pack(bits) == PackAt(bits, 1, (Len(bits) + 7) \div 8)
=============================================================================
