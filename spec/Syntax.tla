------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* Syntax elements.  A syntax structure of the standard is written once,   *)
(* as an operator on a "cursor" s, and means three things depending on     *)
(* s.m:                                                                    *)
(*   "d"  decode: read the elements from the bytes s.b at bit position s.p *)
(*   "g"  generate: choose a value for every element (from the random tape *)
(*        s.tape), append its bits to s.b.                                 *)
(* In both modes s.f is the record of the decoded/chosen elements and s.ok *)
(* says whether everything so far was present and within its range.  Once  *)
(* s.ok is FALSE nothing changes any more: a structure with a missing or   *)
(* out-of-range element is rejected as a whole.                            *)
(***************************************************************************)
EXTENDS Bits

EmptyF == [x \in {} |-> 0]

Cursor(bytes) ==
  [m |-> "d", b |-> bytes, p |-> 0, n |-> 8 * Len(bytes), ok |-> TRUE,
   f |-> EmptyF, pfx |-> "", un |-> 0, tape |-> <<>>, t |-> 1,
   force |-> EmptyF, bad |-> FALSE, wild |-> FALSE, off |-> FALSE]

GenCursor(tape, force, bad) ==
  [m |-> "g", b |-> <<>>, p |-> 0, n |-> 0, ok |-> TRUE,
   f |-> EmptyF, pfx |-> "", un |-> 0, tape |-> tape, t |-> 1,
   force |-> force, bad |-> bad, wild |-> FALSE, off |-> FALSE]

Fail(s) == [s EXCEPT !.ok = FALSE]
\* With s.wild, generation notes that something is out of range (s.off) and
\* goes on, to make what a parser that did not look would take for a whole
\* structure.
Off(s) == IF s.m = "g" /\ s.wild THEN [s EXCEPT !.off = TRUE] ELSE Fail(s)
Require(s, c) == IF s.ok /\ ~c THEN Off(s) ELSE s
Unimplemented(s) == IF s.ok THEN [s EXCEPT !.ok = FALSE, !.un = @ + 1] ELSE s

\* value of an element of the current structure (0 if absent)
V(s, nm) == IF (s.pfx \o nm) \in DOMAIN s.f THEN s.f[s.pfx \o nm] ELSE 0
VecLast(s, nm) == LET q == s.f[s.pfx \o nm] IN q[Len(q)]

\* define a derived/inferred field
Def(s, nm, v) ==
  IF s.ok THEN [s EXCEPT !.f = ((s.pfx \o nm) :> v) @@ @] ELSE s
PushF(s, nm, v) ==
  LET k == s.pfx \o nm
      old == IF k \in DOMAIN s.f THEN s.f[k] ELSE <<>>
  IN  [s EXCEPT !.f = (k :> Append(old, v)) @@ @]

\* enter a sub-structure; "@" records that it is there
Within(s, name) == Def([s EXCEPT !.pfx = @ \o name \o "."], "@", 1)
Back(s, s0) == [s EXCEPT !.pfx = s0.pfx]

(***************************************************************************)
(* Element descriptors <<kind, name, width, lo, hi, vector?>>.             *)
(*   kind  "u"  u(width), lo = 1 forbids zero                              *)
(*         "ue" ue(v) in 0..hi, hi = -1: no bound                          *)
(*         "se" se(v) in lo..hi, lo > hi: no bound                         *)
(***************************************************************************)
FU(nm, w)          == <<"u",  nm, w, 0, 0, FALSE>>
FUnz(nm, w)        == <<"u",  nm, w, 1, 0, FALSE>>
FUE(nm, hi)        == <<"ue", nm, 0, 0, hi, FALSE>>
FUEany(nm)         == <<"ue", nm, 0, 0, -1, FALSE>>
FSE(nm, lo, hi)    == <<"se", nm, 0, lo, hi, FALSE>>
FSEany(nm)         == <<"se", nm, 0, 1, 0, FALSE>>
VU(nm, w)          == <<"u",  nm, w, 0, 0, TRUE>>
VUE(nm, hi)        == <<"ue", nm, 0, 0, hi, TRUE>>
VUEany(nm)         == <<"ue", nm, 0, 0, -1, TRUE>>
VSEany(nm)         == <<"se", nm, 0, 1, 0, TRUE>>

InRange(d, v) ==
  CASE d[1] = "u"  -> (d[4] = 1 => v # 0)
    [] d[1] = "ue" -> (d[5] # -1 => (v >= 0 /\ v <= d[5]))
    [] d[1] = "se" -> (d[4] <= d[5] => (v >= d[4] /\ v <= d[5]))

\* out of range, but near enough to go on with
Near(d, v) ==
  CASE d[1] = "u"  -> TRUE
    [] d[1] = "ue" -> v >= 0 /\ v <= d[5] + 300
    [] d[1] = "se" -> v >= d[4] - 300 /\ v <= d[5] + 300

Take(s, d, v, bits) ==
  IF ~InRange(d, v) /\ ~(s.m = "g" /\ s.wild /\ Near(d, v)) THEN [s EXCEPT !.p = @ + bits, !.ok = FALSE]
  ELSE LET s1 == [s EXCEPT !.p = @ + bits, !.off = @ \/ ~InRange(d, v)]
       IN  IF d[6] THEN PushF(s1, d[2], v) ELSE Def(s1, d[2], v)

DecEl(s, d) ==
  IF d[1] = "u"
  THEN IF d[3] = 0 \/ s.p + d[3] > s.n THEN Fail(s)
       ELSE Take(s, d, BitsVal(s.b, s.p, d[3]), d[3])
  ELSE LET r == UE(s.b, s.p, s.n)
       IN  IF ~r.ok THEN Fail(s)
           ELSE Take(s, d, IF d[1] = "ue" THEN r.v ELSE SEMap(r.v), r.n)

(***************************************************************************)
(* Generation: choose by the tape.                                         *)
(***************************************************************************)
TapeAt(s) == s.tape[((s.t - 1) % Len(s.tape)) + 1]
Small == <<0, 1, 2, 3, 4, 5, 1, 0, 2, 0>>
PickU(w, t) ==
  LET c == t % 8  q == t \div 8
  IN  IF w = 1 THEN q % 2
      ELSE CASE c = 0 -> 0
             [] c = 1 -> IF w = 32 THEN -1 ELSE IF w = 31 THEN 2147483647 ELSE P2(w) - 1
             [] c = 2 -> 1
             [] OTHER -> IF w <= 26 THEN q % P2(w) ELSE q
UELimit(nm, hi) == IF nm = "pic_size_in_map_units_minus1" THEN 40 ELSE hi
PickUE(nm, hi, t, bad) ==
  LET c == t % 16  q == t \div 16
      cap == UELimit(nm, hi)
  IN  IF hi = -1
      THEN CASE c <= 9  -> Small[(q % 10) + 1]
             [] c = 10 -> 255
             [] c = 11 -> 65535
             [] c = 12 -> 2147483647
             [] c = 13 -> -2
             [] c = 14 -> ((-2147483647) - 1)
             [] OTHER  -> q % 1048576
      ELSE CASE bad /\ c = 12 -> hi + 1
             [] bad /\ c = 13 -> IF q % 4 = 0 THEN -2 ELSE IF q % 4 = 1 THEN 2147483647
                                 ELSE hi + 2 + (q % 5)
             [] c = 0  -> 0
             [] c = 1  -> cap
             [] c = 2  -> Max2(cap - 1, 0)
             [] c <= 11 /\ cap > 40 -> Min2(Small[(q % 10) + 1], cap)
             [] OTHER  -> q % (cap + 1)
PickSE(lo, hi, t, bad) ==
  LET c == t % 16  q == t \div 16
  IN  IF lo > hi
      THEN CASE c <= 9  -> (q % 9) - 4
             [] c = 10 -> 32768
             [] c = 11 -> -32768
             [] c = 12 -> 2147483647
             [] c = 13 -> -2147483647
             [] c = 14 -> 1073741824
             [] OTHER  -> (q % 100000) - 50000
      ELSE CASE bad /\ c = 12 -> hi + 1
             [] bad /\ c = 13 -> lo - 1
             [] c = 0 -> lo
             [] c = 1 -> hi
             [] c = 2 -> 0
             [] OTHER -> lo + (q % ((hi - lo) + 1))

Emit(s, bits) == [s EXCEPT !.b = @ \o bits, !.n = @ + Len(bits)]

GenEl(s, d) ==
  LET t  == TapeAt(s)
      s1 == [s EXCEPT !.t = @ + 1]
      path == s.pfx \o d[2]
      count == IF path \in DOMAIN s.f THEN Len(s.f[path]) ELSE 0
      v  == IF d[6] /\ ("=" \o path) \in DOMAIN s.force     \* a whole list
            THEN s.force["=" \o path][count + 1]
            ELSE IF d[2] \in DOMAIN s.force
            THEN LET c == s.force[d[2]] IN c[(t % Len(c)) + 1]
            ELSE CASE d[1] = "u"  -> LET x == PickU(d[3], t)
                                     IN IF d[4] = 1 /\ x = 0 /\ ~s.bad THEN 1 ELSE x
                   [] d[1] = "ue" -> PickUE(d[2], d[5], t, s.bad)
                   [] d[1] = "se" -> PickSE(d[4], d[5], t, s.bad)
      bits == CASE d[1] = "u"  -> UBits(v, d[3])
                [] d[1] = "ue" -> UEBits(v)
                [] d[1] = "se" -> SEBits(v)
  IN  Take(Emit(s1, bits), d, v, Len(bits))

\* As a function only for TLC's sake: a function is evaluated in the context
\* of its definition, an operator in that of its use, which is searched
\* linearly for every name.
ElF == [x \in Any |-> IF x[1].m = "d" THEN DecEl(x[1], x[2]) ELSE GenEl(x[1], x[2])]
s ++ d == IF ~s.ok THEN s ELSE ElF[<<s, d>>]

(***************************************************************************)
(* RBSP helpers on a cursor.                                               *)
(***************************************************************************)
\* 7.2 more_rbsp_data(): is there anything before the trailing bits?
OnlyTrailing(b, p, n) ==
  p < n /\ BitAt(b, p) = 1 /\ ZeroRun(b, p + 1, n - p - 1) = n - p - 1
MoreRbsp(b, p, n) == p < n /\ ~OnlyTrailing(b, p, n)
\* In generation the answer is a choice.  MoreStep(s) = [s, yes]
More(s) ==
  IF ~s.ok THEN [s |-> s, yes |-> FALSE]
  ELSE IF s.m = "d" THEN [s |-> s, yes |-> MoreRbsp(s.b, s.p, s.n)]
  ELSE LET t == TapeAt(s)
           v == IF "more_rbsp_data" \in DOMAIN s.force
                THEN LET c == s.force["more_rbsp_data"] IN c[(t % Len(c)) + 1]
                ELSE (t \div 8) % 2
       IN  [s |-> [s EXCEPT !.t = @ + 1], yes |-> (v = 1)]

\* 7.3.2.11 rbsp_trailing_bits(): consumes up to and including the first bit
\* that is not what it should be; the parsers ignore the verdict.
TrailPos(b, p, n) ==
  IF p >= n THEN p
  ELSE IF BitAt(b, p) = 0 THEN p + 1
  ELSE LET al == ((p + 1 + 7) \div 8) * 8          \* next aligned position
           z  == ZeroRun(b, p + 1, Min2(al, n) - (p + 1))
       IN  Min2(p + 1 + z + (IF p + 1 + z < al THEN 1 ELSE 0), n)
TrailOk(b, p, n) ==
  /\ p < n /\ BitAt(b, p) = 1
  /\ LET al == ((p + 1 + 7) \div 8) * 8
     IN  al <= n /\ ZeroRun(b, p + 1, al - (p + 1)) = al - (p + 1)
Trailing(s) ==
  IF ~s.ok THEN s
  ELSE IF s.m = "d" THEN [s EXCEPT !.p = TrailPos(s.b, s.p, s.n)]
  ELSE LET k == (8 - ((Len(s.b) + 1) % 8)) % 8
       IN  [Emit(s, <<1>> \o Zeros(k)) EXCEPT !.p = @ + 1 + k]

\* n repetitions of Body(cursor, i), i = 0..n-1.  Every element takes at
\* least a bit, so a cursor can survive no more than its remaining bits.
Repeat(s, n, Body(_, _)) ==
  LET k == IF s.m = "d" THEN Min2(n, (s.n - s.p) + 1) ELSE n
  IN  IF s.ok /\ s.off /\ k > 600 THEN Fail(s)
      ELSE IF ~s.ok \/ k <= 0 THEN s
      ELSE FoldLeft(LAMBDA c, i : IF c.ok THEN Body(c, i - 1) ELSE c, s, OneTo(k))
=============================================================================
