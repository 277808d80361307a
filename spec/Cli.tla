--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line tool: arguments to options, options and file to text   *)
(* and exit status.                                                        *)
(***************************************************************************)
EXTENDS Dump

(***************************************************************************)
(* Arguments, in order; a later one overrides an earlier one.              *)
(* An argument is [o, v]: the option and its value ("" if it takes none).  *)
(***************************************************************************)
Defaults == [mode |-> "all", one |-> TRUE, offset |-> FALSE, length |-> FALSE, parsed |-> FALSE,
             checksum |-> FALSE, resolution |-> FALSE, contents |-> FALSE,
             n |-> -1, fps |-> 30, stop |-> "no"]

DigitTab == [x \in {"0","1","2","3","4","5","6","7","8","9"} |->
               CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] x = "4" -> 4
                 [] x = "5" -> 5 [] x = "6" -> 6 [] x = "7" -> 7 [] x = "8" -> 8 [] x = "9" -> 9]
\* the number a string of digits spells if it is at most 2^31 - 1, else -1
Number(s) ==
  LET step(a, i) ==
        LET ch == SubSeq(s, i, i)
        IN  IF a < 0 \/ ch \notin DOMAIN DigitTab THEN -1
            ELSE IF a > 214748364 \/ (a = 214748364 /\ DigitTab[ch] > 7) THEN -1
            ELSE 10 * a + DigitTab[ch]
  IN  IF Len(s) = 0 THEN -1 ELSE FoldLeft(step, 0, OneTo(Len(s)))

WithNumber(o, field, s) ==
  IF Number(s) < 0 THEN [o EXCEPT !.stop = "usage"] ELSE [o EXCEPT ![field] = Number(s)]

Apply(o, a) ==
  IF o.stop # "no" THEN o
  ELSE CASE a.o = "--dump-all"             -> [o EXCEPT !.mode = "all"]
         [] a.o = "--dump-length"          -> [o EXCEPT !.mode = "length"]
         [] a.o = "--as-one-line"          -> [o EXCEPT !.one = TRUE]
         [] a.o = "--no-as-one-line"       -> [o EXCEPT !.one = FALSE]
         [] a.o = "--add-offset"           -> [o EXCEPT !.offset = TRUE]
         [] a.o = "--no-add-offset"        -> [o EXCEPT !.offset = FALSE]
         [] a.o = "--add-length"           -> [o EXCEPT !.length = TRUE]
         [] a.o = "--no-add-length"        -> [o EXCEPT !.length = FALSE]
         [] a.o = "--add-parsed-length"    -> [o EXCEPT !.parsed = TRUE]
         [] a.o = "--no-add-parsed-length" -> [o EXCEPT !.parsed = FALSE]
         [] a.o = "--add-checksum"         -> [o EXCEPT !.checksum = TRUE]
         [] a.o = "--no-add-checksum"      -> [o EXCEPT !.checksum = FALSE]
         [] a.o = "--add-resolution"       -> [o EXCEPT !.resolution = TRUE]
         [] a.o = "--no-add-resolution"    -> [o EXCEPT !.resolution = FALSE]
         [] a.o = "--add-contents"         -> [o EXCEPT !.contents = TRUE]
         [] a.o = "--no-add-contents"      -> [o EXCEPT !.contents = FALSE]
         [] a.o = "--nalu-length-bytes"    -> WithNumber(o, "n", a.v)
         [] a.o = "--frames-per-second"    -> WithNumber(o, "fps", a.v)
         [] a.o \in {"-d", "--debug", "--quiet"} -> o
         [] a.o = "--version"              -> [o EXCEPT !.stop = "version"]
         [] OTHER                          -> [o EXCEPT !.stop = "usage"]
Options(args) == FoldLeft(Apply, Defaults, args)

\* what an option brings with it
Offset(o) == o.offset \/ o.contents
Length(o) == o.length \/ o.contents \/ o.mode = "length"
Mask(o) == (IF Offset(o) THEN 1 ELSE 0) + (IF Length(o) THEN 2 ELSE 0)
           + (IF o.parsed THEN 4 ELSE 0) + (IF o.checksum THEN 8 ELSE 0)
           + (IF o.resolution THEN 16 ELSE 0)

(***************************************************************************)
(* Large products, as text: x * y in limbs of four decimal digits.         *)
(***************************************************************************)
Limbs(x) == <<x % 10000, (x \div 10000) % 10000, x \div 100000000>>
Pad4(v) == (IF v < 10 THEN "000" ELSE IF v < 100 THEN "00" ELSE IF v < 1000 THEN "0" ELSE "") \o ToString(v)
ProductText(x, y) ==
  LET a == Limbs(x)  b == Limbs(y)
      at(k) == FoldLeft(LAMBDA s, i : IF k + 1 - i \in 1..3 THEN s + a[i] * b[k + 1 - i] ELSE s, 0, OneTo(3))
      \* carry upwards: limbs 1..6, least significant first
      r == FoldLeft(LAMBDA acc, k : LET v == acc.c + (IF k <= 5 THEN at(k) ELSE 0)
                                    IN  [c |-> v \div 10000, q |-> Append(acc.q, v % 10000)],
                    [c |-> 0, q |-> <<>>], OneTo(6)).q
      top == {i \in 1..6 : r[i] # 0}
      m == IF top = {} THEN 1 ELSE CHOOSE i \in top : \A j \in top : j <= i
  IN  FoldLeft(LAMBDA s, i : s \o Pad4(r[m - i]), ToString(r[m]), OneTo(m - 1))

(***************************************************************************)
(* Types of NAL units (Table 7-1).                                         *)
(***************************************************************************)
TypeNames ==
  <<"unspecified", "coded_slice_of_non_idr_picture", "coded_slice_data_partition_a",
    "coded_slice_data_partition_b", "coded_slice_data_partition_c", "coded_slice_of_idr_picture",
    "sei", "sps", "pps", "aud", "eoseq", "eostream", "filler_data", "sps_extension", "prefix",
    "subset_sps", "rsv16", "rsv17", "rsv18", "coded_slice_of_auxiliary_coded_picture",
    "coded_slice_extension", "rsv21", "rsv22", "rsv23", "unspec24", "unspec25", "unspec26",
    "unspec27", "unspec28", "unspec29", "unspec30", "unspec31">>
TypeName(t) == IF t \in 0..31 THEN TypeNames[t + 1] ELSE "unknown"
SliceSegments == {1, 2, 3, 4, 5, 19, 20}
ReservedTypes == {16, 17, 18, 21, 22, 23}
UnspecifiedTypes == 24..31

(***************************************************************************)
(* --dump-length: one row per NAL unit; one row per frame, before the      *)
(* slice that opens the next one and at the end.                           *)
(***************************************************************************)
LengthHeader == "nal_num,frame_num,nal_unit_type,nal_unit_type_str,nal_length_bytes,bitrate_bps,first_mb_in_slice"
FrameRow(a, fps) == "," \o ToString(a.frame) \o "," \o ToString(a.last) \o ",frame,,"
                    \o (IF a.bytes < P2(28) THEN ProductText(8 * a.bytes, fps) ELSE ProductText(a.bytes, 8 * fps)) \o ","
\* the first macroblock of a slice; 0 if there is no such slice header
FirstMb(r) == IF r.parsed /\ r.kind = "slice" /\ G(r.h, "nal_unit_type") # 20 THEN G(r.f, "first_mb_in_slice") ELSE 0
LengthRows(units, fps) ==
  LET start == [num |-> 0, frame |-> 0, last |-> -1, bytes |-> 0, rows |-> <<LengthHeader>>]
      step(a0, u) ==
        LET t == G(u.r.h, "nal_unit_type")
            slice == t \in SliceSegments
            cut == slice /\ FirstMb(u.r) = 0 /\ a0.bytes > 0
            a == IF cut THEN [a0 EXCEPT !.rows = Append(@, FrameRow(a0, fps)), !.frame = @ + 1, !.bytes = 0]
                 ELSE a0
            row == ToString(a.num) \o "," \o ToString(a.frame) \o "," \o ToString(t) \o "," \o TypeName(t)
                   \o "," \o ToString(u.len) \o ",," \o (IF slice THEN UStr(FirstMb(u.r)) ELSE "")
        IN  [a EXCEPT !.num = @ + 1, !.last = IF slice THEN t ELSE @,
                      !.bytes = IF slice THEN @ + u.len ELSE @, !.rows = Append(@, row)]
      end == FoldLeft(step, start, units)
  IN  IF end.bytes > 0 THEN Append(end.rows, FrameRow(end, fps)) ELSE end.rows

(***************************************************************************)
(* --dump-all                                                              *)
(***************************************************************************)
ContentsText(b) ==
  " contents {" \o FoldLeft(LAMBDA s, i : s \o " " \o HexN(b[i], 2) \o (IF i % 16 = 0 THEN " " ELSE ""), "", OneTo(Len(b)))
  \o " }"
UnitText(b, u, o) ==
  LET ls == NalLines(u.r, u.off, u.len, Mask(o))
      q == IF o.one THEN <<OneLine(ls)>> ELSE Indented(ls)
  IN  IF o.contents THEN [q EXCEPT ![Len(q)] = @ \o ContentsText(Slice(b, u.off, u.len))] ELSE q

(***************************************************************************)
(* A run on the bytes b: lines of output, exit status.                     *)
(***************************************************************************)
\* NAL units of which not everything was decoded; with length framing, units
\* without a usable header are not counted
Unparsed(b, o, r) ==
  (IF o.n < 0 THEN Len(AnnexB(b)) - Len(r.units) ELSE 0)
  + Len(SelectSeq(r.units, LAMBDA u : PayloadExpected(u.r.h) /\ (~u.r.parsed \/ u.r.kind = "none")))

\* with c zeros more after the first k bytes, inside a unit without a parser
\* (and where four zeros follow: StretchOk in MCFraming): only places change
Widened(units, k, c) ==
  LET m(p) == IF p <= k THEN p ELSE p + c
  IN  [i \in 1..Len(units) |->
         [units[i] EXCEPT !.off = m(@), !.len = m(units[i].off + @) - m(units[i].off)]]

RunWide(b, o, k, c) ==
  LET r0 == IF o.n < 0 THEN ParseAnnexB(b, EmptyStore) ELSE ParseLengths(b, o.n, EmptyStore)
      r == IF c = 0 THEN r0 ELSE [r0 EXCEPT !.units = Widened(@, k, c)]
      left == Unparsed(b, o, r)
      text == IF o.mode = "length" THEN LengthRows(r.units, o.fps)
              ELSE FoldLeft(LAMBDA a, u : a \o UnitText(b, u, o), <<>>, r.units)
  IN  [lines |-> text, un |-> r.un, left |-> left,
       rc |-> IF r.un > 0 THEN 2 ELSE IF left > 0 THEN 1 ELSE 0]
Run(b, o) == RunWide(b, o, 0, 0)
=============================================================================
