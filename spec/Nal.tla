--------------------------------- MODULE Nal ---------------------------------
(***************************************************************************)
(* The NAL unit layer: dispatch on nal_unit_type, parameter set stores,    *)
(* checksum, and the parsers of whole buffers.                             *)
(*                                                                         *)
(* st = [sps, pps, sub]: the stores, functions id -> field record.         *)
(***************************************************************************)
EXTENDS Svc, Framing

EmptyStore == [sps |-> EmptyF, pps |-> EmptyF, sub |-> EmptyF]

\* What the structure of a payload is called; "none": it is skipped whole
Kind(h) ==
  CASE G(h, "nal_unit_type") \in {1, 5} -> "slice"
    [] G(h, "nal_unit_type") = 7        -> "sps"
    [] G(h, "nal_unit_type") = 8        -> "pps"
    [] G(h, "nal_unit_type") = 14       -> IF G(h, "svc_extension_flag") = 1 THEN "prefix" ELSE "none"
    [] G(h, "nal_unit_type") = 15       -> "subset"
    [] G(h, "nal_unit_type") = 20       -> IF G(h, "svc_extension_flag") = 1 THEN "shise" ELSE "slice"
    [] OTHER                            -> "none"

\* DEVIATION (known finding KF-2): a PPS is parsed as if its SPS were 4:2:0
PpsChromaFormat == 1

\* c: cursor after the header, with no fields
Payload(c, h, st) ==
  LET k == Kind(h)
  IN  CASE k = "slice"  -> SliceHeader(c, G(h, "nal_ref_idc"), G(h, "nal_unit_type"), st)
        [] k = "sps"    -> Sps(c)
        [] k = "pps"    -> Pps(c, PpsChromaFormat)
        [] k = "prefix" -> PrefixNal(c, h)
        [] k = "subset" -> SubsetSps(c)
        [] k = "shise"  -> Shise(c, h, st)
        [] OTHER        -> c

\* a parameter set that was decoded replaces the one with its identifier; one
\* that was not changes nothing
Store(st, k, r) ==
  IF ~r.ok THEN st
  ELSE CASE k = "sps"    -> [st EXCEPT !.sps = (r.f["seq_parameter_set_id"] :> r.f) @@ @]
         [] k = "pps"    -> [st EXCEPT !.pps = (r.f["pic_parameter_set_id"] :> r.f) @@ @]
         [] k = "subset" -> [st EXCEPT !.sub =
                               (r.f["seq_parameter_set_data.seq_parameter_set_id"] :> r.f) @@ @]
         [] OTHER        -> st

\* is the payload of such a NAL unit one a caller should have got?
PayloadExpected(h) == G(h, "nal_unit_type") \in {1, 5, 7, 8, 14, 15, 20}

(***************************************************************************)
(* 32-bit one's complement sum of the big-endian words of the unescaped    *)
(* NAL unit, zero padded; in 16-bit limbs.  Four bytes, most significant   *)
(* first.                                                                  *)
(***************************************************************************)
Checksum(b) ==
  LET B(i) == IF i <= Len(b) THEN b[i] ELSE 0
      \* the carries folded back at every step keep the limbs small
      Add(a, h, w) == LET l0 == a[2] + w   h0 == a[1] + h + (l0 \div 65536)
                      IN  <<h0 % 65536, (l0 % 65536) + (h0 \div 65536)>>
      sums == FoldLeft(LAMBDA a, k : Add(a, B(4*k-3) * 256 + B(4*k-2), B(4*k-1) * 256 + B(4*k)),
                       <<0, 0>>, OneTo((Len(b) + 3) \div 4))
      h0 == sums[1] + (sums[2] \div 65536)
      l1 == (sums[2] % 65536) + (h0 \div 65536)          \* fold the carries back
      h1 == (h0 % 65536) + (l1 \div 65536)
      l2 == (l1 % 65536) + (h1 \div 65536)               \* and the carry of that
      h2 == (h1 % 65536) + (l2 \div 65536)
      hi == 65535 - (h2 % 65536)
      lo == 65535 - (l2 % 65536)
  IN  <<hi \div 256, hi % 256, lo \div 256, lo % 256>>

(***************************************************************************)
(* One NAL unit, unescaped.                                                *)
(*   drop    the header is unusable: there is no NAL unit                  *)
(*   parsed  its payload was decoded (skipped payloads count as parsed)    *)
(*   un      number of unimplemented structures met                        *)
(***************************************************************************)
ParseNalF == [x \in Any |->
  LET b == x[1]  st == x[2]
      h == NalHeader(Cursor(b))
  IN  IF ~h.ok
      THEN [drop |-> TRUE, h |-> EmptyF, kind |-> "none", parsed |-> FALSE, f |-> EmptyF,
            plen |-> 0, un |-> h.un, st |-> st, ck |-> <<>>]
      ELSE LET k == Kind(h.f)
               r == Payload([h EXCEPT !.f = EmptyF], h.f, st)
           IN  [drop |-> FALSE, h |-> h.f, kind |-> k, parsed |-> r.ok, f |-> r.f,
                plen |-> (r.p + 7) \div 8, un |-> r.un, st |-> Store(st, k, r),
                ck |-> Checksum(b)]]
ParseNal(b, st) == ParseNalF[<<b, st>>]

\* the units of a buffer in order, the stores threaded through them; units
\* without a usable header are left out
ParseUnits(b, index, st0) ==
  FoldLeft(LAMBDA acc, x :
             LET r == ParseNal(Unescape(Slice(b, x.payload, x.size)), acc.st)
             IN  [st |-> r.st, un |-> acc.un + r.un,
                  units |-> IF r.drop THEN acc.units
                            ELSE Append(acc.units, [off |-> x.payload, len |-> x.size, r |-> r])],
           [st |-> st0, un |-> 0, units |-> <<>>], index)
ParseAnnexB(b, st) == ParseUnits(b, AnnexB(b), st)
ParseLengths(b, n, st) == ParseUnits(b, LengthFraming(b, n), st)
=============================================================================
