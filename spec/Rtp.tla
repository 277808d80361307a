--------------------------------- MODULE Rtp ---------------------------------
(***************************************************************************)
(* RTP payloads (RFC 6184): single NAL unit, STAP-A, FU-A.                 *)
(***************************************************************************)
EXTENDS Nal

Unit(b, st) ==     \* header and payload of one unescaped NAL unit
  ParseNal(b, st)

(***************************************************************************)
(* STAP-A: a one-byte header, then NAL units each behind a 16-bit size,    *)
(* each unescaped on its own.  A unit that does not fit or has no usable   *)
(* header invalidates the packet; units before it have taken effect.       *)
(* A single byte left over after a unit is taken as part of that unit.     *)
(***************************************************************************)
RECURSIVE StapFrom(_, _, _)
StapFrom(b, i, acc) ==
  IF i >= Len(b) THEN acc
  ELSE IF i + 2 > Len(b) THEN [acc EXCEPT !.ok = FALSE]
  ELSE LET z == b[i+1] * 256 + b[i+2]
       IN  IF z > Len(b) - i - 2 THEN [acc EXCEPT !.ok = FALSE]
           ELSE LET n == IF Len(b) - i - 2 - z = 1 THEN z + 1 ELSE z
                    r == Unit(Unescape(Slice(b, i + 2, n)), acc.st)
                    a == [acc EXCEPT !.un = @ + r.un, !.st = r.st]
                IN  IF r.drop THEN [a EXCEPT !.ok = FALSE]
                    ELSE StapFrom(b, i + 2 + n,
                                  [a EXCEPT !.units = Append(@, [size |-> z, r |-> r])])

(***************************************************************************)
(* The result [ok, form, h, un, st, units, fu].                            *)
(***************************************************************************)
RtpFail(st, un) == [ok |-> FALSE, form |-> "none", h |-> EmptyF, un |-> un, st |-> st,
                    units |-> <<>>, fu |-> <<>>]
ParseRtp(packet, st) ==
  LET isStap == packet # <<>> /\ packet[1] % 32 = 24
      b == IF isStap THEN packet ELSE Unescape(packet)
      h == NalHeader(Cursor(b))
      t == G(h.f, "nal_unit_type")
  IN  IF ~h.ok THEN RtpFail(st, h.un)
      ELSE CASE t <= 23 ->
                  LET r == Unit(b, st)
                  IN  [ok |-> TRUE, form |-> "single", h |-> h.f, un |-> r.un, st |-> r.st,
                       units |-> <<[size |-> Len(b), r |-> r]>>, fu |-> <<>>]
             [] t = 24 ->
                  LET a == StapFrom(b, 1, [ok |-> TRUE, un |-> 0, st |-> st, units |-> <<>>])
                  IN  IF ~a.ok THEN RtpFail(a.st, a.un)
                      ELSE [ok |-> TRUE, form |-> "stapa", h |-> h.f, un |-> a.un, st |-> a.st,
                            units |-> a.units, fu |-> <<>>]
             [] t = 28 ->
                  IF Len(b) < 2 THEN RtpFail(st, 0)
                  ELSE LET s == b[2] \div 128
                           fu == <<s, (b[2] \div 64) % 2, (b[2] \div 32) % 2, b[2] % 32>>
                           fh == ("nal_ref_idc" :> h.f["nal_ref_idc"])
                                 @@ ("nal_unit_type" :> fu[4])
                           r == Payload([h EXCEPT !.f = EmptyF, !.p = 16], fh, st)
                           k == Kind(fh)
                       IN  IF s = 0
                           THEN [ok |-> TRUE, form |-> "fua", h |-> h.f, un |-> 0, st |-> st,
                                 units |-> <<>>, fu |-> fu]
                           ELSE [ok |-> TRUE, form |-> "fua", h |-> h.f, un |-> r.un,
                                 st |-> Store(st, k, r), fu |-> fu,
                                 units |-> <<[size |-> 0,
                                              r |-> [drop |-> FALSE, h |-> fh, kind |-> k,
                                                     parsed |-> r.ok, f |-> r.f]]>>]
             [] OTHER -> [ok |-> TRUE, form |-> "other", h |-> h.f, un |-> 0, st |-> st,
                          units |-> <<>>, fu |-> <<>>]
=============================================================================
