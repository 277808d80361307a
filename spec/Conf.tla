-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* Conformance of a recorded trace: every event of the trace file is the   *)
(* call the driver made and what the real code answered; the specification *)
(* takes the same step and the answers are compared.  Every difference is  *)
(* printed; the run goes on with the specification's state, so one         *)
(* difference does not hide the next.                                      *)
(***************************************************************************)
EXTENDS H264, Tools, BitIO, Big, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLE l
cvars == <<store, unimpl, out, l>>

Clip(x) == LET t == ToString(x) IN IF Len(t) > 300 THEN SubSeq(t, 1, 300) ELSE t
\* report a difference unless ok
Same(ok, aspect, impl, spec) ==
  IF ok THEN TRUE
  ELSE PrintT("MISMATCH " \o ToJson([line |-> l, aspect |-> aspect,
                                     impl |-> Clip(impl), spec |-> Clip(spec)]))
\* TLC evaluates a LET in an action again at every use: answers of the
\* specification are bound by \E x \in {answer}
Eq(impl, spec, aspect) == Same(impl = spec, aspect, impl, spec)

(***************************************************************************)
(* Field records.  The code's record has only non-zero elements.           *)
(***************************************************************************)
IsZero(v) == ToString(v) \in {"0", "<<>>"}
FieldOk(name, impl, spec, context) ==
  IF name \in DOMAIN impl
  THEN IF name \in DOMAIN spec THEN impl[name] = spec[name] ELSE FALSE
  ELSE (name \in context) \/ IsZero(spec[name])
Has(r, k) == IF k \in DOMAIN r THEN ToString(r[k]) ELSE "-"
SameFields(impl, spec, context, aspect) ==
  LET bad == {n \in DOMAIN impl \cup DOMAIN spec : ~FieldOk(n, impl, spec, context)}
  IN  Same(bad = {}, aspect,
           [n \in bad |-> Has(impl, n)], [n \in bad |-> Has(spec, n)])

ContextOf(kind) == IF kind \in {"slice", "shise"} THEN ContextNames ELSE {}

(***************************************************************************)
(* A unit: header, payload.                                                *)
(***************************************************************************)
Hex2(v) == LET d == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
           IN  d[(v \div 16) + 1] \o d[(v % 16) + 1]
HexOf(b) == FoldLeft(LAMBDA a, v : a \o Hex2(v), "", b)

\* time_scale / (2 * num_units_in_tick), to the precision of a float
FramerateOk(fr, num, ts) == CloseTo(fr[1], fr[2], BigU32(ts), BigMul(<<2>>, BigU32(num)), 22)

SameDerived(dv, f) ==
  LET cat == ChromaArrayType(f)
  IN  /\ Eq(dv.cat, cat, "dv.ChromaArrayType")
      /\ Eq(dv.swc, SubWidthC(f), "dv.SubWidthC")
      /\ Eq(dv.shc, SubHeightC(f), "dv.SubHeightC")
      /\ Eq(dv.cux, CropUnitX(f), "dv.CropUnitX")
      /\ Eq(dv.cuy, CropUnitY(f), "dv.CropUnitY")
      /\ Eq(<<dv.rc, dv.w, dv.hh>>, <<0, OutWidth(f), OutHeight(f)>>, "dv.resolution")
      /\ Eq(dv.profile, ProfileType(f), "dv.profile")
      /\ "fr" \in DOMAIN dv =>
           Same(FramerateOk(dv.fr, G(f, "vui_parameters.num_units_in_tick"),
                            G(f, "vui_parameters.time_scale")), "dv.framerate", dv.fr,
                <<G(f, "vui_parameters.num_units_in_tick"), G(f, "vui_parameters.time_scale")>>)

SamePayload(x, r) ==
  LET kind == IF r.parsed THEN r.kind ELSE "none"
      t == G(r.h, "nal_unit_type")
  IN  IF x.k # kind
      THEN Same(FALSE, (IF kind = "none" THEN "accept." \o r.kind ELSE "reject." \o kind), x.k, kind)
      ELSE /\ kind # "none" => SameFields(x.f, r.f, ContextOf(kind), "fields." \o kind)
           /\ Eq(x.ipp, IF r.parsed /\ (PayloadExpected(r.h) => kind # "none") THEN 1 ELSE 0,
                 "ipp." \o r.kind)
           /\ "dv" \in DOMAIN x =>
                SameDerived(x.dv, IF kind = "subset" THEN Unprefixed(r.f, "seq_parameter_set_data.")
                                  ELSE r.f)

HasBit(mask, bit) == (mask \div bit) % 2 = 1

SameUnit(x, r, mask) ==
  IF x.null = 1 \/ r.drop
  THEN Same((x.null = 1) = r.drop, "drop", x.null, r.drop)
  ELSE /\ SameFields(x.h, r.h, {}, "header")
       /\ SamePayload(x, r)
       \* not there when the unit was parsed part by part
       /\ ("plen" \in DOMAIN x /\ (r.parsed \/ r.kind = "none")) => Eq(x.plen, r.plen, "plen." \o r.kind)
       /\ "ck" \in DOMAIN x =>
          /\ Eq(x.ck, IF HasBit(mask, 8) THEN r.ck ELSE <<>>, "checksum")
          /\ Eq(x.ckp, IF HasBit(mask, 8) THEN HexOf(r.ck) ELSE "", "checksum.print")

\* the stores: identifiers, or everything
IdsOf(x, full) == IF full THEN {x[i].id : i \in 1..Len(x)} ELSE {x[i] : i \in 1..Len(x)}
SameSet(x, s, full, aspect) ==
  /\ Eq(IdsOf(x, full), DOMAIN s, aspect)
  /\ full => \A i \in 1..Len(x) :
       x[i].id \in DOMAIN s => SameFields(x[i].f, s[x[i].id], {}, aspect \o ".content")
IsFull(e) == "full" \in DOMAIN e /\ e.full = 1
SameStores(e) ==
  /\ SameSet(e.st.sps, store'.sps, IsFull(e), "store.sps")
  /\ SameSet(e.st.pps, store'.pps, IsFull(e), "store.pps")
  /\ SameSet(e.st.sub, store'.sub, IsFull(e), "store.sub")
  /\ Eq(e.st.acc, 0, "store.accessors")

(***************************************************************************)
(* Renderings: expected lines (levels and texts) against both forms.       *)
(***************************************************************************)
FirstDiff(a, b) ==
  LET n == Min2(Len(a), Len(b))
      d == {i \in 1..n : a[i] # b[i]}
  IN  IF d = {} THEN n + 1 ELSE CHOOSE i \in d : \A j \in d : i <= j
LineAt(a, i) == IF i <= Len(a) THEN <<i, a[i]>> ELSE <<i, "(end)">>
SameText(impl, spec, aspect) ==
  LET i == FirstDiff(impl, spec)
  IN  Same(impl = spec, aspect, LineAt(impl, i), LineAt(spec, i))
SameDump(e, ls) ==
  "dumpn" \in DOMAIN e =>
    /\ SameText(e.dumpn, Indented(ls), "dump.indented")
    /\ Same(e.dump1 = <<OneLine(ls)>>, "dump.oneline", e.dump1, OneLine(ls))

(***************************************************************************)
(* One action per kind of event.                                           *)
(***************************************************************************)
DoSession(e) ==
  /\ NewSession
  /\ Eq(e.stale, 0, "stale")

DoNal(e) ==
  /\ CallNal(e.d, e.esc = 1)
  /\ SameUnit(e.r, out'.r, e.mask)
  /\ Eq(e.un, out'.r.un, "unimplemented")
  /\ SameStores(e)
  /\ ~out'.r.drop => SameDump(e, IF "at" \in DOMAIN e THEN FarLines(out'.r, e.at, e.mask)
                                ELSE NalLines(out'.r, 0, Len(e.d), e.mask))

DoBuffer(e) ==
  /\ IF e.op = "ab" THEN CallAnnexB(e.d, e.int = 1) ELSE CallLengths(e.d, e.n, e.int = 1)
  /\ LET r == out'.r IN
     /\ Eq(e.un, r.un, "unimplemented")
     /\ SameStores(e)
     /\ IF e.null = 1 THEN Same(FALSE, "null", 1, 0)
        ELSE /\ Eq(e.own, 1, "units.bytes")
             /\ Eq(e.omask, e.mask, "options")
             /\ IF Len(e.units) # Len(r.units)
                THEN Same(FALSE, "units", Len(e.units), Len(r.units))
                ELSE \A i \in 1..Len(r.units) :
                       /\ SameUnit(e.units[i], r.units[i].r, e.mask)
                       /\ Eq(e.units[i].off, r.units[i].off, "offset")
                       /\ Eq(e.units[i].len, r.units[i].len, "length")
             /\ "dumpn" \in DOMAIN e =>
                  \E X \in {FoldLeft(LAMBDA a, u : Append(a, NalLines(u.r, u.off, u.len, e.mask)), <<>>, r.units)} :
                      /\ SameText(e.dumpn, FoldLeft(LAMBDA a, x : a \o Indented(x), <<>>, X) \o <<"">>,
                                  "dump.indented")
                      /\ SameText(e.dump1, [i \in 1..Len(X) |-> OneLine(X[i])] \o <<"">>, "dump.oneline")

DoRtp(e) ==
  /\ CallRtp(e.d)
  /\ LET r == out'.r  x == e.r IN
     /\ Eq(e.un, r.un, "unimplemented")
     /\ SameStores(e)
     /\ IF x.null = 1 \/ ~r.ok THEN Same((x.null = 1) = ~r.ok, "rtp.drop", x.null, ~r.ok)
        ELSE /\ Eq(x.form, r.form, "rtp.form")
             /\ SameFields(x.h, r.h, {}, "rtp.header")
             /\ "h2" \in DOMAIN x => SameFields(x.h2, r.h, {}, "rtp.header")
             /\ Eq(x.fu, r.fu, "rtp.fu")
             /\ IF Len(x.units) # Len(r.units)
                THEN Same(FALSE, "rtp.units", Len(x.units), Len(r.units))
                ELSE \A i \in 1..Len(r.units) :
                       /\ "h" \in DOMAIN x.units[i] =>
                            SameFields(x.units[i].h, r.units[i].r.h, {}, "header")
                       /\ "size" \in DOMAIN x.units[i] =>
                            Eq(x.units[i].size, r.units[i].size, "rtp.size")
                       /\ SamePayload(x.units[i], r.units[i].r)
             /\ SameDump(e, RtpLines(r, TRUE))

Triples(q) == [i \in 1..Len(q) |-> <<q[i].start, q[i].payload, q[i].size>>]
DoUnescape(e) == UNCHANGED vars /\ Eq(e.o, Unescape(e.d), "unescape")
DoIndex(e)    == UNCHANGED vars /\ Eq(e.o, Triples(AnnexB(e.d)), "index")
DoExplicit(e) == UNCHANGED vars /\ Eq(e.o, Triples(ExplicitFraming(e.d)), "index.explicit")
DoType(e) ==
  \E h \in {NalHeader(Cursor(e.d))} :
      /\ UNCHANGED <<store, out>> /\ unimpl' = unimpl + h.un
      /\ Eq(e.ok, IF h.ok THEN 1 ELSE 0, "type")
      /\ (h.ok /\ e.ok = 1) => Eq(e.t, h.f["nal_unit_type"], "type")
      /\ Eq(e.un, h.un, "unimplemented")

DoRbsp(e) ==
  LET n == 8 * Len(e.d)
      at == IF e.at <= n THEN e.at ELSE 0
  IN  /\ UNCHANGED vars
      /\ Eq(e.al, IF at % 8 = 0 THEN 1 ELSE 0, "aligned")
      /\ Eq(e.cur, (at + 7) \div 8, "offset.bytes")
      /\ Eq(e.more, IF MoreRbsp(e.d, at, n) THEN 1 ELSE 0, "more")
      /\ Eq(e.pm, at, "more.position")
      /\ Eq(e.tr, IF TrailOk(e.d, at, n) THEN 1 ELSE 0, "trailing")
      /\ Eq(e.pt, TrailPos(e.d, at, n), "trailing.position")

\* the whole bytes there are from bit position at
BytesFrom(b, at) ==
  IF at = 0 THEN b ELSE [i \in 1..((8 * Len(b) - at) \div 8) |-> BitsVal(b, at + 8 * (i - 1), 8)]

DoChecksum(e) ==
  /\ UNCHANGED vars
  /\ \E ck \in {Checksum(BytesFrom(e.d, e.at))} :
       /\ Eq(e.ck, ck, "checksum")
       /\ Eq(e.ckp, HexOf(ck), "checksum.print")
       \* written into n = 3, 4, .. characters: the bytes that fit whole
       /\ Eq(e.ckt, [k \in 1..Len(e.ckt) |-> HexOf(SubSeq(ck, 1, Min2(4, (k + 1) \div 2)))], "checksum.print")
  /\ Eq(e.p, e.at, "checksum.position")

\* the widths both slice headers and the PPS use: of frame_num,
\* pic_order_cnt_lsb, slice_group_change_cycle, slice_group_id
DoWidths(e) ==
  LET w == e.a[1] + 1  h == e.a[2] + 1
      want == <<e.a[4] + 4, e.a[5] + 4, CycleWidth(w * h, e.a[3]), w, h, w * h, e.a[3] + 1>>
  IN  /\ UNCHANGED vars
      /\ Eq(e.o, <<want, want>>, "widths")
      /\ Eq(e.g, CeilLog2(e.a[6] + 1), "widths")

\* a structure through its own entry point, which takes escaped bytes
DoOne(e) ==
  LET c == Cursor(Unescape(e.d))
      w == e.what
      sub == CASE w = "rplm" -> "ref_pic_list_modification."
               [] w = "pwt"  -> "pred_weight_table."
               [] w = "drpm" -> "dec_ref_pic_marking."
               [] OTHER      -> ""
  IN  \E r \in {
             CASE w = "hdr"     -> NalHeader(c)
             [] w = "sps"     -> Sps(c)
             [] w = "spsdata" -> SpsData(c)
             [] w = "vui"     -> Vui(c)
             [] w = "hrd"     -> Hrd(c)
             [] w = "spx"     -> SpsExtension(c)
             [] w = "pps"     -> Pps(c, e.a[1])
             [] w = "subset"  -> SubsetSps(c)
             [] w = "svcext"  -> SpsSvcExt(c, e.a[1])
             [] w = "rplm"    -> RefPicListModification(c, e.a[1])
             [] w = "pwt"     -> PredWeightTable(c, e.a[1], e.a[2], e.a[3], e.a[4])
             [] w = "drpm"    -> DecRefPicMarking(c, e.a[1])
             [] w = "svchdr"  -> SvcHeaderExt(c)
             [] w = "prefixsvc" -> PrefixSvc(c, e.a[1], e.a[2], e.a[3])
             [] w = "slice"   -> SliceHeader(c, e.a[1], e.a[2], store)} :
      /\ UNCHANGED <<store, out>> /\ unimpl' = unimpl + r.un
      /\ Eq(e.un, r.un, "unimplemented")
      /\ IF e.null = 1 \/ ~r.ok
         THEN Same((e.null = 1) = ~r.ok, (IF r.ok THEN "reject." ELSE "accept.") \o w, e.null, ~r.ok)
         ELSE SameFields(e.f, IF sub = "" THEN r.f ELSE [k \in DOMAIN Unprefixed(r.f, sub) \ {"@"} |-> r.f[sub \o k]],
                         ContextOf(w), "fields." \o w)

DoAbs(e) ==
  /\ (IF e.op \in {"uc", "slow"} THEN ResetCount ELSE UNCHANGED vars)
  /\ Eq(e.abs, unimpl', "unimplemented.total")

\* k threads, each with a state of its own; thread t parses the NAL units of
\* group t mod (number of groups), reps times over from an empty state
DoThreads(e) ==
  LET g == Len(e.d)
      \* threads of group j
      T(j) == e.k \div g + (IF e.k % g >= j THEN 1 ELSE 0)
  IN  \E R \in {
        FoldLeft(LAMBDA x, j :
              Append(x, FoldLeft(LAMBDA a, b : LET r == ParseNal(Unescape(b), a.st)
                                     IN  [st |-> r.st, un |-> a.un + r.un, rs |-> Append(a.rs, r)],
                       [st |-> EmptyStore, un |-> 0, rs |-> <<>>], e.d[j])), <<>>, OneTo(g))} :
      \E total \in {FoldLeft(LAMBDA a, j : a + T(j) * e.reps * R[j].un, 0, OneTo(g))} :
      /\ UNCHANGED <<store, out>> /\ unimpl' = unimpl + total
      /\ Eq(e.same, 1, "threads.same")
      /\ Eq(e.unt, total, "threads.unimplemented")
      /\ \A j \in 1..Len(e.units) : \A i \in 1..Len(e.d[j]) : SameUnit(e.units[j][i], R[j].rs[i], 31)

\* threads that use every entry point: each gets what it got alone.  The
\* count is reset afterwards.
DoMixed(e) == ResetCount /\ Eq(e.same, 1, "threads.same")

DoBits(e) ==
  /\ UNCHANGED vars
  /\ LET bad == IF e.op = "br" THEN ReaderDiff(e.d, e.steps) ELSE WriterDiff(e.n, e.fill, e.steps)
     IN  Same(bad = <<>>, "bits." \o e.op, IF bad = <<>> THEN "" ELSE bad[1],
              IF bad = <<>> THEN "" ELSE bad[2])

\* the command line tool
Failed(rc) == rc > 2                     \* neither of the statuses of a parse
DoCli(e) ==
  LET o == Options(e.args)
  IN  /\ UNCHANGED vars
      /\ IF o.stop = "version" THEN Eq(e.rc, 0, "cli.status")
         ELSE IF o.stop # "no" \/ e.in \in {"none", "missing"} \/ (e.in = "file" /\ e.d = <<>>) \/ e.to = "bad"
         THEN Same(Failed(e.rc), "cli.refused", e.rc, "a refusal")
         ELSE \E r \in {IF "gap" \in DOMAIN e THEN RunWide(e.d, o, e.gap[1], e.gap[2]) ELSE Run(e.d, o)} :
                  /\ Eq(e.rc, r.rc, "cli.status")
                  /\ e.text = 1 => SameText(e.out, r.lines \o <<"">>, "cli." \o o.mode)
                  /\ "left" \in DOMAIN e => Eq(e.left, r.left, "cli.left")
                  /\ "un" \in DOMAIN e => Eq(e.un, r.un, "cli.unimplemented")

\* the scripts
DoSplit(e) ==
  /\ UNCHANGED vars
  /\ IF e.in = "missing" \/ e.d = <<>> \/ Run(e.d, Defaults).rc # 0
     THEN /\ Same(e.rc # 0, "split.refused", e.rc, "a refusal")
          /\ Eq(e.files, <<>>, "split.files")
     ELSE \E want \in {SplitFiles(e.d, e.base, e.ext)} :
              /\ Eq(e.rc, 0, "split.status")
              /\ Eq([i \in 1..Len(e.files) |-> e.files[i].name], [i \in 1..Len(want) |-> want[i].name], "split.names")
              /\ Eq([i \in 1..Len(e.files) |-> e.files[i].d], [i \in 1..Len(want) |-> want[i].d], "split.files")

DoSummary(e) ==
  /\ UNCHANGED vars
  /\ Eq(e.rc, 0, "sum.status")
  /\ IF Len(e.rows) # Len(e.files) THEN Same(FALSE, "sum.rows", Len(e.rows), Len(e.files))
     ELSE \A i \in 1..Len(e.rows) :
            LET x == e.files[i]  row == e.rows[i] IN
            \E want \in {[input_dir |-> x.dir, input_file |-> x.name] @@ Row(x.d, x.rc, x.err)} :
            LET bad == {k \in DOMAIN row \cup DOMAIN want :
                          IF k \in DOMAIN row /\ k \in DOMAIN want THEN row[k] # want[k] ELSE TRUE}
            IN  Same(bad = {}, "sum.row", [k \in bad |-> Has(row, k)], [k \in bad |-> Has(want, k)])

\* of a B picture the list is not compared
DoDpb(e) ==
  /\ UNCHANGED vars
  /\ Eq(e.rc, 0, "dpb.status")
  /\ \A want \in {DpbRows(e.d)} :
         IF Len(e.rows) # Len(want) THEN Same(FALSE, "dpb.rows", Len(e.rows), Len(want))
         ELSE \A i \in 1..Len(want) :
                LET w == want[i]  x == e.rows[i]
                    at == " (row " \o ToString(i) \o ")"
                IN  /\ Eq(x.num, w.num, "dpb.numbers")
                    /\ Eq(x.type, w.type, "dpb.type")
                    /\ Eq(x.used, w.used, "dpb.used")
                    /\ ~w.b => Same(x.refs = w.refs, "dpb.list", ToString(x.refs) \o at, ToString(w.refs) \o at)
                    /\ Same(ToSet(x.before) = w.before /\ Len(x.before) = Cardinality(w.before), "dpb.before",
                            ToString(x.before) \o at, ToString(w.before) \o at)
                    /\ Same(x.mmco = w.mmco, "dpb.mmco", ToString(x.mmco) \o at, ToString(w.mmco) \o at)
                    /\ Same(ToSet(x.after) = w.after /\ Len(x.after) = Cardinality(w.after), "dpb.after",
                            ToString(x.after) \o at, ToString(w.after) \o at)

\* names and classes of NAL unit types
DoTypes(e) ==
  /\ UNCHANGED vars
  /\ Eq(e.name, TypeName(e.t), "types.name")
  /\ Eq(e.slice, IF e.t \in SliceSegments THEN 1 ELSE 0, "types.slice")
  /\ Eq(e.res, IF e.t \in ReservedTypes THEN 1 ELSE 0, "types.reserved")
  /\ Eq(e.uns, IF e.t \in UnspecifiedTypes THEN 1 ELSE 0, "types.unspecified")

Step ==
  LET e == Trace[l] IN
  CASE e.op = "S"  -> DoSession(e)
    [] e.op = "nal" -> DoNal(e)
    [] e.op \in {"ab", "lf"} -> DoBuffer(e)
    [] e.op = "rtp" -> DoRtp(e)
    [] e.op = "un" -> DoUnescape(e)
    [] e.op = "ix" -> DoIndex(e)
    [] e.op = "ex" -> DoExplicit(e)
    [] e.op = "ty" -> DoType(e)
    [] e.op = "one" -> DoOne(e)
    [] e.op = "rb" -> DoRbsp(e)
    [] e.op = "cs" -> DoChecksum(e)
    [] e.op = "wd" -> DoWidths(e)
    [] e.op \in {"br", "bw"} -> DoBits(e)
    [] e.op \in {"uc", "abs", "slow"} -> DoAbs(e)
    [] e.op = "mt" -> DoThreads(e)
    [] e.op = "mx" -> DoMixed(e)
    [] e.op = "cli" -> DoCli(e)
    [] e.op = "nt" -> DoTypes(e)
    [] e.op = "split" -> DoSplit(e)
    [] e.op = "sum" -> DoSummary(e)
    [] e.op = "dpb" -> DoDpb(e)

CInit == HInit /\ l = 1
CNext == l <= N /\ Step /\ l' = l + 1
CSpec == CInit /\ [][CNext]_cvars
View == l
\* the stepwise properties of H264.tla hold on every step taken
StepsOk == [][StoresGrow \/ Trace[l].op = "S"]_cvars
Consumed == TLCGet("stats").diameter = N + 1 /\ PrintT("CONSUMED " \o ToString(N))
=============================================================================
