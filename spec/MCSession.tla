------------------------------ MODULE MCSession ------------------------------
(***************************************************************************)
(* The state machine of H264.tla closed over a small corpus of NAL units:  *)
(* every unit may arrive at any time by any route.  The stores have        *)
(* finitely many values, so every history whatsoever is covered.           *)
(*                                                                         *)
(* $CORPUS: one {"d": [bytes]} per line, escaped NAL units.                *)
(* hist is a shortest history to the state; it is printed for each state,  *)
(* for replay into the real code (lib/plans.py).                           *)
(***************************************************************************)
EXTENDS H264, Json, IOUtils

Corpus == ndJsonDeserialize(IOEnv.CORPUS)
Units == 1..Len(Corpus)
VARIABLE hist
allvars == <<store, unimpl, out, hist>>

Routes == {"nal", "raw", "ab", "own", "lf", "rtp", "stap"}
Deliver(d, via) ==
  CASE via = "nal"  -> CallNal(d, TRUE)
    [] via = "raw"  -> CallNal(Unescape(d), FALSE)
    [] via = "ab"   -> CallAnnexB(WithStartCode(d, TRUE), FALSE)
    [] via = "own"  -> CallAnnexB(WithStartCode(d, FALSE), TRUE)
    [] via = "lf"   -> CallLengths(WithLength(d, 4), 4, FALSE)
    [] via = "rtp"  -> CallRtp(d)
    [] via = "stap" -> CallRtp(<<24>> \o WithLength(d, 2))

MInit == HInit /\ hist = <<>>
MNext == \E i \in Units : \E via \in Routes :
           Deliver(Corpus[i].d, via) /\ hist' = Append(hist, i)
View == store

(***************************************************************************)
(* Theorems.                                                               *)
(***************************************************************************)
\* any route that shares the state leads to the same stores
RoutesAgree ==
  \A i \in Units :
    LET d == Corpus[i].d
        r == ParseNal(Unescape(d), store)
        a == ParseAnnexB(WithStartCode(d, TRUE), store)
        n == ParseLengths(WithLength(d, 4), 4, store)
        p == ParseRtp(d, store)
        q == ParseRtp(<<24>> \o WithLength(d, 2), store)
    IN  /\ a.st = r.st /\ n.st = r.st /\ a.un = r.un /\ n.un = r.un
        /\ r.drop = (a.units = <<>>)
        /\ (d[1] % 32 <= 23) => (p.st = r.st /\ p.un = r.un /\ q.st = r.st /\ q.un = r.un)
        /\ ~r.drop => a.units[1].r = r
\* a second delivery changes nothing
Idempotent ==
  \A i \in Units :
    LET once == ParseNal(Unescape(Corpus[i].d), store).st
        r == ParseNal(Unescape(Corpus[i].d), once)
    IN  r.st = once
\* what a unit decodes to does not depend on the stores, slices apart
ContextFree ==
  \A i \in Units :
    LET r == ParseNal(Unescape(Corpus[i].d), store)
        e == ParseNal(Unescape(Corpus[i].d), EmptyStore)
    IN  /\ r.h = e.h /\ r.drop = e.drop /\ r.ck = e.ck
        /\ r.kind \notin {"slice", "shise"} => (r.f = e.f /\ r.parsed = e.parsed)
        /\ (e.parsed /\ ~e.drop) => r.parsed
Show == PrintT("HIST " \o ToJson(hist))

Steps == [][/\ StoresGrow /\ OneNalOneEntry /\ SliceNeedsSets /\ CountOnlyGrows]_allvars
MSpec == MInit /\ [][MNext]_allvars
=============================================================================
