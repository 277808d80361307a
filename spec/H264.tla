-------------------------------- MODULE H264 --------------------------------
(***************************************************************************)
(* The library as a state machine.  A session holds a parser state (the    *)
(* three parameter set stores); the process holds the count of             *)
(* unimplemented structures.  Each public call is an action; out is what   *)
(* it returns.                                                             *)
(***************************************************************************)
EXTENDS Rtp

VARIABLES store, unimpl, out
vars == <<store, unimpl, out>>

NoOut == [call |-> "none"]
HInit == store = EmptyStore /\ unimpl = 0 /\ out = NoOut

NewSession == store' = EmptyStore /\ out' = NoOut /\ UNCHANGED unimpl
ResetCount == unimpl' = 0 /\ out' = NoOut /\ UNCHANGED store

\* H264NalUnitParser::ParseNalUnit (esc) and ParseNalUnitUnescaped
CallNal(b, esc) ==
  \E r \in {ParseNal(IF esc THEN Unescape(b) ELSE b, store)} :
      /\ out' = [call |-> "nal", r |-> r]
      /\ store' = r.st
      /\ unimpl' = unimpl + r.un

\* H264BitstreamParser::ParseBitstream; own: with a state of its own
CallAnnexB(b, own) ==
  \E r \in {ParseAnnexB(b, IF own THEN EmptyStore ELSE store)} :
      /\ out' = [call |-> "annexb", r |-> r]
      /\ store' = IF own THEN store ELSE r.st
      /\ unimpl' = unimpl + r.un

\* H264BitstreamParser::ParseBitstreamNALULength
CallLengths(b, n, own) ==
  \E r \in {ParseLengths(b, n, IF own THEN EmptyStore ELSE store)} :
      /\ out' = [call |-> "lengths", r |-> r]
      /\ store' = IF own THEN store ELSE r.st
      /\ unimpl' = unimpl + r.un

\* H264RtpParser::ParseRtp
CallRtp(p) ==
  \E r \in {ParseRtp(p, store)} :
      /\ out' = [call |-> "rtp", r |-> r]
      /\ store' = r.st
      /\ unimpl' = unimpl + r.un

(***************************************************************************)
(* Properties of every step.                                               *)
(***************************************************************************)
Ids(st) == [sps |-> DOMAIN st.sps, pps |-> DOMAIN st.pps, sub |-> DOMAIN st.sub]

IdsInRange ==
  /\ \A i \in DOMAIN store.sps : i \in 0..31 /\ store.sps[i]["seq_parameter_set_id"] = i
  /\ \A i \in DOMAIN store.pps : i \in 0..255 /\ store.pps[i]["pic_parameter_set_id"] = i
  /\ \A i \in DOMAIN store.sub : i \in 0..31
       /\ store.sub[i]["seq_parameter_set_data.seq_parameter_set_id"] = i

\* a call never forgets a parameter set
StoresGrow ==
  /\ DOMAIN store.sps \subseteq DOMAIN store'.sps
  /\ DOMAIN store.pps \subseteq DOMAIN store'.pps
  /\ DOMAIN store.sub \subseteq DOMAIN store'.sub

\* one NAL unit changes at most the entry it was decoded into
OneNalOneEntry ==
  out'.call = "nal" =>
    LET r == out'.r IN
    IF r.drop \/ ~r.parsed \/ r.kind \notin {"sps", "pps", "subset"} THEN store' = store
    ELSE LET id == CASE r.kind = "sps" -> r.f["seq_parameter_set_id"]
                     [] r.kind = "pps" -> r.f["pic_parameter_set_id"]
                     [] OTHER -> r.f["seq_parameter_set_data.seq_parameter_set_id"]
             which == CASE r.kind = "sps" -> "sps" [] r.kind = "pps" -> "pps" [] OTHER -> "sub"
         IN  /\ store'[which][id] = r.f
             /\ \A w \in {"sps", "pps", "sub"} : \A i \in DOMAIN store[w] :
                  (w # which \/ i # id) => store'[w][i] = store[w][i]

\* a slice is decoded only against parameter sets that are there
SliceNeedsSets ==
  (out'.call = "nal" /\ ~out'.r.drop /\ out'.r.parsed /\ out'.r.kind \in {"slice", "shise"}) =>
    LET id == out'.r.f["pic_parameter_set_id"]
    IN  /\ id \in DOMAIN store.pps
        /\ LET s == store.pps[id]["seq_parameter_set_id"]
           IN  s \in DOMAIN (IF out'.r.kind = "slice" THEN store.sps ELSE store.sub)

\* an unparsed payload never counts as a parsed one, and a failure is quiet
\* only if it is not an unimplemented structure
CountOnlyGrows == unimpl' >= unimpl
=============================================================================
