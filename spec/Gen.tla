--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Behaviours of the specification, written out as bytes.  A scenario is a *)
(* sequence of NAL units to make; the same syntax operators that decode    *)
(* are run in generation mode, choosing values from the item's tape, with  *)
(* the parameter set stores threaded through.  Everything generated is     *)
(* decoded again and compared: the specification's writer and reader are   *)
(* inverse to each other on every behaviour produced.                      *)
(*                                                                         *)
(* in:  $GEN_IN, one scenario per line: {"items":[{t, ref, tape, force,    *)
(*      bad, wild, svc, tail}]}                                            *)
(* out: $GEN_OUT, {"nals":[[byte..]..], "ok":[0/1..], "kind":[..]}: the    *)
(*      escaped NAL units                                                  *)
(***************************************************************************)
EXTENDS Rtp, Json, IOUtils

In == ndJsonDeserialize(IOEnv.GEN_IN)

\* identifiers to choose from: what the stores have, and now and then others
IdChoices(ids, t, other) ==
  IF ids = {} \/ t % 16 = 0 THEN other
  ELSE LET q == SetToSeq(ids) IN <<q[((t \div 16) % Len(q)) + 1]>>
Default(force, nm, c) == IF nm \in DOMAIN force THEN force ELSE (nm :> c) @@ force

ForceFor(x, st) ==
  LET t == x.tape[1]
      a == Default(x.force, "nal_unit_type", <<x.t>>)
      b == Default(a, "nal_ref_idc", <<x.ref>>)
      c == Default(b, "forbidden_zero_bit", <<0>>)
      d == Default(c, "svc_extension_flag", <<x.svc>>)
  IN  IF x.t \in {1, 5, 20}
      THEN Default(d, "pic_parameter_set_id",
                   IdChoices(DOMAIN st.pps, t, <<0, 1, 255>>))
      ELSE IF x.t = 8
      THEN Default(d, "seq_parameter_set_id",
                   IdChoices(DOMAIN st.sps \cup DOMAIN st.sub, t, <<0, 1, 31>>))
      ELSE d

TailBytes(x, n) == [i \in 1..n |-> x.tape[((i + 7) % Len(x.tape)) + 1] % 256]

\* [raw, ok, kind, st]
GenNal(x, st) ==
  LET force == ForceFor(x, st)
      h == NalHeader(GenCursor(x.tape, force, FALSE))
      k == Kind(h.f)
      r == IF ~h.ok THEN h
           ELSE Payload([h EXCEPT !.f = EmptyF, !.bad = (x.bad = 1), !.wild = (x.wild = 1)], h.f, st)
      raw == Pack(r.b)
             \o (IF ~r.ok \/ k \in {"slice", "shise", "none"} THEN TailBytes(x, x.tail) ELSE <<>>)
      p == ParseNal(raw, st)
      good == IF ~r.ok THEN TRUE
              ELSE IF r.off THEN ~p.parsed
              ELSE /\ ~p.drop
                   /\ p.h = h.f
                   /\ (k # "none" => p.parsed /\ p.f = r.f)
                   /\ p.kind = k
  IN  IF good \/ PrintT("GENFAIL " \o ToJson([raw |-> raw, kind |-> k, t |-> x.t]))
      THEN [raw |-> raw, ok |-> r.ok /\ ~r.off, kind |-> k, st |-> p.st]
      ELSE [raw |-> raw, ok |-> r.ok /\ ~r.off, kind |-> k, st |-> p.st]

GenScenario(sc) ==
  LET r == FoldLeft(LAMBDA a, x :
             LET g == GenNal(x, a.st)
             IN  [st |-> g.st, nals |-> Append(a.nals, Escape(g.raw)),
                  ok |-> Append(a.ok, IF g.ok THEN 1 ELSE 0),
                  kind |-> Append(a.kind, g.kind),
                  inv |-> a.inv /\ Unescape(Escape(g.raw)) = g.raw],
             [st |-> EmptyStore, nals |-> <<>>, ok |-> <<>>, kind |-> <<>>, inv |-> TRUE], sc.items)
  IN  IF r.inv \/ PrintT("GENFAIL escape") THEN [nals |-> r.nals, ok |-> r.ok, kind |-> r.kind]
      ELSE [nals |-> r.nals, ok |-> r.ok, kind |-> r.kind]

VARIABLE done
Init == done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ ndJsonSerialize(IOEnv.GEN_OUT, [i \in 1..Len(In) |-> GenScenario(In[i])])
        /\ PrintT("GENERATED " \o ToString(Len(In)))
=============================================================================
