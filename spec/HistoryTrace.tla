---------------------------- MODULE HistoryTrace ----------------------------
(***************************************************************************)
(* Histories of resolutions that share a cache: every step has a time, a    *)
(* request, and what was observed with the shared cache (warm) and, for the *)
(* same request at the same time, without anything cached (cold). The world *)
(* does not change, but statements become valid and expire. Step by step,   *)
(* the observation must be the one the rules demand, thus in particular     *)
(* independent of the steps before.                                         *)
(***************************************************************************)
EXTENDS ChainJudge, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, k
vars == <<h, k>>

(* the metadata is always resolved without configured keys *)
Unpinned(req) == [req EXCEPT !.anchors = [j \in DOMAIN req.anchors |-> [req.anchors[j] EXCEPT !.pin = FALSE]]]

At(w, now) == [w EXCEPT !.now = now]

JudgeStep(i, t, s) ==
  LET w == At(t.world, s.now) IN
  IF s.warm.panic # "" \/ s.cold.panic # "" THEN Fail("C06", i, <<s.warm.panic, s.cold.panic>>)
  ELSE
  /\ Check(Range(s.warm.trusted) = Range(s.cold.trusted) /\ Range(s.warm.chains) = Range(s.cold.chains)
             /\ Len(s.warm.chains) = Len(s.cold.chains), "C09", i, <<"chains", s.now>>)
  /\ Check(s.warm.md = s.cold.md, "C09", i, <<"metadata", s.now, s.warm.md, s.cold.md>>)
  /\ Check(t.par => s.warm = s.cold, "C21", i, <<"concurrent resolution", s.now>>)
  /\ JudgeChains(i, w, s.req, Range(s.warm.trusted), Range(s.warm.chains))
  /\ Check(s.warm.md # "" <=> ValidChainsWithMetadata(w, Unpinned(s.req)) # {}, "C07", i, <<"metadata resolved", s.now>>)

Init == h \in 1..Len(Trace) /\ k = 0
Next ==
  /\ k <= Len(Trace[h].steps)
  /\ k' = k + 1
  /\ h' = h
  /\ IF k < Len(Trace[h].steps) THEN JudgeStep(h, Trace[h], Trace[h].steps[k + 1])
     ELSE /\ PrintT(<<"INFO", h, Cardinality({j \in DOMAIN Trace[h].steps : Trace[h].steps[j].warm.chains # <<>>})>>)
          /\ PrintT(<<"DONE", h>>)
=============================================================================
