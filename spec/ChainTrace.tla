----------------------------- MODULE ChainTrace -----------------------------
(***************************************************************************)
(* Validates recorded resolutions of the implementation against the trust   *)
(* rules. Every record holds a world, a request and what the implementation *)
(* was observed to return for it (chains as sequences of statement ids).    *)
(*   obs.trusted : chains without verification of the metadata policies     *)
(*   obs.chains  : chains with it                                           *)
(*   obs.possible: what is confirmed when asked whether this can be resolved *)
(***************************************************************************)
EXTENDS ChainJudge, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, phase
vars == <<h, phase>>

Judge(i) ==
  LET t == Trace[i] IN
  IF t.obs.panic # "" THEN Fail("C06", i, t.obs.panic)
  ELSE
  /\ JudgeChains(i, t.world, t.req, Range(t.obs.trusted), Range(t.obs.chains))
  /\ Check(t.obs.possible = "" \/ t.obs.possible = (IF t.obs.chains # <<>> THEN "possible" ELSE "impossible"),
           IF t.req.types # <<>> THEN "C22" ELSE "C05", i, <<"asked whether it can be resolved", t.obs.possible>>)
  /\ PrintT(<<"INFO", i, Cardinality(ValidChains(t.world, t.req)), Cardinality(CandidatePaths(t.world, t.req))>>)

Init == h \in 1..Len(Trace) /\ phase = "recorded"
Next ==
  /\ phase = "recorded"
  /\ phase' = "validated"
  /\ UNCHANGED h
  /\ Judge(h)
  /\ PrintT(<<"DONE", h>>)
Spec == Init /\ [][Next]_vars
=============================================================================
