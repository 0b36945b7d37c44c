----------------------------- MODULE ChainJudge -----------------------------
(***************************************************************************)
(* Judges what the resolver was observed to return for a request in a world *)
(* and reports which of the listed properties is violated.                  *)
(***************************************************************************)
EXTENDS Federation

Fail(prop, i, what) == PrintT(<<"FAIL", prop, i, what>>)
Check(ok, prop, i, what) == IF ok THEN TRUE ELSE Fail(prop, i, what)

Unlimited(req) == [req EXCEPT !.types = <<>>]
Pinned(req) == \E j \in DOMAIN req.anchors : req.anchors[j].pin

(* trusted: the chains without, chains: those with verification of the policies *)
JudgeChains(i, w, req, trusted, chains) ==
  LET valid == ValidChains(w, req)
      validMD == ValidChainsWithMetadata(w, req)
      well == {c \in trusted \cup chains : ChainKnown(w, c)}
      bad == {c \in well : c \notin valid}
      missing == valid \ trusted
      explained(c) == ~ObsSigned(w, req, c) \/ ~ObsTime(w, c) \/ ~ObsConstraints(w, req, c) \/ ~ObsLoopFree(w, c)
      signed == \A c \in well : ObsSigned(w, req, c)
  IN
     /\ Check(signed, "C01", i, "not anchored or not signed")
     /\ Check(signed \/ ~Pinned(req), "C23", i, "not signed by the configured keys")
     /\ Check(\A c \in well : ObsTime(w, c), "C02", i, "not valid at the time of the resolution")
     /\ Check(/\ \A c \in well : ObsIdentity(w, req, c)
              /\ trusted \cup chains = well
              /\ \A c \in bad : explained(c), "C03", i, "statements do not link up")
     /\ Check(\A c \in well : ObsConstraints(w, req, c), "C04", i, "a constraint does not hold")
     /\ Check(\A c \in well : ObsLoopFree(w, c), "C06", i, "loop")
     /\ Check(missing = {} /\ validMD \subseteq chains, "C05", i, "a valid chain is missing")
     /\ Check(chains \cap valid \subseteq validMD, "C07", i, "a chain without valid metadata was returned")
     \* a limit to some entity types
     /\ Check(req.types # <<>> => /\ \A c \in well : ObsConstraints(w, req, c)
                                 /\ missing \subseteq ValidChains(w, Unlimited(req)), "C22", i, "types that were not asked for took part in constraint checks")
=============================================================================
