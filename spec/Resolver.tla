------------------------------ MODULE Resolver ------------------------------
(***************************************************************************)
(* How go-oidfed resolves trust chains: starting from the subject, the      *)
(* resolver fetches the configuration of every announced superior and the   *)
(* statement of the superior about the entity below, checks what can be     *)
(* checked on the way up (identity, time, constraints), and, when all        *)
(* branches ended, verifies signatures from the anchors downwards.          *)
(* Branches are explored in any order. An invariant and a temporal property  *)
(* relate the outcome to the trust rules in module Federation.              *)
(***************************************************************************)
EXTENDS Federation

CONSTANTS Worlds   \* set of [world, req]

VARIABLES cfg,      \* the world and the request
          phase,    \* "start", "build", "verify", "done"
          open,     \* partial paths with the superiors that still have to be tried: set of <<path, set of entities>>
          built,    \* complete paths that reached an anchor
          trusted,  \* <<path, k>>: the signatures of path[k] and everything above were verified
          result    \* set of chains
vars == <<cfg, phase, open, built, trusted, result>>

W == cfg.world
R == cfg.req

TypeOK ==
  /\ phase \in {"start", "build", "verify", "done"}
  /\ \A o \in open : o[1][1] = R.start

Init ==
  /\ cfg \in Worlds
  /\ phase = "start"
  /\ open = {} /\ built = {} /\ trusted = {} /\ result = {}

Hints(e) == Range(EC(W, e).hints)

AddPath(op, path) ==
  IF Last(path) \in AnchorIDs(R) THEN op ELSE op \cup {<<path, Hints(Last(path))>>}
AddBuilt(bu, path) ==
  IF Last(path) \in AnchorIDs(R) THEN bu \cup {path} ELSE bu

(* fetch and check the configuration of the subject *)
Start ==
  /\ phase = "start"
  /\ IF Known(W, R.start) /\ StartOK(W, R)
     THEN /\ phase' = "build"
          /\ open' = AddPath({}, <<R.start>>)
          /\ built' = AddBuilt({}, <<R.start>>)
     ELSE /\ phase' = "verify"
          /\ UNCHANGED <<open, built>>
  /\ UNCHANGED <<cfg, trusted, result>>

Rest(o, a) == (open \ {o}) \cup (IF o[2] = {a} THEN {} ELSE {<<o[1], o[2] \ {a}>>})

(* a superior is skipped: it is already on the path, cannot be reached, or one of the checks fails *)
Skip(o, a) ==
  /\ phase = "build" /\ o \in open /\ a \in o[2]
  /\ \/ a \in Range(o[1])
     \/ ~Known(W, a)
     \/ ~StepOK(W, R, Append(o[1], a), Len(o[1]))
  /\ open' = Rest(o, a)
  /\ UNCHANGED <<cfg, phase, built, trusted, result>>

(* a superior is followed *)
Follow(o, a) ==
  /\ phase = "build" /\ o \in open /\ a \in o[2]
  /\ a \notin Range(o[1]) /\ Known(W, a)
  /\ StepOK(W, R, Append(o[1], a), Len(o[1]))
  /\ open' = AddPath(Rest(o, a), Append(o[1], a))
  /\ built' = AddBuilt(built, Append(o[1], a))
  /\ UNCHANGED <<cfg, phase, trusted, result>>

(* an entity without (any more) superiors ends a branch *)
Close(o) ==
  /\ phase = "build" /\ o \in open /\ o[2] = {}
  /\ open' = open \ {o}
  /\ UNCHANGED <<cfg, phase, built, trusted, result>>

EndBuild ==
  /\ phase = "build" /\ open = {}
  /\ phase' = "verify"
  /\ UNCHANGED <<cfg, open, built, trusted, result>>

(* verify the signatures of one entity of a path, after those of the entity above *)
Verifiable(p, k) ==
  /\ <<p, k>> \notin trusted
  /\ k = Len(p) \/ <<p, k + 1>> \in trusted
  /\ LET keys == KeysFor(W, R, p, k) IN
     /\ SignedBy(EC(W, p[k]), keys)
     /\ k > 1 => SignedBy(Sub(W, p[k], p[k - 1]), keys)

VerifyStep(p, k) ==
  /\ phase = "verify"
  /\ Verifiable(p, k)
  /\ trusted' = trusted \cup {<<p, k>>}
  /\ UNCHANGED <<cfg, phase, open, built, result>>

EndVerify ==
  /\ phase = "verify"
  /\ \A p \in built : \A k \in DOMAIN p : ~Verifiable(p, k)
  /\ phase' = "done"
  /\ result' = {ChainOf(W, p) : p \in {q \in built : <<q, 1>> \in trusted}}
  /\ UNCHANGED <<cfg, open, built, trusted>>

Done == phase = "done" /\ UNCHANGED vars

Next ==
  \/ Start
  \/ \E o \in open : (\E a \in o[2] : Skip(o, a) \/ Follow(o, a)) \/ Close(o)
  \/ EndBuild
  \/ \E p \in built : \E k \in DOMAIN p : VerifyStep(p, k)
  \/ EndVerify
  \/ Done

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
Termination == <>(phase = "done")

NoLoops == \A o \in open : LoopFree(o[1])

Complete == phase = "done" => ValidChains(W, R) = result

(* each of the rules by itself, as checked on observed chains *)
Sound == \A c \in result :
  /\ ObsSigned(W, R, c)
  /\ ObsTime(W, c)
  /\ ObsIdentity(W, R, c)
  /\ ObsConstraints(W, R, c)
  /\ ObsLoopFree(W, c)

(* and conversely, the rules together are what makes a chain valid *)
NothingTrustedWithoutAnchor ==
  \A t \in trusted : \A k \in t[2]..Len(t[1]) : <<t[1], k>> \in trusted
=============================================================================
