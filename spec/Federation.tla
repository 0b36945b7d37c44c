----------------------------- MODULE Federation -----------------------------
(***************************************************************************)
(* The trust rules of an OpenID federation, as relied upon by the users of  *)
(* go-oidfed: when is a sequence of signed statements a valid trust chain.  *)
(*                                                                          *)
(* A world is a record                                                      *)
(*   now  : the current time (an integer)                                   *)
(*   ents : a function from entity names to entities                        *)
(* an entity is a record                                                    *)
(*   host : the labels of its host name, e.g. <<"a","example","org">>       *)
(*   resp : what its configuration endpoint answers ("ok", "notfound", ...) *)
(*   ec   : the statement served as its entity configuration                *)
(*   subs : function from subject names to [resp, stmt], what its fetch     *)
(*          endpoint answers                                                *)
(* a statement is a record                                                  *)
(*   sid (a unique number), iss, sub, iat, exp (0: never expires),          *)
(*   keys (sequence of published key names), signer (key name), sig ("ok"   *)
(*   or a kind of forgery), typ ("es" or another type), hints, types (the   *)
(*   entity types it publishes metadata for), fetch (the entity at whose    *)
(*   fetch endpoint its subordinate statements are, or ""),                 *)
(*   con (constraints, see below), pol ("none" or a kind of policy)         *)
(* constraints are a record                                                 *)
(*   mpl (-1: not given), hasPerm, perm, excl, hasTypes, types              *)
(* where perm and excl are sequences of [dot, labels]                       *)
(* a request is a record                                                    *)
(*   start, types (sequence, empty: no limit),                              *)
(*   anchors: sequence of [id, pin (BOOLEAN), keys]                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
Last(s) == s[Len(s)]

Known(w, e) == e \in DOMAIN w.ents

----------------------------------------------------------------------------
(* statements *)

TimeOK(w, st) == st.iat <= w.now /\ (st.exp = 0 \/ st.exp >= w.now)

(* the statement was signed by one of the passed keys *)
SignedBy(st, keys) == st.sig = "ok" /\ st.signer \in Range(keys)

(* obtaining statements; Usable: the answer is a well-formed statement *)
Usable(resp, st) == resp = "ok" /\ st.typ = "es"

HasEC(w, e) == Known(w, e) /\ Usable(w.ents[e].resp, w.ents[e].ec)
EC(w, e) == w.ents[e].ec

(* the entity of which the fetch endpoint is published by a; a metadata of the type federation_entity is needed for it *)
FetchAt(w, a) == IF "federation_entity" \in Range(EC(w, a).types) THEN EC(w, a).fetch ELSE ""

HasSub(w, a, e) ==
  /\ HasEC(w, a)
  /\ LET o == FetchAt(w, a) IN
     /\ Known(w, o)
     /\ e \in DOMAIN w.ents[o].subs
     /\ Usable(w.ents[o].subs[e].resp, w.ents[o].subs[e].stmt)
Sub(w, a, e) == w.ents[FetchAt(w, a)].subs[e].stmt

----------------------------------------------------------------------------
(* identity *)

ECIdentityOK(w, e) == EC(w, e).iss = e /\ EC(w, e).sub = e
SubIdentityOK(w, a, e) == Sub(w, a, e).iss = a /\ Sub(w, a, e).sub = e

----------------------------------------------------------------------------
(* constraints *)

LabelSuffix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, Len(t) - Len(s) + 1, Len(t)) = s

HostMatches(c, host) ==
  IF c.dot THEN Len(c.labels) < Len(host) /\ LabelSuffix(c.labels, host)
           ELSE c.labels = host

NameOK(con, host) ==
  /\ \A i \in DOMAIN con.excl : ~HostMatches(con.excl[i], host)
  /\ con.hasPerm => \E i \in DOMAIN con.perm : HostMatches(con.perm[i], host)

(* the entity types an entity of the path publishes; the resolution might be limited to some types of its subject *)
TypesOf(w, req, e) ==
  IF e = req.start /\ req.types # <<>>
  THEN Range(EC(w, e).types) \cap Range(req.types)
  ELSE Range(EC(w, e).types)

(* path is a sequence of entities from the start upwards, the constraint is in the statement about path[k] *)
MaxPathOK(con, k) == con.mpl = -1 \/ k - 1 <= con.mpl
NamingOK(w, con, path, k) == \A i \in 1..k : NameOK(con, w.ents[path[i]].host)
TypesOK(w, req, con, path, k) ==
  con.hasTypes => \A i \in 1..k :
      TypesOf(w, req, path[i]) \subseteq (Range(con.types) \cup {"federation_entity"})
ConstraintsOK(w, req, con, path, k) ==
  /\ MaxPathOK(con, k)
  /\ NamingOK(w, con, path, k)
  /\ TypesOK(w, req, con, path, k)

----------------------------------------------------------------------------
(* anchors *)

AnchorIDs(req) == {req.anchors[i].id : i \in DOMAIN req.anchors}
AnchorRec(req, id) == req.anchors[CHOOSE i \in DOMAIN req.anchors : req.anchors[i].id = id]
AnchorKeys(w, req, id) ==
  LET a == AnchorRec(req, id) IN IF a.pin THEN a.keys ELSE EC(w, id).keys

----------------------------------------------------------------------------
(* One step of a path: path[k+1] is a superior of path[k].                  *)
(* Reachable: the needed statements are obtained and well-formed            *)

HintOK(w, path, k) == path[k + 1] \in Range(EC(w, path[k]).hints)
StepObtained(w, path, k) == HasEC(w, path[k + 1]) /\ HasSub(w, path[k + 1], path[k])
StepIdentity(w, path, k) == ECIdentityOK(w, path[k + 1]) /\ SubIdentityOK(w, path[k + 1], path[k])
StepTime(w, path, k) == TimeOK(w, EC(w, path[k + 1])) /\ TimeOK(w, Sub(w, path[k + 1], path[k]))
StepConstraints(w, req, path, k) == ConstraintsOK(w, req, Sub(w, path[k + 1], path[k]).con, path, k)

StepOK(w, req, path, k) ==
  /\ HintOK(w, path, k)
  /\ StepObtained(w, path, k)
  /\ StepIdentity(w, path, k)
  /\ StepTime(w, path, k)
  /\ StepConstraints(w, req, path, k)

StartOK(w, req) ==
  /\ HasEC(w, req.start)
  /\ ECIdentityOK(w, req.start)
  /\ TimeOK(w, EC(w, req.start))

(* The keys path[k] must sign with: those its superior says it has, or the keys of the anchor *)
KeysFor(w, req, path, k) ==
  IF k = Len(path) THEN AnchorKeys(w, req, path[k]) ELSE Sub(w, path[k + 1], path[k]).keys

SignaturesOK(w, req, path) ==
  \A k \in DOMAIN path :
    /\ SignedBy(EC(w, path[k]), KeysFor(w, req, path, k))
    /\ k > 1 => SignedBy(Sub(w, path[k], path[k - 1]), KeysFor(w, req, path, k))

(* a path is simple, and it ends where it first meets an anchor *)
LoopFree(path) == \A i, j \in DOMAIN path : path[i] = path[j] => i = j
Anchored(req, path) ==
  /\ Last(path) \in AnchorIDs(req)
  /\ \A k \in 1..(Len(path) - 1) : path[k] \notin AnchorIDs(req)

ValidPath(w, req, path) ==
  /\ path[1] = req.start
  /\ StartOK(w, req)
  /\ LoopFree(path)
  /\ Anchored(req, path)
  /\ \A k \in 1..(Len(path) - 1) : StepOK(w, req, path, k)
  /\ SignaturesOK(w, req, path)

----------------------------------------------------------------------------
(* all valid paths, computed by extending partial paths *)

RECURSIVE Extend(_, _, _)
Extend(w, req, path) ==
  IF Last(path) \in AnchorIDs(req) THEN {path}
  ELSE LET nxt == {a \in Range(EC(w, Last(path)).hints) :
                     /\ a \notin Range(path)
                     /\ Known(w, a)
                     /\ StepOK(w, req, Append(path, a), Len(path))}
       IN UNION {Extend(w, req, Append(path, a)) : a \in nxt}

CandidatePaths(w, req) ==
  IF Known(w, req.start) /\ StartOK(w, req) THEN Extend(w, req, <<req.start>>) ELSE {}

ValidPaths(w, req) == {p \in CandidatePaths(w, req) : SignaturesOK(w, req, p)}

(* the statements of a path, as they appear in a trust chain *)
RECURSIVE SubSids(_, _, _)
SubSids(w, path, k) ==
  IF k >= Len(path) THEN <<>>
  ELSE <<Sub(w, path[k + 1], path[k]).sid>> \o SubSids(w, path, k + 1)

ChainOf(w, path) ==
  IF Len(path) = 1 THEN <<EC(w, path[1]).sid>>
  ELSE <<EC(w, path[1]).sid>> \o SubSids(w, path, 1) \o <<EC(w, Last(path)).sid>>

ValidChains(w, req) == {ChainOf(w, p) : p \in ValidPaths(w, req)}

(* A chain whose policies do not yield metadata is not among the valid ones. *)
(* pol abstracts the policy of a statement: "none", "ok" or "bad"; see       *)
(* module Policy for the actual rules                                        *)
PathPolicyOK(w, path) == \A k \in 1..(Len(path) - 1) : Sub(w, path[k + 1], path[k]).pol # "bad"
ValidChainsWithMetadata(w, req) ==
  {ChainOf(w, p) : p \in {q \in ValidPaths(w, req) : PathPolicyOK(w, q)}}

----------------------------------------------------------------------------
(* What an observed chain must satisfy, taken apart by property. An observed *)
(* chain is a sequence of sids; its statements are looked up in the world,   *)
(* independently of how the resolver came to it.                             *)

AllStmts(w) ==
  {w.ents[e].ec : e \in DOMAIN w.ents}
    \cup UNION {{w.ents[e].subs[s].stmt : s \in DOMAIN w.ents[e].subs} : e \in DOMAIN w.ents}
StmtBySid(w, sid) == CHOOSE st \in AllStmts(w) : st.sid = sid
SidKnown(w, sid) == \E st \in AllStmts(w) : st.sid = sid
StmtsOf(w, chain) == [i \in DOMAIN chain |-> StmtBySid(w, chain[i])]

ChainKnown(w, c) == c # <<>> /\ \A i \in DOMAIN c : SidKnown(w, c[i])

(* The entities of an observed chain <<EC(e1), Sub(e2,e1), ..., Sub(en,en-1), EC(en)>> *)
ObsPath(w, c) ==
  LET S == StmtsOf(w, c) IN
  [k \in 1..(IF Len(c) = 1 THEN 1 ELSE Len(c) - 1) |->
      IF Len(c) > 1 /\ k = Len(c) - 1 THEN S[Len(c)].iss
      ELSE S[IF k = 1 THEN 1 ELSE k + 1].sub]
(* positions of intermediates: their configuration is not part of the chain, but the chain relies on it *)
Inner(p) == 2..(Len(p) - 1)

(* C01: anchored and signed *)
ObsSigned(w, req, c) ==
  LET S == StmtsOf(w, c)
      n == Len(c)
      p == ObsPath(w, c)
      anchorKeys == LET a == AnchorRec(req, S[n].iss) IN IF a.pin THEN a.keys ELSE S[n].keys
      \* the keys with which S[i] must be signed
      keys(i) == IF i >= n - 1 THEN anchorKeys ELSE S[IF i = 1 THEN 2 ELSE i + 1].keys
  IN /\ S[n].iss \in AnchorIDs(req)
     /\ \A i \in 1..n : S[i].typ = "es" /\ SignedBy(S[i], keys(i))
     /\ \A k \in Inner(p) : HasEC(w, p[k]) => SignedBy(EC(w, p[k]), keys(k))

(* C02: everything relied upon is valid now *)
ObsTime(w, c) ==
  LET S == StmtsOf(w, c) p == ObsPath(w, c) IN
  /\ \A i \in DOMAIN c : TimeOK(w, S[i])
  /\ \A k \in Inner(p) : HasEC(w, p[k]) => TimeOK(w, EC(w, p[k]))

(* C03: the statements link up *)
ObsIdentity(w, req, c) ==
  LET S == StmtsOf(w, c) n == Len(c) p == ObsPath(w, c) IN
  /\ n # 2
  /\ S[1].iss = req.start /\ S[1].sub = req.start
  /\ S[n].iss = S[n].sub
  /\ \A i \in 2..(n - 1) : S[i].iss = p[i] /\ S[i].sub = p[i - 1]
  /\ \A k \in Inner(p) : HasEC(w, p[k]) /\ ECIdentityOK(w, p[k])
  /\ \A k \in 1..(Len(p) - 1) :
       LET hints == IF k = 1 THEN S[1].hints ELSE EC(w, p[k]).hints IN p[k + 1] \in Range(hints)

(* C04: all constraints hold on the part of the path below *)
ObsConstraints(w, req, c) ==
  LET S == StmtsOf(w, c) p == ObsPath(w, c) IN
  \A k \in 1..(Len(p) - 1) :
     (\A i \in 1..k : Known(w, p[i])) => ConstraintsOK(w, req, S[k + 1].con, p, k)

(* C06 *)
ObsLoopFree(w, c) == LoopFree(ObsPath(w, c))

=============================================================================
