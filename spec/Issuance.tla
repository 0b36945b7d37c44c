------------------------------ MODULE Issuance ------------------------------
(***************************************************************************)
(* Issuing documents, and how long they are accepted. A party has an        *)
(* identifier, a key, and a configuration; when it issues a document, this  *)
(* states what has been configured, for the lifetime that has been          *)
(* configured or demanded for this document. Times are numbers, NoExp is    *)
(* the expiration of documents that do not expire.                          *)
(*                                                                          *)
(*  specification of a trust mark / of a delegation:                        *)
(*   [type, life, ref, logo, delegation (content of the claim), extra       *)
(*    |-> Seq([n |-> claim, v |-> JSON text]), inInfo]                      *)
(*  document: [kind, typ, iat, exp, iss, sub, type, key, claims (all other  *)
(*   claims: from names to JSON texts), delegation (the document, or None)] *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoExp == -1000000000
None == [kind |-> "none"]

Str(s) == "\"" \o s \o "\""

RECURSIVE Pairs(_)
(* a sequence of names and values as a function *)
Pairs(q) == IF q = <<>> THEN <<>> ELSE (q[1].n :> q[1].v) @@ Pairs(Tail(q))

Opt(name, s) == IF s = "" THEN <<>> ELSE (name :> Str(s))

(* over: <<>>, or the lifetime demanded for this document *)
Life(life, over) == IF over = <<>> THEN life ELSE over[1]
ExpAt(now, life) == IF life = 0 THEN NoExp ELSE now + life

HeaderType(kind) ==
  CASE kind = "tm" -> "trust-mark+jwt"
    [] kind = "td" -> "trust-mark-delegation+jwt"
    [] kind \in {"ec", "es"} -> "entity-statement+jwt"
    [] kind = "rr" -> "resolve-response+jwt"

MarkClaims(spec, iss, sub, deleg) ==
  Pairs(spec.extra) @@ ("iss" :> Str(iss)) @@ ("sub" :> Str(sub)) @@ ("trust_mark_type" :> Str(spec.type))
    @@ Opt("logo_uri", spec.logo) @@ Opt("ref", spec.ref) @@ Opt("delegation", deleg)

Mark(spec, iss, key, sub, over, now, delegText, deleg) ==
  [kind |-> "tm", typ |-> HeaderType("tm"), iat |-> now, exp |-> ExpAt(now, Life(spec.life, over)), iss |-> iss, sub |-> sub, type |-> spec.type,
   key |-> key, claims |-> MarkClaims(spec, iss, sub, delegText), delegation |-> deleg]

DelegationClaims(spec, iss, sub) ==
  Pairs(spec.extra) @@ ("iss" :> Str(iss)) @@ ("sub" :> Str(sub)) @@ ("trust_mark_type" :> Str(spec.type)) @@ Opt("ref", spec.ref)

Delegation(spec, iss, key, sub, over, now) ==
  [kind |-> "td", typ |-> HeaderType("td"), iat |-> now, exp |-> ExpAt(now, Life(spec.life, over)), iss |-> iss, sub |-> sub, type |-> spec.type,
   key |-> key, claims |-> DelegationClaims(spec, iss, sub), delegation |-> None]

(* what accompanies a trust mark in an entity configuration *)
InfoClaims(spec, jwt) ==
  (IF spec.inInfo THEN Pairs(spec.extra) ELSE <<>>) @@ ("trust_mark_type" :> Str(spec.type)) @@ ("trust_mark" :> Str(jwt))

(* an entity configuration without a configured lifetime expires after the default lifetime *)
ConfLife(life, default) == IF life <= 0 THEN default ELSE life

(* c: Seq([n, v]) of the configured claims *)
Statement(kind, c, iss, key, sub, iat, exp) ==
  [kind |-> kind, typ |-> HeaderType(kind), iat |-> iat, exp |-> exp, iss |-> iss, sub |-> sub, type |-> "", key |-> key,
   claims |-> Pairs(c) @@ ("iss" :> Str(iss)) @@ ("sub" :> Str(sub)), delegation |-> None]

-----------------------------------------------------------------------------
(* Acceptance *)

InTime(d, now) == d.iat <= now /\ (d.exp = NoExp \/ now <= d.exp)

(* with a set of keys *)
Accepted(d, keys, now) == InTime(d, now) /\ d.key \in keys

(* of a trust mark of which the owner is known *)
AcceptedWithOwner(d, keys, owner, ownerKeys, now) ==
  /\ Accepted(d, keys, now)
  /\ d.delegation # None
  /\ Accepted(d.delegation, ownerKeys, now)
  /\ d.delegation.type = d.type /\ d.delegation.sub = d.iss /\ d.delegation.iss = owner

(* of a chain: the entity configurations of entity and trust anchor and the statement between them *)
AcceptedChain(ec, es, ta, now) == InTime(ec, now) /\ InTime(es, now) /\ InTime(ta, now)
=============================================================================
