----------------------------- MODULE TrustMarks -----------------------------
(***************************************************************************)
(* When is a trust mark accepted. A mark is a record                        *)
(*   mid (a unique number), iss, sub, type, iat, exp (0: never expires),    *)
(*   signer (key name), sig ("ok" or a kind of forgery), typ ("tm" or       *)
(*   another type of jwt), del: its delegation                              *)
(* a delegation is a record                                                 *)
(*   kind ("none", "garbage", "jwt"), iss, sub, type, iat, exp, signer,     *)
(*   sig, typ ("td" or another type)                                        *)
(* An entity publishes [info, mark], where info is the type announced       *)
(* beside the mark. The configuration of a trust anchor additionally has    *)
(*   tmi: sequence of [type, ids]      who may issue marks of a type        *)
(*   tmo: sequence of [type, id, keys] who owns a type                      *)
(***************************************************************************)
EXTENDS Federation

Allowed(ta, type, iss) == \A j \in DOMAIN ta.tmi : ta.tmi[j].type = type => iss \in Range(ta.tmi[j].ids)

Within(now, x) == x.iat <= now /\ (x.exp = 0 \/ x.exp >= now)

DelegationOK(now, owner, mk) ==
  LET d == mk.del IN
  /\ d.kind = "jwt"
  /\ d.typ = "td"
  /\ d.type = mk.type
  /\ d.sub = mk.iss
  /\ d.iss = owner.id
  /\ SignedBy(d, owner.keys)
  /\ Within(now, d)

(* with known keys of the issuer; owners: none or one *)
AcceptedWithKeys(now, keys, owners, mk) ==
  /\ mk.typ = "tm"
  /\ Within(now, mk)
  /\ SignedBy(mk, keys)
  /\ \A j \in DOMAIN owners : DelegationOK(now, owners[j], mk)

Owners(ta, type) == SelectSeq(ta.tmo, LAMBDA o : o.type = type)

(* the keys of an issuer that the anchor or a valid trust chain to it vouches for *)
IssuerKeys(w, ta, iss) ==
  IF iss = ta.sub THEN ta.keys
  ELSE LET req == [start |-> iss, types |-> <<>>, anchors |-> <<[id |-> ta.sub, pin |-> FALSE, keys |-> <<>>]>>]
       IN IF ValidChainsWithMetadata(w, req) # {} THEN EC(w, iss).keys ELSE <<>>

Accepted(w, ta, mk) ==
  /\ mk.typ = "tm"
  /\ Allowed(ta, mk.type, mk.iss)
  /\ AcceptedWithKeys(w.now, IssuerKeys(w, ta, mk.iss), Owners(ta, mk.type), mk)

(* p is [info, mark] *)
AcceptedInfo(w, ta, p) == p.info = p.mark.type /\ Accepted(w, ta, p.mark)

(* what is reported for an entity *)
ReportedFor(w, ta, e, ps) == SelectSeq(ps, LAMBDA p : p.mark.sub = e /\ AcceptedInfo(w, ta, p))
=============================================================================
