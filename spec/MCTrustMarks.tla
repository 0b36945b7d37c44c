---------------------------- MODULE MCTrustMarks ----------------------------
(***************************************************************************)
(* The life of trust marks: an owner delegates, issuers issue, an attacker  *)
(* recombines what it has seen with statements it signs itself, keys are    *)
(* rolled over, time passes. Whatever is accepted by the rules of module    *)
(* TrustMarks must go back to what the owner and the issuer really did, and *)
(* what they did must be accepted as long as it is valid.                   *)
(***************************************************************************)
EXTENDS TrustMarks, IOUtils

MaxTime == atoi(IOEnv.MAXTIME)
MaxDocs == atoi(IOEnv.MAXDOCS)
Types == {"t1", "t2"}          \* t1 is owned, t2 is not
Issuers == {"I", "J"}          \* only I may issue t2; X is the attacker
Subjects == {"S"}
Life == {0, 1}

VARIABLES now, ikey, delegations, issued, forged
vars == <<now, ikey, delegations, issued, forged>>

TA == [sub |-> "TA", keys |-> <<"kTA">>,
       tmi |-> <<[type |-> "t2", ids |-> <<"I">>]>>,
       tmo |-> <<[type |-> "t1", id |-> "O", keys |-> <<"kO">>]>>]

NoDel == [kind |-> "none", iss |-> "", sub |-> "", type |-> "", iat |-> 0, exp |-> 0, signer |-> "", sig |-> "", typ |-> ""]

(* the attacker is part of the federation as well, with its own key *)
KeysOf(iss) == IF iss \in Issuers THEN <<ikey[iss]>> ELSE IF iss = "X" THEN <<"kX">> ELSE <<>>

OK(mk) == Allowed(TA, mk.type, mk.iss) /\ AcceptedWithKeys(now, KeysOf(mk.iss), Owners(TA, mk.type), mk)

Init == now = 1 /\ ikey = [i \in Issuers |-> "k" \o i] /\ delegations = {} /\ issued = {} /\ forged = {}

Expiry(l) == IF l = 0 THEN 0 ELSE now + l

Delegate == \E i \in Issuers, l \in Life :
  /\ Cardinality(delegations) < MaxDocs
  /\ delegations' = delegations \cup {[kind |-> "jwt", iss |-> "O", sub |-> i, type |-> "t1", iat |-> now, exp |-> Expiry(l),
                                      signer |-> "kO", sig |-> "ok", typ |-> "td"]}
  /\ UNCHANGED <<now, ikey, issued, forged>>

(* an honest issuer uses a delegation that was given to it *)
Issue == \E i \in Issuers, t \in Types, s \in Subjects, l \in Life, d \in delegations \cup {NoDel} :
  /\ Cardinality(issued) < MaxDocs
  /\ d # NoDel => d.sub = i /\ d.type = t
  /\ issued' = issued \cup {[iss |-> i, sub |-> s, type |-> t, iat |-> now, exp |-> Expiry(l), signer |-> ikey[i], sig |-> "ok",
                             typ |-> "tm", del |-> d]}
  /\ UNCHANGED <<now, ikey, delegations, forged>>

(* The attacker knows all delegations and marks. It signs with its own key, pretends to be anybody, or alters what it has seen, which
   invalidates the signature; it may also present one kind of document as another one *)
Forge ==
  /\ forged = {}
  /\ \E i \in Issuers \cup {"X"}, t \in Types, d \in delegations \cup {NoDel}, sd \in BOOLEAN, typ \in {"tm", "td"} :
       LET self == [kind |-> "jwt", iss |-> "O", sub |-> i, type |-> t, iat |-> now, exp |-> 0, signer |-> "kX", sig |-> "ok", typ |-> "td"]
       IN forged' = {[iss |-> i, sub |-> "X", type |-> t, iat |-> now, exp |-> 0, signer |-> "kX", sig |-> "ok", typ |-> typ,
                      del |-> IF sd THEN self ELSE d]}
  /\ UNCHANGED <<now, ikey, delegations, issued>>
Alter ==
  /\ forged = {}
  /\ \E m \in issued, s \in Subjects \cup {"X"}, t \in Types, d \in delegations \cup {NoDel} :
       LET a == [m EXCEPT !.sub = s, !.type = t, !.del = d, !.exp = 0] IN
       /\ a # m
       /\ forged' = {[a EXCEPT !.sig = "tampered"]}
  /\ UNCHANGED <<now, ikey, delegations, issued>>

Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<ikey, delegations, issued, forged>>
Roll == \E i \in Issuers : ikey[i] = "k" \o i /\ ikey' = [ikey EXCEPT ![i] = @ \o "2"] /\ UNCHANGED <<now, delegations, issued, forged>>

Next == Delegate \/ Issue \/ Forge \/ Alter \/ Tick \/ Roll
Spec == Init /\ [][Next]_vars

(* the attacker may issue marks of types that nobody restricts, but neither owned nor restricted ones exist for it *)
NothingForged == \A m \in forged : ~OK(m)
Authorised == \A m \in issued : OK(m) =>
   /\ m.type = "t2" => m.iss = "I"
   /\ m.type = "t1" => \E d \in delegations : d = m.del /\ d.sub = m.iss /\ Within(now, d)
   /\ Within(now, m) /\ m.signer = ikey[m.iss]
Complete == \A m \in issued :
   /\ Within(now, m) /\ m.signer = ikey[m.iss]
   /\ \/ m.type = "t2" /\ m.iss = "I"
      \/ m.type = "t1" /\ m.del # NoDel /\ Within(now, m.del)
   => OK(m)
(* once expired, never accepted again *)
StaysExpired == [][\A m \in issued : (~Within(now, m) /\ m.iat <= now) => ~OK(m)']_vars
=============================================================================
