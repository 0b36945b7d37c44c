----------------------------- MODULE MCJwtTyping -----------------------------
(***************************************************************************)
(* Honest parties issue documents for certain purposes; an attacker gets    *)
(* hold of all documents, changes serializations and unprotected headers,   *)
(* drops, reorders and combines signatures over the same payload, and adds  *)
(* signatures of his own with any headers, but cannot sign with the key of  *)
(* an honest party. A verifier takes any document for any purpose according *)
(* to MayAccept (RULE=exact), or only looks at the first signature          *)
(* (RULE=first), at all of them disjunctively (RULE=some), or also believes *)
(* unprotected headers (RULE=unprotected), and then verifies it.            *)
(***************************************************************************)
EXTENDS JwtTyping, IOUtils, TLC

EnvStr(name, default) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE default
EnvInt(name, default) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE default
Rule == EnvStr("RULE", "exact")
MaxSigs == EnvInt("MAXSIGS", 2)

Honest == {"hA", "hB"}
Attacker == "evil"
Types == Purposes \cup {"no", "other"}

VARIABLES issued,   \* the signatures of honest parties known to the attacker: [prot, signer] (all over the same payload)
          doc,      \* what the attacker presents
          verdict   \* purposes for which the verifier accepts it
vars == <<issued, doc, verdict>>

None == [ser |-> "none", sigs |-> <<>>]
Sig(p, u, k) == [prot |-> p, unprot |-> u, signer |-> k]

Accepts(p, d) ==
  CASE Rule = "exact" -> MayAccept(p, d)
    [] Rule = "first" -> Len(d.sigs) > 0 /\ d.sigs[1].prot = p
    [] Rule = "some" -> \E i \in DOMAIN d.sigs : d.sigs[i].prot = p
    [] Rule = "unprotected" -> Len(d.sigs) = 1 /\ (d.sigs[1].prot = p \/ (d.sigs[1].prot = "no" /\ d.sigs[1].unprot = p))

Init == issued = {} /\ doc = None /\ verdict = {}

Issue == /\ doc = None
         /\ \E k \in Honest, p \in Types : issued' = issued \cup {[prot |-> p, signer |-> k]}
         /\ Cardinality(issued') <= 2
         /\ UNCHANGED <<doc, verdict>>

(* the attacker builds a document signature by signature *)
Add == /\ verdict = {} /\ Len(doc.sigs) < MaxSigs
       /\ \E u \in Types :
            \/ \E s \in issued : doc' = [ser |-> "general", sigs |-> Append(doc.sigs, Sig(s.prot, u, s.signer))]
            \/ \E p \in Types : doc' = [ser |-> "general", sigs |-> Append(doc.sigs, Sig(p, u, Attacker))]
       /\ UNCHANGED <<issued, verdict>>

Compact == /\ verdict = {} /\ doc.ser = "general" /\ Len(doc.sigs) = 1
           /\ doc' = [ser |-> "compact", sigs |-> <<[doc.sigs[1] EXCEPT !.unprot = "no"]>>]
           /\ UNCHANGED <<issued, verdict>>

Present == /\ doc # None /\ verdict = {}
           /\ verdict' = {p \in Purposes : Accepts(p, doc) /\ Verifies(Honest, doc)} \cup {"presented"}
           /\ UNCHANGED <<issued, doc>>

Next == Issue \/ Add \/ Compact \/ Present
Spec == Init /\ [][Next]_vars

(* what is accepted for a purpose has been issued for it by an honest party *)
Authentic == \A p \in verdict \cap Purposes : \E s \in issued : s.prot = p
OnlyVouched == \A p \in verdict \cap Purposes : Vouched(Honest, p, doc)
(* one document is not accepted for two purposes *)
OnePurpose == Cardinality(verdict \cap Purposes) <= 1
(* what honest parties issue is accepted *)
Complete == (verdict # {} /\ doc.ser = "compact" /\ doc.sigs[1].signer \in Honest /\ doc.sigs[1].prot \in Purposes)
              => doc.sigs[1].prot \in verdict
=============================================================================
