------------------------------ MODULE JwtTyping ------------------------------
(***************************************************************************)
(* What a signed JWT may be taken for. A document has a serialization and a *)
(* sequence of signatures; each signature has a protected header, which it  *)
(* covers, and an unprotected header, which anybody can change. All types   *)
(* are written as short names ("no": the header does not have a typ).       *)
(*                                                                          *)
(*  document:  [ser |-> "compact" | "flat" | "general",                     *)
(*              sigs |-> Seq([prot |-> type, unprot |-> type,               *)
(*                            signer |-> key])]                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Purposes == {"es", "tm", "td", "rr"}

(* only such documents may be accepted for the purpose p *)
MayAccept(p, d) == Len(d.sigs) = 1 /\ d.sigs[1].prot = p

(* such documents have to be accepted for the purpose p: what an issuer makes *)
MustAccept(p, d) == d.ser = "compact" /\ MayAccept(p, d)

(* a document verifies with a set of keys if one of its signatures does *)
Verifies(K, d) == \E i \in DOMAIN d.sigs : d.sigs[i].signer \in K

(* what the rules are for: if somebody's keys vouch for a document accepted for a purpose, then somebody's signature is *)
(* for that purpose                                                                                                     *)
Vouched(K, p, d) == \E i \in DOMAIN d.sigs : d.sigs[i].signer \in K /\ d.sigs[i].prot = p
=============================================================================
