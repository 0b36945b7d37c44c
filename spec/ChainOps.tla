------------------------------ MODULE ChainOps ------------------------------
(***************************************************************************)
(* Trust chains as values: their path length, expiration and metadata, and  *)
(* filtering and sorting of lists of chains.                                 *)
(*                                                                          *)
(* A statement is a record [iss, exp, name, contacts, mname, mcontacts,      *)
(* crit, hasmd]: a leaf has metadata (if hasmd) with a name ("" if absent)   *)
(* and a set of contacts; superiors force a name (pname), add contacts       *)
(* (padd), and may declare an operator nobody knows to be critical.          *)
(* A chain is a sequence of statements, from the leaf to the trust anchor.   *)
(* exp is 0 if a statement does not expire.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Max2(a, b) == IF a >= b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Intermediates(c) == Max2(0, Len(c) - 3)

(* with its earliest expiring statement; 0 if never *)
Expiration(c) ==
  LET E == {c[i].exp : i \in DOMAIN c} \ {0} IN IF E = {} THEN 0 ELSE MinOf(E)

EndsAt(c, a) == Len(c) > 0 /\ c[Len(c)].iss = a

Superiors(c) == {i \in DOMAIN c : i > 1}
ForcedNames(c) == {c[i].pname : i \in Superiors(c)} \ {""}
AddedContacts(c) == UNION {c[i].padd : i \in Superiors(c)}

(* the metadata of the leaf after the policies of its superiors *)
NoMetadata == [err |-> TRUE]
MetadataOf(c) ==
  IF c = <<>> THEN NoMetadata
  ELSE IF Len(c) > 1 /\ (Cardinality(ForcedNames(c)) > 1 \/ \E i \in DOMAIN c : c[i].crit) THEN NoMetadata
  ELSE LET l == c[1] IN
       IF ~l.hasmd THEN [err |-> FALSE, name |-> "", contacts |-> {}]
       ELSE [err |-> FALSE,
             name |-> IF ForcedNames(c) = {} THEN l.name ELSE CHOOSE n \in ForcedNames(c) : TRUE,
             contacts |-> l.contacts \cup AddedContacts(c)]

Keeps(f, c, list) ==
  CASE f.kind = "anchor" -> EndsAt(c, f.anchor)
    [] f.kind = "max" -> Intermediates(c) <= f.n
    [] f.kind = "min" -> \A i \in DOMAIN list : Intermediates(c) <= Intermediates(list[i])
    [] f.kind = "valid" -> ~MetadataOf(c).err
    [] f.kind = "long" -> Len(c) >= f.n             \* a criterion of the caller

Filtered(f, list) == SelectSeq(list, LAMBDA c : Keeps(f, c, list))

RECURSIVE FilteredAll(_, _)
FilteredAll(fs, list) == IF fs = <<>> THEN list ELSE FilteredAll(Tail(fs), Filtered(Head(fs), list))

(* positions of the chains that are kept; chains are identified by position where equal ones may occur *)
RECURSIVE KeptAll(_, _, _)
KeptAll(fs, ids, C) ==
  IF fs = <<>> THEN ids
  ELSE LET l == [i \in DOMAIN ids |-> C[ids[i]]] IN
       KeptAll(Tail(fs), SelectSeq(ids, LAMBDA x : Keeps(Head(fs), C[x], l)), C)

(* a scoring function *)
Score(s, c) ==
  CASE s = "path" -> Intermediates(c)
    [] s = "len" -> Len(c)
    [] s = "expiry" -> Expiration(c)
    [] s = "flat" -> 0
    [] s = "neg" -> 0 - Len(c)

Count(x, q) == Cardinality({i \in DOMAIN q : q[i] = x})
SameElements(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a[i], a) = Count(a[i], b)

(* b is a, in the order of the scores *)
IsSorted(b, s, desc, C) ==
  \A i \in DOMAIN b : i < Len(b) =>
     IF desc THEN Score(s, C[b[i]]) >= Score(s, C[b[i + 1]]) ELSE Score(s, C[b[i]]) <= Score(s, C[b[i + 1]])
SortOf(b, a, s, desc, C) == SameElements(a, b) /\ IsSorted(b, s, desc, C)
=============================================================================
