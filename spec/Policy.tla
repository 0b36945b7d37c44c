------------------------------- MODULE Policy -------------------------------
(***************************************************************************)
(* Metadata policies: combining the policies of the superiors of an entity, *)
(* and applying the result to the metadata the entity publishes.            *)
(*                                                                          *)
(* A value is [k, v]: its kind k ("s": a single value, "l": an array,       *)
(* "null", "absent") and the sequence v of its atoms, strings such as       *)
(* "s:abc", "n:5", "b:true". The order within arrays is not significant,     *)
(* thus the rules work on [k, s] with the set s of atoms.                    *)
(* A policy entry is a function from operators to values, a policy is a     *)
(* function from claims to entries, policies are a function from entity     *)
(* types to policies; and metadata is a function from entity types to       *)
(* functions from claims to values.                                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Rng(q) == {q[i] : i \in DOMAIN q}
SV(x) == [k |-> x.k, s |-> Rng(x.v)]

Absent == [k |-> "absent", s |-> {}]
Null == [k |-> "null", s |-> {}]
Lst(s) == [k |-> "l", s |-> s]
True == [k |-> "s", s |-> {"b:true"}]

KnownOps == {"value", "add", "default", "one_of", "subset_of", "superset_of", "essential"}

EmptyFcn == [x \in {} |-> {}]
Has(f, x) == x \in DOMAIN f

(* operators that are not known are ignored, unless they are critical *)
KnownPart(e) == [op \in DOMAIN e \cap KnownOps |-> SV(e[op])]

----------------------------------------------------------------------------
(* combining *)

MergeValue(op, a, b) ==
  CASE op \in {"add", "superset_of"} -> Lst(a.s \cup b.s)
    [] op \in {"one_of", "subset_of"} -> Lst(a.s \cap b.s)
    [] op = "essential" -> IF True \in {a, b} THEN True ELSE a
    [] OTHER -> a

Conflicting(e, f) == \E op \in {"value", "default"} : Has(e, op) /\ Has(f, op) /\ e[op] # f[op]

MergeEntries(e, f) ==
  [op \in DOMAIN e \cup DOMAIN f |->
     IF Has(e, op) /\ Has(f, op) THEN MergeValue(op, e[op], f[op])
     ELSE IF Has(e, op) THEN e[op] ELSE f[op]]

(* operators that contradict each other *)
Contradictory(e) ==
  \/ Has(e, "one_of") /\ (e["one_of"].s = {} \/ \E op \in {"add", "subset_of", "superset_of"} : Has(e, op))
  \/ /\ Has(e, "subset_of")
     /\ \E op \in {"superset_of", "add", "value"} : Has(e, op) /\ ~(e[op].s \subseteq e["subset_of"].s)
  \/ Has(e, "add") /\ Has(e, "value") /\ ~(e["add"].s \subseteq e["value"].s)
  \/ Has(e, "value") /\ e["value"] = Null /\ Has(e, "default")

Error == [err |-> TRUE, e |-> EmptyFcn]
Ok(e) == [err |-> FALSE, e |-> e]

(* of entries without unknown operators *)
Combine(a, b) ==
  IF a.err \/ b.err THEN Error
  ELSE IF Conflicting(a.e, b.e) THEN Error
  ELSE LET m == MergeEntries(a.e, b.e) IN IF Contradictory(m) THEN Error ELSE Ok(m)

Checked(e) == IF Contradictory(e) THEN Error ELSE Ok(e)

RECURSIVE CombineAll(_)
CombineAll(es) ==
  IF es = <<>> THEN Ok(EmptyFcn)
  ELSE IF Len(es) = 1 THEN Checked(es[1])
  ELSE Combine(CombineAll(SubSeq(es, 1, Len(es) - 1)), Checked(es[Len(es)]))

----------------------------------------------------------------------------
(* applying *)

(* only a single value can be one of others *)
OneOf(x, choice) == x.k = "s" /\ x.s \subseteq choice.s

Result(err, v) == [err |-> err, v |-> v]

ApplyEntry(e, v0) ==
  LET v1 == IF Has(e, "value") THEN IF e["value"] = Null THEN Absent ELSE e["value"] ELSE v0
      v2 == IF Has(e, "add") THEN IF v1 = Absent THEN Lst(e["add"].s) ELSE Lst(v1.s \cup e["add"].s) ELSE v1
      v3 == IF Has(e, "default") /\ v2 = Absent THEN e["default"] ELSE v2
      essential == Has(e, "essential") /\ e["essential"] = True
      v4 == IF Has(e, "subset_of") /\ v3 # Absent THEN Lst(v3.s \cap e["subset_of"].s) ELSE v3
      bad == \/ essential /\ v3 = Absent
             \/ Has(e, "one_of") /\ v3 # Absent /\ ~OneOf(v3, e["one_of"])
             \/ Has(e, "superset_of") /\ v4 # Absent /\ ~(e["superset_of"].s \subseteq v4.s)
  IN Result(bad, v4)

(* an entry by itself does not object to a value *)
Accepts(e, r) ==
  /\ Has(e, "value") => r = (IF e["value"] = Null THEN Absent ELSE e["value"])
  /\ Has(e, "add") => e["add"].s \subseteq r.s
  /\ Has(e, "one_of") => r = Absent \/ OneOf(r, e["one_of"])
  /\ Has(e, "subset_of") => r = Absent \/ r.s \subseteq e["subset_of"].s
  /\ Has(e, "superset_of") => r = Absent \/ e["superset_of"].s \subseteq r.s
  /\ Has(e, "essential") /\ e["essential"] = True => r # Absent
  /\ Has(e, "default") => r # Absent

----------------------------------------------------------------------------
(* policies of a chain: a sequence of functions from types to policies *)

TypesIn(ps) == UNION {DOMAIN ps[i] : i \in DOMAIN ps}
ClaimsIn(ps, t) == UNION {IF Has(ps[i], t) THEN DOMAIN ps[i][t] ELSE {} : i \in DOMAIN ps}

RECURSIVE Entries(_, _, _)
Entries(ps, t, c) ==
  IF ps = <<>> THEN <<>>
  ELSE LET p == Head(ps) IN
       (IF Has(p, t) /\ Has(p[t], c) THEN <<KnownPart(p[t][c])>> ELSE <<>>) \o Entries(Tail(ps), t, c)

Combined(ps) ==
  [t \in TypesIn(ps) |-> [c \in ClaimsIn(ps, t) |-> CombineAll(Entries(ps, t, c))]]
CombinedErr(ps) == LET C == Combined(ps) IN \E t \in DOMAIN C : \E c \in DOMAIN C[t] : C[t][c].err

CritErr(crits) == \E i \in DOMAIN crits : \E j \in DOMAIN crits[i] : crits[i][j] \notin KnownOps

(* values that have no distinct representation in a published document *)
Norm(x) == IF x.s = {} \/ (x.k = "s" /\ x.s \subseteq {"b:false", "n:0", "s:"}) THEN Absent ELSE x

ValueOf(md, t, c) == IF Has(md[t], c) THEN SV(md[t][c]) ELSE Absent

AppliedType(ps, md, t) ==
  LET C == IF t \in TypesIn(ps) THEN Combined(ps)[t] ELSE EmptyFcn IN
  [c \in DOMAIN md[t] \cup DOMAIN C |->
     IF Has(C, c) THEN ApplyEntry(C[c].e, ValueOf(md, t, c)) ELSE Result(FALSE, ValueOf(md, t, c))]

(* the claims that remain *)
Claims(A) == [c \in {x \in DOMAIN A : Norm(A[x].v) # Absent} |-> Norm(A[c].v)]

LimitTo(md, types) == IF types = {} THEN md ELSE [t \in DOMAIN md \cap types |-> md[t]]

(* metadata of an entity with policies ps of its superiors, resolved for some types only if types is not empty *)
Resolved(ps, crits, md0, types) ==
  LET md == LimitTo(md0, types)
      A == [t \in DOMAIN md |-> AppliedType(ps, md, t)] IN
  IF CritErr(crits) \/ CombinedErr(ps) THEN [err |-> TRUE, md |-> EmptyFcn]
  ELSE IF \E t \in DOMAIN A : \E c \in DOMAIN A[t] : A[t][c].err THEN [err |-> TRUE, md |-> EmptyFcn]
  ELSE [err |-> FALSE, md |-> [t \in DOMAIN A |-> Claims(A[t])]]

=============================================================================
