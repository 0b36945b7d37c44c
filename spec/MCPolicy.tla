------------------------------ MODULE MCPolicy ------------------------------
(***************************************************************************)
(* Laws of policy combination and application, checked exhaustively for all *)
(* entries with up to MaxOps operators over a small set of atoms: every     *)
(* state is a sequence of entries together with a value; the entries are    *)
(* chosen one by one.                                                       *)
(***************************************************************************)
EXTENDS Policy, IOUtils, FiniteSetsExt

EnvInt(name, default) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE default
MaxOps == EnvInt("MAXOPS", 2)
MaxEntries == EnvInt("MAXENTRIES", 2)

A == {"s:a", "s:b"}
One(a) == [k |-> "s", s |-> {a}]
False == [k |-> "s", s |-> {"b:false"}]

ListVals == {Lst(s) : s \in SUBSET A}
ListDomain(op) ==
  CASE op = "value" -> ListVals \cup {Null}
    [] op \in {"add", "superset_of"} -> ListVals \ {Lst({})}
    [] op \in {"default", "subset_of"} -> ListVals
    [] op = "one_of" -> {Lst({"s:a"})}
    [] op = "essential" -> {True, False}
ScalarDomain(op) ==
  CASE op = "value" -> {One(a) : a \in A} \cup {Null}
    [] op = "default" -> {One(a) : a \in A}
    [] op = "one_of" -> ListVals
    [] op = "essential" -> {True, False}

EntriesOver(ops, dom(_)) ==
  {e \in [ops -> UNION {dom(op) : op \in ops}] : \A op \in ops : e[op] \in dom(op)}

ListEntries == UNION {EntriesOver(ops, ListDomain) : ops \in {x \in SUBSET KnownOps : Cardinality(x) <= MaxOps}}
ScalarEntries == UNION {EntriesOver(ops, ScalarDomain) :
                         ops \in {x \in SUBSET {"value", "default", "one_of", "essential"} : Cardinality(x) <= MaxOps}}

VARIABLES kind, es, val
vars == <<kind, es, val>>

Init == /\ kind \in {"list", "scalar"}
        /\ es = <<>>
        /\ val \in IF kind = "list" THEN ListVals \cup {Absent} ELSE {One(a) : a \in A} \cup {Absent}
Next == /\ Len(es) < MaxEntries
        /\ \E e \in IF kind = "list" THEN ListEntries ELSE ScalarEntries : es' = Append(es, e)
        /\ UNCHANGED <<kind, val>>
Spec == Init /\ [][Next]_vars

M == CombineAll(es)
R == ApplyEntry(M.e, val)

Reverse(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]

(* what is accepted under the combined policy is what everybody accepts *)
Narrowing == (es # <<>> /\ ~M.err /\ ~R.err) => \A i \in DOMAIN es : Accepts(es[i], R.v)
(* the order of combination has no influence *)
OrderIndependent == LET M2 == CombineAll(Reverse(es)) IN
  M2.err = M.err /\ (~M.err => M2.e = M.e \/ \A op \in DOMAIN M.e : op = "essential" \/ M2.e[op] = M.e[op])
(* conflicts do not go away by adding policies *)
ConflictsStay == (Len(es) > 1 /\ CombineAll(SubSeq(es, 1, Len(es) - 1)).err) => M.err
(* combining with oneself changes nothing *)
Idempotent == (Len(es) > 0 /\ ~M.err) => Combine(M, M) = M
(* applying once more changes nothing *)
Stable == (~M.err /\ ~R.err) => ApplyEntry(M.e, R.v) = R
=============================================================================
