---------------------------- MODULE MCCollection ----------------------------
(***************************************************************************)
(* A machine that collects the listed entities the way the implementation   *)
(* does: a collection of an authority has a task that fetches the list and   *)
(* starts a task for every listed entity; these report the entity, and, if   *)
(* it lists entities itself, do a nested collection of it and pass on what   *)
(* that reports. A collection has a bounded number of workers. All           *)
(* interleavings, all graphs.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils

EnvInt(name, default) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE default
N == EnvInt("NODES", 3)
Workers == EnvInt("WORKERS", 2)
MaxOut == EnvInt("MAXOUT", 2)

Nodes == 1..N
TA == 1
(* nodes that list nobody are leaves *)
VARIABLES lists, visited, f, reported
(* f: the open collections, a function from its path (who listed whom) to    *)
(* [todo, running, state, out]; state: "visit", "list", "wait", "closed"     *)
vars == <<lists, visited, f, reported>>

Frames == DOMAIN f
Subsets == {S \in SUBSET Nodes : Cardinality(S) <= MaxOut}
Frame(s) == [state |-> s, todo |-> {}, running |-> {}, out |-> {}]

Init ==
  /\ lists \in {g \in [Nodes -> Subsets] : g[TA] # {}}
  /\ visited = {}
  /\ f = [p \in {<<TA>>} |-> Frame("visit")]
  /\ reported = <<>>

Authority(p) == p[Len(p)]
Busy(p) == Cardinality(f[p].running) + (IF f[p].state \in {"visit", "list"} THEN 1 ELSE 0)

Visit(p) ==
  /\ f[p].state = "visit"
  /\ IF Authority(p) \in visited THEN f' = [f EXCEPT ![p].state = "wait"] /\ visited' = visited
     ELSE /\ visited' = visited \cup {Authority(p)}
          /\ f' = [f EXCEPT ![p].state = "list", ![p].todo = lists[Authority(p)]]
  /\ UNCHANGED <<lists, reported>>

(* starts a task as soon as there is a worker *)
Start(p) ==
  /\ f[p].state = "list"
  /\ IF f[p].todo = {} THEN f' = [f EXCEPT ![p].state = "wait"]
     ELSE /\ Busy(p) < Workers
          /\ \E s \in f[p].todo : f' = [f EXCEPT ![p].todo = @ \ {s}, ![p].running = @ \cup {[sub |-> s, st |-> "get"]}]
  /\ UNCHANGED <<lists, visited, reported>>

With(g, p, t, u) == [g EXCEPT ![p].running = (@ \ {t}) \cup u]

(* a task reports its entity *)
Report(p, t) ==
  /\ t.st = "get"
  /\ LET s == t.sub
         g == [f EXCEPT ![p].out = @ \cup {s}]
         sub == Append(p, s)
     IN f' = IF lists[s] = {} THEN With(g, p, t, {})
             ELSE [q \in Frames \cup {sub} |-> IF q = sub THEN Frame("visit") ELSE With(g, p, t, {[sub |-> s, st |-> "nested"]})[q]]
  /\ UNCHANGED <<lists, visited, reported>>

(* a nested collection is complete *)
Return(p, t) ==
  /\ t.st = "nested"
  /\ LET sub == Append(p, t.sub) IN
     /\ f[sub].state = "wait" /\ f[sub].running = {}
     /\ f' = [q \in Frames \ {sub} |-> With([f EXCEPT ![p].out = @ \cup f[sub].out], p, t, {})[q]]
  /\ UNCHANGED <<lists, visited, reported>>

Complete ==
  /\ f[<<TA>>].state = "wait" /\ f[<<TA>>].running = {}
  /\ f' = [f EXCEPT ![<<TA>>].state = "closed"]
  /\ reported' = <<f[<<TA>>].out>>
  /\ UNCHANGED <<lists, visited>>

Done == reported # <<>> /\ UNCHANGED vars

Next ==
  \/ \E p \in Frames : Visit(p) \/ Start(p) \/ \E t \in f[p].running : Report(p, t) \/ Return(p, t)
  \/ Complete
  \/ Done

RECURSIVE Closure(_, _)
Closure(done, todo) ==
  IF todo = {} THEN {}
  ELSE LET new == UNION {lists[a] : a \in todo} IN new \cup Closure(done \cup todo, new \ (done \cup todo))

(* whatever was collected is what is listed; no deadlock (checked by TLC) and no endless behaviour: paths are bounded *)
Exact == reported # <<>> => reported[1] = Closure({}, {TA})
Bounded == \A p \in Frames : Len(p) <= N + 1 /\ Busy(p) <= Workers
=============================================================================
