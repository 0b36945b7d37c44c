--------------------------- MODULE StmtCacheTrace ---------------------------
(***************************************************************************)
(* Replays recorded histories of lookups, publications and outages in the   *)
(* specification, event by event, and compares what was served and which     *)
(* requests were made. A record has p, locs, init (what is published at     *)
(* first), events ([t, op, l, id, ver], ordered by time; op: "get" or       *)
(* "publish"), and obs: rets (the answered lookups, [id, at, v, intact]),   *)
(* reqs (<<at, l>>)                                                         *)
(***************************************************************************)
EXTENDS StmtCache, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, k, st
vars == <<h, k, st>>

Fail(prop, i, what) == PrintT(<<"FAIL", prop, i, what>>)
Check(ok, prop, i, what) == IF ok THEN TRUE ELSE Fail(prop, i, what)

Locs(t) == {t.locs[i] : i \in DOMAIN t.locs}

Apply(t, s, e) ==
  LET s1 == AdvanceTo(s, e.t * 2) IN
  CASE e.op = "get" -> Lookup(t.p, s1, e.l, e.id)
    [] e.op = "publish" -> Publish(s1, e.l, e.ver)

Init ==
  /\ h \in 1..Len(Trace)
  /\ k = 0
  /\ st = CacheInit(Locs(Trace[h]), Trace[h].init)

Rets(q) == {[id |-> q[i].id, at |-> q[i].at, v |-> q[i].v] : i \in DOMAIN q}

Judge(i, s) ==
  LET t == Trace[i] o == t.obs IN
  IF o.panic # "" THEN Fail("C10", i, o.panic) /\ Fail("C06", i, o.panic)
  ELSE
  /\ Check(Len(o.rets) = Cardinality(Rets(o.rets)) /\ Rets(o.rets) = Rets(s.rets), "C10", i,
           <<"served", Rets(o.rets) \ Rets(s.rets), Rets(s.rets) \ Rets(o.rets)>>)
  /\ Check(o.reqs = s.reqs, "C10", i, <<"requests", o.reqs, s.reqs>>)
  /\ Check(\A j \in DOMAIN o.rets : o.rets[j].v > 0 => o.rets[j].intact, "C21", i, "what was returned differs from what was published")
  /\ PrintT(<<"INFO", i, Cardinality({j \in DOMAIN s.rets : s.rets[j].hit}), Len(s.reqs)>>)

Next ==
  /\ k <= Len(Trace[h].events)
  /\ k' = k + 1
  /\ h' = h
  /\ IF k < Len(Trace[h].events)
     THEN st' = Apply(Trace[h], st, Trace[h].events[k + 1])
     ELSE /\ st' = AdvanceTo(st, Trace[h].finish * 2)
          /\ Judge(h, st')
          /\ PrintT(<<"DONE", h>>)
=============================================================================
