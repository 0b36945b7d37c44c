----------------------------- MODULE MCStmtCache -----------------------------
(***************************************************************************)
(* All histories of lookups, publications, outages and the passing of time, *)
(* up to some length.                                                       *)
(***************************************************************************)
EXTENDS StmtCache, IOUtils

EnvInt(name, default) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE default
MaxSteps == EnvInt("MAXSTEPS", 7)
MaxHalf == EnvInt("MAXHALF", 16)
Locs == IF EnvInt("LOCS", 1) = 1 THEN {"a"} ELSE {"a", "b"}
Params == {[grace |-> g, factor |-> f, lat |-> lat] : g \in {1, 3}, f \in {25, 50}, lat \in {1, 3}}
Lifetimes == {1, 3, 5}

VARIABLES p, st, steps,
          shown   \* location -> the version that a request found last, if it is valid
vars == <<p, st, steps, shown>>

Version(v, now, life, ok) == [v |-> v, iat |-> now, exp |-> IF life = 0 THEN 0 ELSE now + life, ok |-> ok]

Init ==
  /\ p \in Params
  /\ st \in {CacheInit(Locs, [l \in Locs |-> Version(1, 0, life, TRUE)]) : life \in Lifetimes \cup {0}}
  /\ steps = 0
  /\ shown = [l \in Locs |-> 0]

Sec == st.half \div 2

Look(l) ==
  /\ st' = Lookup(p, st, l, steps + 1)
  /\ UNCHANGED shown
Publishes(l) ==
  /\ \E life \in Lifetimes : st' = Publish(st, l, Version(st.pub[l].v + 1, Sec, life, TRUE))
  /\ UNCHANGED shown
Breaks(l) ==
  /\ st.pub[l].ok
  /\ st' = Publish(st, l, [st.pub[l] EXCEPT !.ok = FALSE])
  /\ UNCHANGED shown
Repairs(l) ==
  /\ ~st.pub[l].ok
  /\ st' = Publish(st, l, [st.pub[l] EXCEPT !.ok = TRUE])
  /\ UNCHANGED shown
(* time passes until the next answer arrives, or for half a second *)
Time ==
  IF st.pend # <<>> /\ Head(st.pend).done <= st.half + 1
  THEN LET a == Head(st.pend) IN
       /\ st' = Answer(st)
       /\ shown' = IF a.p.ok /\ ~Expired([v |-> a.p.v, iat |-> a.p.iat, exp |-> a.p.exp], a.done) THEN [shown EXCEPT ![a.l] = a.p.v] ELSE shown
  ELSE /\ st' = [st EXCEPT !.half = @ + 1]
       /\ UNCHANGED shown

Next ==
  /\ steps < MaxSteps \/ st.pend # <<>>
  /\ \/ /\ steps < MaxSteps
        /\ \E l \in Locs : Look(l) \/ Publishes(l) \/ Breaks(l) \/ Repairs(l)
        /\ steps' = steps + 1
     \/ /\ st.half < MaxHalf
        /\ Time
        /\ steps' = steps
  /\ UNCHANGED p

(* nothing expired is served from the cache *)
NothingExpiredServed == \A i \in DOMAIN st.rets : st.rets[i].hit => st.rets[i].exp * 2 > st.rets[i].at
(* the cache holds what a request found last *)
CacheCurrent == \A l \in Locs : st.cache[l].v = shown[l]
(* an answered lookup was answered once *)
AnsweredOnce == \A i, j \in DOMAIN st.rets : st.rets[i].id = st.rets[j].id => i = j
(* nothing without lifetime is kept *)
NothingEternalKept == \A l \in Locs : st.cache[l].v # 0 => st.cache[l].exp # 0

(* a lookup that is answered from a cached version which is not due makes no request, and one that is due does *)
LookupStep ==
  [][\A l \in Locs :
       (steps' = steps + 1 /\ Len(st'.rets) > Len(st.rets) /\ st'.half = st.half /\ Usable(st, l)) =>
         LET e == st.cache[l] IN
         (Len(st'.reqs) > Len(st.reqs) /\ st'.reqs[Len(st'.reqs)][2] = l) => Due(p, e, st.half)]_vars
(* a newer version is served once the answer to a refresh arrived: a lookup afterwards never gets an older one *)
Monotone == \A i, j \in DOMAIN st.rets :
  (i < j /\ st.rets[i].v > 0 /\ st.rets[j].v > 0 /\ Cardinality(Locs) = 1 /\ st.rets[i].exp * 2 > st.rets[i].at
     /\ st.rets[j].exp * 2 > st.rets[j].at) => st.rets[i].v <= st.rets[j].v
=============================================================================
