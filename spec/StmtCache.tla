------------------------------ MODULE StmtCache ------------------------------
(***************************************************************************)
(* Obtaining statements through the cache. A statement is identified by the *)
(* location it is served at; the server of a location publishes versions,   *)
(* one at a time, and answers after some latency. Lookups are answered from *)
(* the cache as long as the cached version is not expired; if it is due for *)
(* a refresh, a new version is requested in the background.                 *)
(*                                                                          *)
(* Time is counted in half seconds, the times of versions are in seconds.   *)
(* The state of the system is one record:                                   *)
(*   half  : the time                                                       *)
(*   pub   : location -> [v, iat, exp, ok] what is published; ok: whether   *)
(*           the server answers with it                                     *)
(*   cache : location -> [v, iat, exp], v = 0: nothing is cached            *)
(*   pend  : sequence of requests in flight [l, p, done, id]; p is what is  *)
(*           published when the request arrives, id identifies the lookup   *)
(*           that waits for it, 0: nobody does                              *)
(*   reqs  : the requests made so far, <<half, l>>                          *)
(*   rets  : the lookups answered so far [id, at, v, exp, hit]; v = -1:     *)
(*           failed                                                         *)
(* The parameters p of the cache:                                           *)
(*   grace (seconds), factor (percent), lat (latency in half seconds)       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

None == [v |-> 0, iat |-> 0, exp |-> 0]

CacheInit(locs, pub) ==
  [half |-> 0, pub |-> pub, cache |-> [l \in locs |-> None], pend |-> <<>>, reqs |-> <<>>, rets |-> <<>>]

(* exp = 0: there is no expiration, and no lifetime for which the cache might keep it *)
Expired(e, half) == e.exp * 2 <= half
Usable(st, l) == st.cache[l].v # 0 /\ ~Expired(st.cache[l], st.half)

(* within the grace period, and the given share of the lifetime is over *)
Due(p, e, half) ==
  /\ e.exp * 2 - half <= p.grace * 2
  /\ (half - e.iat * 2) * 100 > p.factor * (e.exp - e.iat) * 2

Request(p, st, l, id) ==
  [st EXCEPT !.reqs = Append(@, <<st.half, l>>),
             !.pend = Append(@, [l |-> l, p |-> st.pub[l], done |-> st.half + p.lat, id |-> id])]

Return(st, id, v, exp, hit) == [st EXCEPT !.rets = Append(@, [id |-> id, at |-> st.half, v |-> v, exp |-> exp, hit |-> hit])]

Lookup(p, st, l, id) ==
  IF Usable(st, l)
  THEN LET e == st.cache[l]
           r == Return(st, id, e.v, e.exp, TRUE)
       IN IF Due(p, e, st.half) THEN Request(p, r, l, 0) ELSE r
  ELSE Request(p, st, l, id)

(* an answer arrives; a version without remaining lifetime is not cached *)
Answer(st) ==
  LET a == Head(st.pend)
      s1 == [st EXCEPT !.pend = Tail(@), !.half = a.done]
      entry == [v |-> a.p.v, iat |-> a.p.iat, exp |-> a.p.exp]
      s2 == IF a.p.ok /\ ~Expired(entry, a.done) THEN [s1 EXCEPT !.cache[a.l] = entry] ELSE s1
  IN IF a.id = 0 THEN s2
     ELSE IF a.p.ok THEN Return(s2, a.id, a.p.v, a.p.exp, FALSE) ELSE Return(s2, a.id, -1, 0, FALSE)

RECURSIVE AdvanceTo(_, _)
AdvanceTo(st, half) ==
  IF st.pend # <<>> /\ Head(st.pend).done <= half THEN AdvanceTo(Answer(st), half)
  ELSE [st EXCEPT !.half = half]

Publish(st, l, version) == [st EXCEPT !.pub[l] = version]
=============================================================================
