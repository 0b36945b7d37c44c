-------------------------- MODULE TrustMarkRefresh --------------------------
(***************************************************************************)
(* Keeping an own trust mark fresh: what may be observed when a configured  *)
(* trust mark is asked for again and again, possibly concurrently, while    *)
(* its issuer answers late, badly, or not at all.                           *)
(*                                                                          *)
(* A history is a sequence of events                                        *)
(*   [op: "req", t, r]           request r begins                           *)
(*   [op: "contact", t]          the issuer is contacted                    *)
(*   [op: "answer", t, id, exp]  the issuer answers with a mark; exp = 0:   *)
(*                               it never expires; id = 0: no mark          *)
(*   [op: "ret", t, r, id]       request r ends; id = 0: without a mark     *)
(* The parameters are                                                       *)
(*   min, grace (seconds), minute (60 but in models), refresh: whether the  *)
(*   mark is to be refreshed, init: the mark given initially, [id, exp]     *)
(* A mark without the minimal lifetime left is never used. Boundary cases   *)
(* that the property leaves open are left open here.                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Lasts(mk, t, d) == mk.exp = 0 \/ mk.exp - t >= d
LastsLonger(mk, t, d) == mk.exp = 0 \/ mk.exp - t > d

(* the marks one could have, in the order they were obtained: [id, exp, t] *)
RECURSIVE ObtainedFrom(_, _, _)
ObtainedFrom(p, h, i) ==
  IF i > Len(h) THEN <<>>
  ELSE LET e == h[i] IN
       (IF e.op = "answer" /\ e.id # 0 /\ LastsLonger(e, e.t, p.min) THEN <<[id |-> e.id, exp |-> e.exp, t |-> e.t]>> ELSE <<>>)
       \o ObtainedFrom(p, h, i + 1)
Obtained(p, h) == (IF p.init.id = 0 THEN <<>> ELSE <<[id |-> p.init.id, exp |-> p.init.exp, t |-> -1]>>) \o ObtainedFrom(p, h, 1)

(* the index of the mark obtained last before t, 0 if there is none *)
RECURSIVE LastBefore(_, _, _)
LastBefore(o, t, n) == IF n = 0 THEN 0 ELSE IF o[n].t < t THEN n ELSE LastBefore(o, t, n - 1)

Contacts(h) == {i \in DOMAIN h : h[i].op = "contact"}
Returns(h) == {i \in DOMAIN h : h[i].op = "ret"}
Begin(h, r) == CHOOSE i \in DOMAIN h : h[i].op = "req" /\ h[i].r = r

(* a request for an answer that is still open at time t: answers come in the order of the contacts *)
Open(h, t) == \E i \in Contacts(h) : h[i].t <= t /\ \A j \in DOMAIN h : (h[j].op = "answer" /\ j > i) => h[j].t >= t

(* what a request got is one of the marks obtained, and lasts for the minimal lifetime *)
Fresh(p, h) == \A i \in Returns(h) : (p.refresh /\ h[i].id # 0) =>
  LET o == Obtained(p, h) IN \E j \in DOMAIN o : o[j].id = h[i].id /\ o[j].t <= h[i].t /\ Lasts(o[j], h[i].t, p.min)

(* a mark that is not to be refreshed is served as it is *)
Static(p, h) == ~p.refresh => (Contacts(h) = {} /\ \A i \in Returns(h) : h[i].id = p.init.id)

(* as long as there is a mark with enough lifetime, requests are answered at once, with it or a newer one *)
Included(p, h) == \A i \in Returns(h) : p.refresh =>
  LET o == Obtained(p, h)
      b == h[Begin(h, h[i].r)].t
      n == LastBefore(o, b, Len(o))
  IN (n # 0 /\ \A j \in DOMAIN o : (j >= n /\ o[j].t <= b) => LastsLonger(o[j], b, p.min)) =>
       /\ h[i].t = b
       /\ h[i].id \in {o[j].id : j \in {k \in DOMAIN o : k >= n /\ o[k].t <= b}}

(* nobody gets an older mark than the one that was the latest when the request began *)
Latest(p, h) == \A i \in Returns(h) : (p.refresh /\ h[i].id # 0) =>
  LET o == Obtained(p, h)
      n == LastBefore(o, h[Begin(h, h[i].r)].t, Len(o))
  IN \E j \in DOMAIN o : j >= n /\ o[j].id = h[i].id

(* a request fails only if no mark was available, and the issuer was asked: now, or within the last minute *)
FailsOnlyIfNothing(p, h) == \A i \in Returns(h) : (p.refresh /\ h[i].id = 0) =>
  LET b == h[Begin(h, h[i].r)].t IN
  /\ p.observable => \E c \in Contacts(h) : h[c].t <= h[i].t /\ h[c].t >= b - p.minute
  (* nothing was obtained while it waited *)
  /\ ~\E j \in DOMAIN h : j < i /\ h[j].op = "answer" /\ h[j].id # 0 /\ h[j].t >= b /\ LastsLonger(h[j], h[j].t, p.min) /\ LastsLonger(h[j], h[i].t, p.min)

(* the issuer is contacted at most once a minute *)
Spaced(p, h) == \A i, j \in Contacts(h) : (i < j /\ h[i].t # h[j].t) => h[j].t - h[i].t >= p.minute

(* the issuer is only contacted for a request that finds no mark, or one in the grace period *)
Needed(p, h) == \A c \in Contacts(h) :
  LET o == Obtained(p, h)
      n == LastBefore(o, h[c].t, Len(o))
  IN n = 0 \/ ~LastsLonger(o[n], h[c].t, p.min) \/ ~LastsLonger(o[n], h[c].t, p.grace)

(* a mark in the grace period that is asked for is renewed *)
Renewed(p, h) == \A i \in DOMAIN h : (h[i].op = "req" /\ p.refresh) =>
  LET o == Obtained(p, h)
      t == h[i].t
      n == LastBefore(o, t, Len(o))
  IN (n # 0 /\ ~Lasts(o[n], t, p.grace) /\ ~\E j \in DOMAIN o : o[j].t = t) =>
       \/ \E c \in Contacts(h) : h[c].t <= t /\ h[c].t >= t - p.minute
       \/ Open(h, t)

Rules == <<"fresh", "static", "included", "latest", "failing", "spaced", "needed", "renewed">>
Holds(rule, p, h) ==
  CASE rule = "fresh" -> Fresh(p, h)
    [] rule = "static" -> Static(p, h)
    [] rule = "included" -> Included(p, h)
    [] rule = "latest" -> Latest(p, h)
    [] rule = "failing" -> FailsOnlyIfNothing(p, h)
    [] rule = "spaced" -> Spaced(p, h)
    [] rule = "needed" -> Needed(p, h)
    [] rule = "renewed" -> Renewed(p, h)
=============================================================================
