------------------------- MODULE MCTrustMarkRefresh -------------------------
(***************************************************************************)
(* A machine that keeps a trust mark fresh the way the implementation does: *)
(* requests look at the mark, start a background renewal or wait for the    *)
(* lock of the single renewal; the issuer answers whatever and whenever it  *)
(* likes. All interleavings; the histories must satisfy all rules.          *)
(***************************************************************************)
EXTENDS TrustMarkRefresh, IOUtils

EnvInt(name, default) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE default
MaxTime == EnvInt("MAXTIME", 7)
Reqs == 1..EnvInt("REQS", 3)
Lives == {1, 2, 4}

VARIABLES p, h, now, mark, last,
          st,     \* request -> "no", "begun", "waits", "done"
          lock,   \* "free", "bg" or the request that renews
          sent    \* a request to the issuer is in flight
vars == <<p, h, now, mark, last, st, lock, sent>>

None == [id |-> 0, exp |-> 0]
Params == {[min |-> 1, grace |-> 2, minute |-> 2, refresh |-> r, init |-> i, observable |-> TRUE] :
             r \in {TRUE}, i \in {None, [id |-> 1, exp |-> 3], [id |-> 1, exp |-> 0]}}
          \cup {[min |-> 1, grace |-> 2, minute |-> 2, refresh |-> FALSE, init |-> [id |-> 1, exp |-> 1], observable |-> TRUE]}

Init ==
  /\ p \in Params
  /\ h = <<>> /\ now = 0 /\ mark = p.init /\ last = -100
  /\ st = [r \in Reqs |-> "no"] /\ lock = "free" /\ sent = FALSE

Log(e) == h' = Append(h, e)
Usable == mark.id # 0 /\ (mark.exp = 0 \/ mark.exp - now > p.min)
Nobody(s) == lock = s

BeginReq(r) ==
  /\ st[r] = "no" /\ \A q \in Reqs : q < r => st[q] # "no"
  /\ st' = [st EXCEPT ![r] = "begun"]
  /\ Log([op |-> "req", t |-> now, r |-> r])
  /\ UNCHANGED <<p, now, mark, last, lock, sent>>

Ret(r, id) == Log([op |-> "ret", t |-> now, r |-> r, id |-> id])

(* looks at the mark; a renewal in the background begins at once if nobody renews yet *)
Look(r) ==
  /\ st[r] = "begun"
  /\ IF ~p.refresh THEN /\ Ret(r, mark.id) /\ st' = [st EXCEPT ![r] = "done"] /\ UNCHANGED <<lock>>
     ELSE IF Usable THEN
            /\ Ret(r, mark.id) /\ st' = [st EXCEPT ![r] = "done"]
            /\ lock' = IF mark.exp # 0 /\ mark.exp - now < p.grace /\ lock = "free" THEN "bg" ELSE lock
     ELSE /\ st' = [st EXCEPT ![r] = "waits"] /\ UNCHANGED <<lock, h>>
  /\ UNCHANGED <<p, now, mark, last, sent>>

Acquire(r) ==
  /\ st[r] = "waits" /\ lock = "free"
  /\ IF Usable THEN Ret(r, mark.id) /\ st' = [st EXCEPT ![r] = "done"] /\ lock' = lock
     ELSE lock' = ToString(r) /\ UNCHANGED <<h, st>>
  /\ UNCHANGED <<p, now, mark, last, sent>>

Finish(id) ==
  IF lock = "bg" THEN lock' = "free" /\ UNCHANGED <<st>>
  ELSE \E r \in Reqs : lock = ToString(r) /\ st' = [st EXCEPT ![r] = "done"] /\ lock' = "free"

(* whoever holds the lock contacts the issuer, unless that was less than a minute ago *)
Try ==
  /\ lock # "free" /\ ~sent
  /\ IF now - last < p.minute
     THEN /\ Finish(0)
          /\ IF lock = "bg" THEN h' = h ELSE \E r \in Reqs : lock = ToString(r) /\ Ret(r, 0)
          /\ UNCHANGED <<last, sent>>
     ELSE /\ last' = now /\ sent' = TRUE
          /\ Log([op |-> "contact", t |-> now])
          /\ UNCHANGED <<st, lock>>
  /\ UNCHANGED <<p, now, mark>>

Answer ==
  /\ sent /\ sent' = FALSE
  /\ \E m \in {None, [id |-> Len(h) + 10, exp |-> 0]} \cup {[id |-> Len(h) + 10, exp |-> now + l] : l \in Lives} :
       LET ok == m.id # 0 /\ (m.exp = 0 \/ m.exp - now > p.min)
           e == [op |-> "answer", t |-> now, id |-> m.id, exp |-> m.exp]
       IN /\ mark' = IF ok THEN m ELSE mark
          /\ Finish(0)
          /\ IF lock = "bg" THEN h' = Append(h, e)
             ELSE \E r \in Reqs : lock = ToString(r) /\ h' = h \o <<e, [op |-> "ret", t |-> now, r |-> r, id |-> IF ok THEN m.id ELSE 0]>>
  /\ UNCHANGED <<p, now, last>>

(* time only passes once everybody that can go on has *)
Quiet ==
  /\ \A r \in Reqs : st[r] # "begun" /\ (st[r] = "waits" => lock # "free")
  /\ lock # "free" => sent
Tick ==
  /\ now < MaxTime
  /\ Quiet
  /\ now' = now + 1
  /\ UNCHANGED <<p, h, mark, last, st, lock, sent>>

Next == (\E r \in Reqs : BeginReq(r) \/ Look(r) \/ Acquire(r)) \/ Try \/ Answer \/ Tick

AllRules == Quiet => \A i \in DOMAIN Rules : Holds(Rules[i], p, h) \/ Print(<<Rules[i], p, h>>, FALSE)
=============================================================================
