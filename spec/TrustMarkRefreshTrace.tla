----------------------- MODULE TrustMarkRefreshTrace -----------------------
(***************************************************************************)
(* Judges recorded histories of requests for own trust marks. A record has  *)
(* p (parameters) and obs: ev (the events), bad (requests to the issuer     *)
(* that do not ask for the configured mark), panic                          *)
(***************************************************************************)
EXTENDS TrustMarkRefresh, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h
vars == <<h>>
Init == h = 0

Fail(prop, i, what) == PrintT(<<"FAIL", prop, i, what>>)
Check(ok, prop, i, what) == IF ok THEN TRUE ELSE Fail(prop, i, what)

Judge(i) ==
  LET t == Trace[i] o == t.obs IN
  IF o.panic # "" THEN Fail("C14", i, o.panic)
  ELSE
  /\ \A j \in DOMAIN Rules : Check(Holds(Rules[j], t.p, o.ev), "C14", i, Rules[j])
  /\ Check(o.bad = <<>>, "C14", i, <<"asked for something else", o.bad>>)
  /\ PrintT(<<"INFO", i, Cardinality(Contacts(o.ev)), Len(Obtained(t.p, o.ev))>>)

Next ==
  /\ h < Len(Trace)
  /\ h' = h + 1
  /\ Judge(h')
  /\ PrintT(<<"DONE", h'>>)
=============================================================================
