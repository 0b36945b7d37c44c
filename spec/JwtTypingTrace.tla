--------------------------- MODULE JwtTypingTrace ---------------------------
(* Validates for what purposes documents are taken by the entry points of the library. *)
EXTENDS JwtTyping, IOUtils, Json, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, k

Fail(prop, i, what) == PrintT(<<"FAIL", prop, i, what>>)
Check(cond, prop, i, what) == IF cond THEN TRUE ELSE Fail(prop, i, what)

Judge(i, d, u) ==
  /\ Check(u.panic = "", "C06", i, <<"panic", u.use, u.panic>>)
  /\ Check(u.acc => MayAccept(u.purpose, d), "C20", i, <<"accepted", u.use, d>>)
  /\ Check(MustAccept(u.purpose, d) => u.acc, "C20", i, <<"not accepted", u.use, d>>)
  /\ Check((u.acc /\ u.ver) => (Verifies({"own"}, d) /\ Vouched({"own"}, u.purpose, d)), "C20", i, <<"verified", u.use, d>>)
  /\ Check((MustAccept(u.purpose, d) /\ d.sigs[1].signer = "own" /\ u.verifies) => u.ver, "C13", i, <<"not verified", u.use, d>>)

Init == h \in 1..Len(Trace) /\ k = 0
Next ==
  /\ k = 0 /\ k' = 1 /\ h' = h
  /\ LET t == Trace[h] IN
     /\ \A j \in DOMAIN t.uses : Judge(h, t.doc, t.uses[j])
     /\ PrintT(<<"INFO", h, Cardinality({j \in DOMAIN t.uses : t.uses[j].acc})>>)
     /\ PrintT(<<"DONE", h>>)
=============================================================================
