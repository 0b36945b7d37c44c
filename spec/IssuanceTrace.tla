--------------------------- MODULE IssuanceTrace ----------------------------
(***************************************************************************)
(* Validates histories of issuing and verifying. Steps (field op):          *)
(*  addmark/adddeleg spec      (re)configures the issuer / the owner        *)
(*  types                      the types the issuer says it can issue       *)
(*  mark/deleg type, sub, over issues a trust mark / a delegation           *)
(*  ec / es / rr c, sub, life  issues an entity configuration, a statement  *)
(*                             about sub, a resolve response                *)
(*  check doc, how, keys       verifies a document                          *)
(*  chain ec, es, ta           resolves a trust chain                       *)
(* Times are in half seconds.                                               *)
(***************************************************************************)
EXTENDS Issuance, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, k,
          marks, delegs,  \* configurations: from types to specifications
          docs            \* what should have been issued
vars == <<h, k, marks, delegs, docs>>

Fail(prop, i, what) == PrintT(<<"FAIL", prop, i, what>>)
Check(ok, prop, i, what) == IF ok THEN TRUE ELSE Fail(prop, i, what)

DefaultLife == 2 * 86400
Doc(n) == IF n = 0 THEN None ELSE docs[n]
DocName(n) == IF n = 0 THEN "" ELSE "doc:" \o ToString(n)
SpecsOf(q) == [t \in {q[i].type : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i].type = t /\ \A j \in DOMAIN q : j > i => q[j].type # t]]

(* the document which has to be issued in a step, or None if the request has to be refused *)
ToIssue(t, s) ==
  CASE s.op = "mark" ->
         IF s.type \in DOMAIN marks
         THEN Mark(marks[s.type], t.issuer, "issuer", s.sub, s.over, s.t, DocName(marks[s.type].delegation), Doc(marks[s.type].delegation))
         ELSE None
    [] s.op = "deleg" -> IF s.type \in DOMAIN delegs THEN Delegation(delegs[s.type], t.owner, "owner", s.sub, s.over, s.t) ELSE None
    [] s.op = "ec" -> Statement("ec", s.c, s.iss, s.key, s.iss, s.t, s.t + ConfLife(s.life, DefaultLife))
    [] s.op = "es" -> Statement("es", s.c, s.iss, s.key, s.sub, s.t, s.t + s.life)
    [] s.op = "rr" -> Statement("rr", s.c, s.iss, s.key, s.sub, s.t, s.t + s.life)

Issues(s) == s.op \in {"mark", "deleg", "ec", "es", "rr"}

JudgeIssued(i, t, s, d) ==
  LET o == s.obs IN
  IF d = None THEN Check(o.err # "", "C13", i, <<"issued although not configured", s.t, s.op>>)
  ELSE IF o.err # "" THEN Fail("C13", i, <<"not issued", s.op, o.err>>)
  ELSE
  /\ Check(o.typ = d.typ, "C13", i, <<"type", s.op, o.typ>>)
  /\ Check(o.iat = d.iat, "C13", i, <<"issued at", s.op, s.t, o.iat>>)
  /\ Check(o.exp = d.exp, "C13", i, <<"expires at", s.op, s.t, o.exp, d.exp>>)
  /\ Check(o.claims = d.claims, "C13", i, <<"claims", s.op, o.claims, d.claims>>)
  /\ Check(s.op = "mark" => o.info = InfoClaims(marks[s.type], DocName(Len(docs) + 1)), "C13", i, <<"trust mark object", o.info>>)

Keys(s, right) == IF s.keys = "right" THEN {right} ELSE {"nobody"}

ShouldAccept(t, s) ==
  LET d == docs[s.doc] IN
  CASE s.how \in {"external", "info", "federation"} -> Accepted(d, Keys(s, d.key), s.t)
    [] s.how \in {"owner", "fedowner"} -> AcceptedWithOwner(d, Keys(s, d.key), t.owner, {"owner"}, s.t)
    [] s.how = "otherowner" -> AcceptedWithOwner(d, Keys(s, d.key), "@nobody", {"owner"}, s.t)
    [] s.how = "ownerkeys" -> AcceptedWithOwner(d, Keys(s, d.key), t.owner, {"nobody"}, s.t)
    [] s.how = "parse" -> TRUE

JudgeCheck(i, t, s) ==
  LET want == ShouldAccept(t, s) IN
  /\ Check(s.obs.ok = want, "C13", i, <<"verification of", docs[s.doc].kind, s.how, s.keys, "at", s.t, "should be", want, docs[s.doc].iat, docs[s.doc].exp>>)
  /\ Check(s.obs.ok => want, "C12", i, <<"verification", s.how>>)

Step(i, t, s) ==
  IF s.obs.panic # "" THEN Fail("C06", i, <<"panic", s.op, s.obs.panic>>) /\ UNCHANGED <<marks, delegs, docs>>
  ELSE
  CASE s.op = "addmark" -> marks' = (s.spec.type :> s.spec) @@ marks /\ UNCHANGED <<delegs, docs>>
    [] s.op = "adddeleg" -> delegs' = (s.spec.type :> s.spec) @@ delegs /\ UNCHANGED <<marks, docs>>
    [] s.op = "types" -> /\ Check({s.obs.types[j] : j \in DOMAIN s.obs.types} = DOMAIN marks /\ Len(s.obs.types) = Cardinality(DOMAIN marks),
                                  "C13", i, <<"types", s.obs.types>>)
                         /\ UNCHANGED <<marks, delegs, docs>>
    [] Issues(s) -> LET d == ToIssue(t, s) IN
                    /\ JudgeIssued(i, t, s, d)
                    /\ docs' = IF d = None THEN docs ELSE Append(docs, d)
                    /\ UNCHANGED <<marks, delegs>>
    [] s.op = "check" -> JudgeCheck(i, t, s) /\ UNCHANGED <<marks, delegs, docs>>
    [] s.op = "chain" -> /\ Check(s.obs.ok = AcceptedChain(docs[s.ec], docs[s.es], docs[s.ta], s.t), "C13", i,
                                  <<"chain", s.t, s.obs.ok, docs[s.ec].exp, docs[s.es].exp, docs[s.ta].exp>>)
                         /\ UNCHANGED <<marks, delegs, docs>>

Init == /\ h \in 1..Len(Trace) /\ k = 0
        /\ marks = SpecsOf(Trace[h].marks) /\ delegs = SpecsOf(Trace[h].delegs) /\ docs = <<>>
Next ==
  /\ k <= Len(Trace[h].steps)
  /\ k' = k + 1
  /\ h' = h
  /\ IF k < Len(Trace[h].steps) THEN Step(h, Trace[h], Trace[h].steps[k + 1])
     ELSE /\ UNCHANGED <<marks, delegs, docs>>
          /\ PrintT(<<"INFO", h, Len(docs),
                      Cardinality({j \in DOMAIN Trace[h].steps : Trace[h].steps[j].op \in {"check", "chain"} /\ Trace[h].steps[j].obs.ok}),
                      Cardinality({j \in DOMAIN Trace[h].steps : Trace[h].steps[j].op \in {"check", "chain"} /\ ~Trace[h].steps[j].obs.ok})>>)
          /\ PrintT(<<"DONE", h>>)
=============================================================================
