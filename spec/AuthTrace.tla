------------------------------ MODULE AuthTrace ------------------------------
(***************************************************************************)
(* Validates histories of what relying parties send. A record is             *)
(*  world   : a federation with static content                               *)
(*  parties : Seq of [id, key, alg, life, leaf, anchors], key and alg being  *)
(*            those with which requests are signed                           *)
(*  urls    : from texts of endpoints to [base, query]                       *)
(*  steps   : at time t party p does (op)                                    *)
(*    "ro"   a request object with params (Seq of [n, v]; isnil: none)       *)
(*    "ca"   a client assertion for aud                                      *)
(*    "burst" n of both at the same time                                     *)
(*    "opmd" resolves the metadata of provider e                             *)
(*    "url"  an authorization URL for provider e (redirect, state, scope,    *)
(*           params)                                                         *)
(*    "code" exchanges a code (e, code, redirect, vals); the token endpoint  *)
(*           answers with ans                                                *)
(***************************************************************************)
EXTENDS AuthRequest, Collection, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, k,
          jtis   \* identifiers used so far
vars == <<h, k, jtis>>

Fail(prop, i, what) == PrintT(<<"FAIL", prop, i, what>>)
Check(ok, prop, i, what) == IF ok THEN TRUE ELSE Fail(prop, i, what)

RECURSIVE Pairs(_)
Pairs(q) == IF q = <<>> THEN <<>> ELSE (q[1].n :> q[1].v) @@ Pairs(Tail(q))

NormMD(md) == [t \in DOMAIN md |-> [c \in {x \in DOMAIN md[t] : Norm(SV(md[t][x])) # Absent} |-> Norm(SV(md[t][c]))]]

----------------------------------------------------------------------------
(* provider metadata *)
OPReq(party, e) == [start |-> e, types |-> <<"openid_provider">>, anchors |-> party.anchors]
Along(w, r, p) == Resolved(PolsOf(w, p), CritsOf(w, p), EC(w, p[1]).md, {"openid_provider"})
Good(w, r) == IF ~Known(w, r.start) THEN {} ELSE {p \in ValidPaths(w, r) : ~Along(w, r, p).err}
Best(w, r) == LET G == Good(w, r) IN {p \in G : \A q \in G : Len(p) <= Len(q)}
(* the possible metadata of the provider; claims are normalised *)
OPs(w, party, e) ==
  LET r == OPReq(party, e) IN
  {Along(w, r, p).md : p \in Best(w, r)}
IsOP(md) == "openid_provider" \in DOMAIN md
(* the entry of a claim in the table of urls, or NoURL *)
NoURL == [text |-> "", base |-> "", query |-> <<>>]
URL(t, md, c) ==
  IF ~IsOP(md) \/ c \notin DOMAIN md["openid_provider"] THEN NoURL
  ELSE LET v == md["openid_provider"][c] IN IF v.s = {} THEN NoURL ELSE LET a == CHOOSE x \in v.s : TRUE IN IF a = "s:" THEN NoURL ELSE t.urls[a]
Pinned(party) == \E j \in DOMAIN party.anchors : party.anchors[j].pin

----------------------------------------------------------------------------
(* d: an observed document; x: how it has to be *)
IsDocument(i, what, d, x, used) ==
  /\ Check(d.keys = <<x.key>> /\ d.alg = x.alg, "C19", i, <<what, "signature", k, d.keys, d.alg>>)
  /\ Check(d.iat = x.iat /\ d.exp = x.exp, "C19", i, <<what, "validity", k, d.iat, d.exp, x.iat, x.exp>>)
  /\ Check(d.claims = x.claims, "C19", i, <<what, "claims", k, d.claims, x.claims>>)
  /\ IF x.jti # "fresh" THEN Check(d.jti = x.jti, "C19", i, <<what, "identifier", k, d.jti, x.jti>>)
     ELSE Check(d.jti \notin used /\ d.jti # "" /\ d.jti # Str(""), "C19", i, <<what, "identifier is not new", k, d.jti>>)

Docs(s) == IF "docs" \in DOMAIN s.obs THEN s.obs.docs ELSE <<>>
JTIs(q) == {q[j].jti : j \in DOMAIN q}

JudgeRequest(i, party, s, o, used) ==
  LET p == Pairs(s.params) IN
  IF s.isnil \/ ~CanRequest(p) THEN Check(o.err, "C19", i, <<"request object without provider", k>>)
  ELSE IF o.err \/ o.docs = <<>> THEN Fail("C19", i, <<"no request object", k>>)
  ELSE IsDocument(i, "request object", o.docs[1], RequestObject(party, p, s.t, "fresh"), used)

JudgeAssertion(i, party, s, o, used) ==
  IF o.err \/ o.docs = <<>> THEN Fail("C19", i, <<"no assertion", k>>)
  ELSE IsDocument(i, "assertion", o.docs[1], Assertion(party, s.aud, s.t, "fresh"), used)

JudgeBurst(i, party, s, o, used) ==
  /\ Check(Len(o.docs) = 2 * s.n, "C19", i, <<"missing documents", k, Len(o.docs), s.n>>)
  /\ Check(Cardinality(JTIs(o.docs)) = Len(o.docs), "C19", i, <<"identifiers are not distinct", k>>)
  /\ \A j \in DOMAIN o.docs :
       IsDocument(i, "burst", o.docs[j], IF j <= s.n THEN RequestObject(party, Pairs(s.params), s.t, "fresh") ELSE Assertion(party, s.aud, s.t, "fresh"), used)

(* acceptance of provider metadata *)
JudgeAccepted(i, M, party, s, o, may) ==
  /\ Check(o.err => FALSE \in may, "C19", i, <<"provider refused", k, s.op, s.e>>)
  /\ Check(~o.err => TRUE \in may, "C19", i, <<"provider accepted", k, s.op, s.e>>)
  /\ Check((~o.err /\ Pinned(party)) => M # {}, "C23", i, <<"provider accepted", k, s.op, s.e>>)

JudgeMetadata(i, w, party, s, o) ==
  LET M == OPs(w, party, s.e) IN
  /\ JudgeAccepted(i, M, party, s, o, IF M = {} THEN {FALSE} ELSE {IsOP(m) : m \in M})
  /\ Check(~o.err => M = {} \/ \E m \in M : IsOP(m) /\ NormMD(o.md)["openid_provider"] = m["openid_provider"], "C19", i, <<"provider metadata", k, o.md, M>>)

Single(v) == IF Len(v) = 1 THEN v[1] ELSE ""

JudgeURL(i, t, w, party, s, o, used) ==
  LET M == OPs(w, party, s.e)
      usable == {m \in M : URL(t, m, "authorization_endpoint") # NoURL /\ URL(t, m, "issuer") # NoURL}
      fits(m) == /\ o.base = URL(t, m, "authorization_endpoint").base
                 /\ o.query = AuthQuery(URL(t, m, "authorization_endpoint").query, party, s.redirect, s.scope, "<request>")
                 /\ Len(o.docs) = 1 /\ "aud" \in DOMAIN o.docs[1].claims /\ o.docs[1].claims["aud"] = Str(URL(t, m, "issuer").text) IN
  /\ JudgeAccepted(i, M, party, s, o, (IF usable = {} THEN {} ELSE {TRUE}) \cup (IF M = {} \/ usable # M THEN {FALSE} ELSE {}))
  /\ IF o.err \/ usable = {} THEN TRUE ELSE
     LET m == IF \E x \in usable : fits(x) THEN CHOOSE x \in usable : fits(x) ELSE CHOOSE x \in usable : TRUE
         u == URL(t, m, "authorization_endpoint") IN
     /\ Check(Len(o.docs) = 1, "C19", i, <<"request object", k>>)
     /\ Check(o.base = u.base, "C19", i, <<"authorization endpoint", k, o.base, u>>)
     /\ Check(o.query = AuthQuery(u.query, party, s.redirect, s.scope, "<request>"), "C19", i, <<"query", k, o.query, u>>)
     /\ IF o.docs = <<>> THEN TRUE ELSE IsDocument(i, "authorization request", o.docs[1],
                   RequestObject(party, AuthParams(Pairs(s.params), URL(t, m, "issuer").text, s.redirect, s.state, s.scope), s.t, "fresh"), used)

JudgeCode(i, t, w, party, s, o, used) ==
  LET M == OPs(w, party, s.e)
      usable == {m \in M : URL(t, m, "token_endpoint") # NoURL}
      asked == o.base # ""
      fits(m) == o.base = URL(t, m, "token_endpoint").base /\ o.query = URL(t, m, "token_endpoint").query IN
  /\ Check(asked => usable # {}, "C19", i, <<"code sent to an untrusted provider", k, o.base>>)
  /\ Check((asked /\ Pinned(party)) => M # {}, "C23", i, <<"code sent to an untrusted provider", k, o.base>>)
  /\ Check(~asked => o.err /\ (M = {} \/ usable # M), "C19", i, <<"code not exchanged", k, o>>)
  /\ IF ~asked \/ usable = {} THEN TRUE ELSE
     LET m == IF \E x \in usable : fits(x) THEN CHOOSE x \in usable : fits(x) ELSE CHOOSE x \in usable : TRUE
         u == URL(t, m, "token_endpoint") IN
     /\ Check(o.base = u.base /\ o.query = u.query /\ o.requests = 1, "C19", i, <<"token endpoint", k, o.base, u, o.requests>>)
     /\ Check(o.form = TokenForm(Pairs(s.vals), party, s.code, s.redirect, "<assertion>"), "C19", i, <<"form", k, o.form>>)
     /\ IF o.docs = <<>> THEN Fail("C19", i, <<"no assertion", k>>) ELSE IsDocument(i, "assertion", o.docs[1], Assertion(party, u.text, s.t, "fresh"), used)
     /\ Check(CASE s.ans = "token" -> ~o.err /\ o.tokerr = "" /\ o.access = "at"
                [] s.ans = "error" -> ~o.err /\ o.tokerr = "invalid_grant" /\ o.access = ""
                [] OTHER -> o.err, "C19", i, <<"token response", k, s.ans, o.err, o.tokerr, o.access>>)

Judge(i, t, s, used) ==
  LET o == s.obs
      w == [t.world EXCEPT !.now = s.t]
      party == t.parties[s.p] IN
  IF o.panic # "" THEN Fail("C19", i, <<"panic", k, s.op, o.panic>>)
  ELSE CASE s.op = "ro" -> JudgeRequest(i, party, s, o, used)
         [] s.op = "ca" -> JudgeAssertion(i, party, s, o, used)
         [] s.op = "burst" -> JudgeBurst(i, party, s, o, used)
         [] s.op = "opmd" -> JudgeMetadata(i, w, party, s, o)
         [] s.op = "url" -> JudgeURL(i, t, w, party, s, o, used)
         [] s.op = "code" -> JudgeCode(i, t, w, party, s, o, used)

Init == h \in 1..Len(Trace) /\ k = 1 /\ jtis = {}
Next ==
  LET t == Trace[h]
      s == t.steps[k] IN
  /\ h' = h
  /\ k <= Len(t.steps)
  /\ k' = k + 1
  /\ Judge(h, t, s, jtis)
  /\ jtis' = jtis \cup JTIs(Docs(s))
  /\ IF k' > Len(t.steps) THEN PrintT(<<"INFO", h, Cardinality(jtis'), 0>>) /\ PrintT(<<"DONE", h>>) ELSE TRUE
=============================================================================
