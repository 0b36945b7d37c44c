----------------------------- MODULE RemoteTrace -----------------------------
(***************************************************************************)
(* Validates histories of local and remote resolutions and collections. A    *)
(* record is [world, steps]; statements of the world also have resolveat and *)
(* collectat, the entities at which these endpoints are. A step has          *)
(*  kind : "local", "simple" (with the endpoint at e) or "smart"             *)
(*  how  : "resolve", "payload", "possible" or "collect"                     *)
(*  req  : sub, tas, types; for collections ta, hasTypes, types, query,      *)
(*         claims, conf (the configured anchors)                             *)
(*  ans, cans : what the endpoints answer at this time                       *)
(*  obs  : panic, err, nomd, md, chain, valid, invalid, res, and reqs, the   *)
(*         requests the endpoints got                                        *)
(***************************************************************************)
EXTENDS RemoteResolvers, Collection, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, k, n
vars == <<h, k, n>>

Fail(prop, i, what) == PrintT(<<"FAIL", prop, i, what>>)
Check(ok, prop, i, what) == IF ok THEN TRUE ELSE Fail(prop, i, what)

Endpoints == {"federation_fetch_endpoint", "federation_list_endpoint", "federation_resolve_endpoint", "federation_collection_endpoint"}
NormMD(md) == [t \in DOMAIN md |-> [c \in {x \in DOMAIN md[t] : x \notin Endpoints /\ Norm(SV(md[t][x])) # Absent} |-> Norm(SV(md[t][c]))]]
SameMD(a, b) == DOMAIN a = DOMAIN b /\ \A t \in DOMAIN a : DOMAIN a[t] = DOMAIN b[t] /\ \A c \in DOMAIN a[t] :
                  a[t][c] = b[t][c] \/ (c = "scope" /\ a[t][c].s = b[t][c].s)

(* local resolution *)
Req(r) == [start |-> r.sub, types |-> r.types, anchors |-> [j \in DOMAIN r.tas |-> [id |-> r.tas[j], pin |-> FALSE, keys |-> <<>>]]]
MetadataAlong(w, r, p) == Resolved(PolsOf(w, p), CritsOf(w, p), EC(w, p[1]).md, Range(r.types))
Good(w, r) == IF ~Known(w, r.sub) THEN {} ELSE {p \in ValidPaths(w, Req(r)) : ~MetadataAlong(w, r, p).err}
Best(w, r) == LET G == Good(w, r) IN {p \in G : \A q \in G : Len(p) <= Len(q)}

JudgeLocal(prop, i, w, s, o) ==
  LET B == Best(w, s.req) IN
  IF s.how = "possible"
  THEN Check(o.valid = (B # {}) /\ o.invalid = (B = {}), prop, i, <<"possible locally", k, o.valid, o.invalid, B>>)
  ELSE
  /\ Check(o.err = (B = {}), prop, i, <<"resolved locally", k, o.err, B>>)
  /\ Check((~o.err /\ B # {}) => \E p \in B : SameMD(NormMD(o.md), MetadataAlong(w, s.req, p).md) /\ (s.how = "payload" => o.chain = ChainOf(w, p)),
           prop, i, <<"not the metadata of a shortest chain", k, o.md, o.chain, B>>)

(* somebody said so *)
JudgeAnswer(i, s, a, o) ==
  IF s.how = "possible"
  THEN Check(o.valid = (Confirms(a) = "possible") /\ o.invalid = (Confirms(a) = "impossible"), "C18", i, <<"possible", k, a, o.valid, o.invalid>>)
  ELSE
  /\ Check(o.err = ~Positive(a), "C18", i, <<"remote answer", k, a, o.err>>)
  /\ Check((~o.err /\ a.kind = "ok") => SameMD(NormMD(o.md), NormMD(a.md)), "C18", i, <<"remote metadata", k, a, o.md>>)
  /\ Check((~o.err /\ a.kind = "nomd") => o.md = <<>>, "C18", i, <<"invented metadata", k, a, o.md>>)

RECURSIVE Collapse(_)
Collapse(q) == IF Len(q) <= 1 THEN q ELSE IF q[1] = q[2] THEN Collapse(Tail(q)) ELSE <<q[1]>> \o Collapse(Tail(q))

Having(w, list, f) == SelectSeq(list, LAMBDA a : HasEC(w, a) /\ "federation_entity" \in Range(EC(w, a).types) /\ EC(w, a)[f] # "")
At(w, list, f) == [j \in DOMAIN list |-> EC(w, list[j])[f]]

ReqIs(s, x) ==
  IF s.how = "collect"
  THEN /\ x.path = "collect" /\ x.tas = <<s.req.ta>> /\ x.types = (IF s.req.hasTypes THEN s.req.types ELSE <<>>)
       /\ x.query = s.req.query /\ x.claims = s.req.claims
  ELSE /\ x.path = "resolve" /\ x.sub = s.req.sub /\ x.tas = s.req.tas /\ x.types = s.req.types

(* everything that is to be said about a step in which the endpoints at the entities at should be asked *)
JudgeRequests(i, s, o, at) ==
  LET q == Collapse(o.reqs) IN
  /\ Check([j \in DOMAIN q |-> q[j].e] = at, "C18", i, <<"asked", k, q, at>>)
  /\ Check(\A j \in DOMAIN q : ReqIs(s, q[j]), "C18", i, <<"request", k, q>>)

JudgeCollected(i, w, s, o) ==
  LET ids == o.res
      listed == Listed(w, s.req.ta)
      may == {e \in listed : MayBeMember(w, e) /\ Matches(w, s.req, <<>>, e)}
      must == {e \in listed : IsMember(w, e) /\ Matches(w, s.req, <<>>, e)} IN
  Check(must \subseteq Range(ids) /\ Range(ids) \subseteq may, "C18", i, <<"collected", k, ids, may, must>>)

Key(how) == IF how = "payload" THEN "resolve" ELSE how

Judge(i, w, s) ==
  LET o == s.obs IN
  IF o.panic # "" THEN Fail("C18", i, <<"panic", s.kind, s.how, o.panic>>)
  ELSE IF s.kind = "local" THEN JudgeLocal("C17", i, w, s, o) /\ Check(o.reqs = <<>>, "C18", i, <<"asked", k, o.reqs>>)
  ELSE IF s.how = "collect"
  THEN LET having == IF s.kind = "simple" THEN <<s.e>> ELSE At(w, Having(w, CollectFrom(s.req.ta, s.req.conf), "collectat"), "collectat")
           d == Decider("collect", having, s.cans) IN
       /\ JudgeRequests(i, s, o, Collapse(Asked("collect", having, s.cans)))
       /\ IF d # "" THEN Check(o.res = s.cans[d].ids, "C18", i, <<"remote collection", k, o.res, s.cans[d].ids>>)
          ELSE IF s.kind = "simple" THEN Check(o.res = <<>>, "C18", i, <<"invented entities", k, o.res>>)
          ELSE JudgeCollected(i, w, s, o)
  ELSE LET having == IF s.kind = "simple" THEN <<s.e>> ELSE At(w, Having(w, s.req.tas, "resolveat"), "resolveat")
           d == Decider(Key(s.how), having, s.ans) IN
       /\ JudgeRequests(i, s, o, Collapse(Asked(Key(s.how), having, s.ans)))
       /\ IF s.kind = "simple" THEN JudgeAnswer(i, s, s.ans[s.e], o)
          ELSE IF d # "" THEN JudgeAnswer(i, s, s.ans[d], o)
          ELSE JudgeLocal("C18", i, w, s, o)

Init == h \in 1..Len(Trace) /\ k = 1 /\ n = 0
Next ==
  LET t == Trace[h] IN
  /\ h' = h
  /\ k <= Len(t.steps)
  /\ k' = k + 1
  /\ Judge(h, t.world, t.steps[k])
  /\ n' = n + (IF t.steps[k].obs.reqs # <<>> THEN 1 ELSE 0) + (IF t.steps[k].kind # "simple" /\ t.steps[k].obs.chain # <<>> THEN 100 ELSE 0)
  /\ IF k' > Len(t.steps) THEN PrintT(<<"INFO", h, n' % 100, n' \div 100>>) /\ PrintT(<<"DONE", h>>) ELSE TRUE
=============================================================================
