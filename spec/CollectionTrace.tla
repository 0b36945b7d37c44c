--------------------------- MODULE CollectionTrace ---------------------------
(***************************************************************************)
(* Validates recorded collections. A record is [world, letters, lists,       *)
(* steps]; world.now is that of the first step. lists are the changes of     *)
(* what is listed, [at, e, list], in order; a listing might be remembered    *)
(* for an hour. A step is [at, coll, req, claims, hasClaims, runs], the      *)
(* runs (sequences of collected entities, or a panic) took place at once;    *)
(* one might have taken place within another. A run says for which anchor.   *)
(***************************************************************************)
EXTENDS Collection, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, k
vars == <<h, k>>

Fail(prop, i, what) == PrintT(<<"FAIL", prop, i, what>>)
Check(ok, prop, i, what) == IF ok THEN TRUE ELSE Fail(prop, i, what)

Remembered == 3600

(* what a might list at a time: what it listed at some time within the last hour *)
Versions(t, a) == <<[at |-> -1000000, list |-> t.world.ents[a].list]>> \o
                  SelectSeq(t.lists, LAMBDA l : l.e = a)
ListsAt(t, a, at) ==
  LET V == Versions(t, a) IN
  {Range(V[j].list) : j \in {x \in DOMAIN V : V[x].at <= at /\ (x = Len(V) \/ V[x + 1].at >= at - Remembered)}}

Owner(w, a) == IF HasList(w, a) /\ Known(w, EC(w, a).listat) THEN EC(w, a).listat ELSE ""
Answers(w, a) == Owner(w, a) # "" /\ w.ents[Owner(w, a)].listresp = "ok"
SurelyListed(t, w, ta, at) ==
  ClosureBy(w, [a \in {x \in DOMAIN w.ents : Answers(w, x) /\ IsMember(w, x)} |->
                   LET L == ListsAt(t, Owner(w, a), at) IN {e \in UNION L : \A l \in L : e \in l}], {}, {ta})
MaybeListed(t, w, ta, at) ==
  ClosureBy(w, [a \in {x \in DOMAIN w.ents : Answers(w, x)} |-> UNION ListsAt(t, Owner(w, a), at)], {}, {ta})

Ids(run) == [j \in DOMAIN run.res |-> run.res[j].e]

JudgeRun(i, t, w, s, run) ==
  LET asked == [s.req EXCEPT !.ta = run.ta]
      req == IF s.coll = "op" THEN [asked EXCEPT !.hasTypes = TRUE, !.types = <<"openid_provider">>] ELSE asked
      filters == CASE s.coll \in {"simple", "op"} -> <<>>
                   [] s.coll = "verified" -> <<[kind |-> "chains", vals |-> <<>>, anchors |-> ByID(req.ta)]>>
                   [] OTHER -> <<[kind |-> "chains", vals |-> <<>>, anchors |-> ByID(req.ta)]>> \o req.filters
      ids == Ids(run)
      maylist == MaybeListed(t, w, req.ta, s.at)
      mustlist == SurelyListed(t, w, req.ta, s.at)
      may == {e \in maylist : MayBeMember(w, e) /\ Matches(w, req, t.letters, e)}
      must == {e \in mustlist : IsMember(w, e) /\ Matches(w, req, t.letters, e)}
      accepted == {e \in may : \A j \in DOMAIN filters : MayAccept(w, e, filters[j])}
      required == {e \in must : \A j \in DOMAIN filters : MustAccept(w, e, filters[j])}
      base == IF filters = <<>> THEN "C15" ELSE "C16"
      claimed(c) == ~s.hasClaims \/ c \in Range(s.claims)
  IN
  IF run.panic # "" THEN Fail("C15", i, run.panic) /\ Fail("C16", i, run.panic)
  ELSE
  /\ Check(\A j, l \in DOMAIN ids : ids[j] = ids[l] => j = l, "C15", i, <<"collected twice", s.at, ids>>)
  /\ Check(Range(ids) \subseteq maylist, "C15", i, <<"not listed", s.at, Range(ids) \ maylist>>)
  /\ Check(Range(ids) \cap maylist \subseteq may, "C15", i, <<"does not match", s.at, (Range(ids) \cap maylist) \ may>>)
  /\ Check(Range(ids) \cap may \subseteq accepted, "C16", i, <<"is not acceptable", s.at, s.coll, (Range(ids) \cap may) \ accepted>>)
  /\ Check(required \subseteq Range(ids), base, i, <<"is missing", s.at, s.coll, required \ Range(ids)>>)
  /\ \A j \in DOMAIN run.res :
       LET r == run.res[j] IN
       (Known(w, r.e) /\ HasEC(w, r.e) /\ ECIdentityOK(w, r.e)) =>
          LET md == EC(w, r.e).md
              \* a chain is only resolved if it is asked for
              chains == IF s.hasClaims /\ "trust_chain" \in Range(s.claims) THEN ChainOfPaths(w, BestPaths(w, r.e, ByID(req.ta))) ELSE {}
          IN
          /\ Check(Range(r.types) = (IF claimed("entity_types") THEN Range(EC(w, r.e).types) ELSE {}), "C16", i,
                   <<"entity types", s.at, r.e, r.types>>)
          /\ Check([ty \in DOMAIN r.ui |-> [c \in DOMAIN r.ui[ty] |-> Norm(SV(r.ui[ty][c]))]]
                     = InfosOf(md, {c \in InfoClaims : claimed(c)}), "C16", i, <<"infos", s.at, r.e, r.ui>>)
          /\ Check(IF chains = {} THEN r.chain = <<>> ELSE r.chain \in chains, "C16", i, <<"trust chain", s.at, r.e, r.chain>>)

JudgeStep(i, t, s) ==
  LET w == [t.world EXCEPT !.now = s.at] IN
  /\ \A r \in DOMAIN s.runs : JudgeRun(i, t, w, s, s.runs[r])
  /\ Check(\A r \in DOMAIN s.runs : \A q \in DOMAIN s.runs :
             (s.runs[r].panic = "" /\ s.runs[q].panic = "" /\ s.runs[r].ta = s.runs[q].ta /\ t.lists = <<>>) => Range(Ids(s.runs[r])) = Range(Ids(s.runs[q])),
           "C21", i, <<"concurrent collections differ", s.at>>)
  /\ Check(s.changed = <<>>, "C21", i, s.changed)

Init == h \in 1..Len(Trace) /\ k = 0
Next ==
  /\ k <= Len(Trace[h].steps)
  /\ k' = k + 1
  /\ h' = h
  /\ IF k < Len(Trace[h].steps) THEN JudgeStep(h, Trace[h], Trace[h].steps[k + 1])
     ELSE /\ PrintT(<<"INFO", h, Cardinality(UNION {UNION {Range(Ids(Trace[h].steps[l].runs[r])) : r \in DOMAIN Trace[h].steps[l].runs}
                                                     : l \in DOMAIN Trace[h].steps})>>)
          /\ PrintT(<<"DONE", h>>)
=============================================================================
