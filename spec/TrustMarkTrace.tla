--------------------------- MODULE TrustMarkTrace ---------------------------
(***************************************************************************)
(* What was observed when verifying, resolving and collecting trust marks:  *)
(* a record is [world, ta, items, ext, steps]; items are all marks that are *)
(* published or otherwise known, [e, info, mark]; e: the entity publishing  *)
(* it. ext[j]: the keys and owners with which items[j] is verified directly *)
(***************************************************************************)
EXTENDS TrustMarks, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, k
vars == <<h, k>>

Fail(prop, i, what) == PrintT(<<"FAIL", prop, i, what>>)
Check(ok, prop, i, what) == IF ok THEN TRUE ELSE Fail(prop, i, what)

At(w, now) == [w EXCEPT !.now = now]

(* positions of the items that pass a test, in order *)
Positions(items, ok) == SelectSeq([j \in DOMAIN items |-> j], LAMBDA j : ok[j])
Wrong(a, b) == {j \in DOMAIN a : a[j] # b[j]}

Req(e, ta) == [start |-> e, types |-> <<>>, anchors |-> <<[id |-> ta, pin |-> FALSE, keys |-> <<>>]>>]

JudgeStep(i, t, s) ==
  LET w == At(t.world, s.now)
      items == t.items
      N == DOMAIN items
  IN
  IF s.panic # "" THEN Fail("C06", i, s.panic)
  ELSE IF ~HasEC(w, t.ta) THEN Check(s.fed = <<>>, "C11", i, "no anchor")
  ELSE
  LET ta == EC(w, t.ta)
      bare == [j \in N |-> Accepted(w, ta, items[j].mark)]
      fed == [j \in N |-> items[j].info = items[j].mark.type /\ bare[j]]
      ext == [j \in N |-> /\ items[j].info = items[j].mark.type
                          /\ AcceptedWithKeys(s.now, t.ext[j].keys, t.ext[j].owners, items[j].mark)]
      reported(e) == Positions(items, [j \in N |-> items[j].e = e /\ items[j].mark.sub = e /\ fed[j]])
      (* the first mark an entity announces for a type *)
      announced(e, ty) == {j \in N : items[j].e = e /\ items[j].info = ty}
      First(S) == CHOOSE j \in S : \A l \in S : j <= l
      hasMark(e, ty) == \E j \in announced(e, ty) : j \in Range(reported(e))
      firstFits(e, ty) == announced(e, ty) # {} /\ First(announced(e, ty)) \in Range(reported(e))
  IN
  /\ Check(s.fed = fed, "C11", i, <<"VerifyFederation", s.now, Wrong(fed, s.fed)>>)
  /\ Check(s.bare = bare, "C11", i, <<"TrustMark.VerifyFederation", s.now, Wrong(bare, s.bare)>>)
  /\ Check(s.list = Positions(items, fed), "C11", i, <<"VerifiedFederation", s.now, s.list>>)
  /\ Check(s.ext = ext, "C11", i, <<"VerifyExternal", s.now, Wrong(ext, s.ext)>>)
  /\ Check(s.extlist = Positions(items, ext), "C11", i, <<"VerifiedExternal", s.now, s.extlist>>)
  /\ \A j \in DOMAIN s.resolved :
       LET r == s.resolved[j] IN
       /\ Check(r.ok <=> ValidChainsWithMetadata(w, Req(r.e, t.ta)) # {}, "C05", i, <<"resolvable", s.now, r.e>>)
       /\ Check(r.ok => r.marks = reported(r.e), "C12", i, <<"resolve response", s.now, r.e, r.marks, reported(r.e)>>)
  /\ \A j \in DOMAIN s.collected :
       LET c == s.collected[j]
           base == Range(s.base)
           ids == {c.res[l].e : l \in DOMAIN c.res}
           want(e) == \A l \in DOMAIN c.types : firstFits(e, c.types[l])
           may(e) == \A l \in DOMAIN c.types : hasMark(e, c.types[l])
       IN
       /\ Check(\A e \in ids : may(e), "C12", i, <<"filter accepts", s.now, c.types, {e \in ids : ~may(e)}>>)
       /\ Check({e \in base : want(e)} \subseteq ids /\ ids \subseteq base, "C12", i, <<"filter rejects", s.now, c.types, base \ ids>>)
       /\ Check({e \in base : want(e)} \subseteq ids, "C15", i, <<"matching entities are missing", s.now, c.types, base \ ids>>)
       /\ Check(ids \subseteq base, "C15", i, <<"collected, but not listed", s.now, c.types, ids \ base>>)
       /\ Check(Cardinality(ids) = Len(c.res), "C15", i, <<"collected twice", s.now, c.types>>)
       /\ \A l \in DOMAIN c.res :
            Check(c.res[l].marks = (IF c.claimed THEN reported(c.res[l].e) ELSE <<>>), "C12", i,
                  <<"collected", s.now, c.res[l].e, c.res[l].marks, reported(c.res[l].e)>>)

Init == h \in 1..Len(Trace) /\ k = 0
Next ==
  /\ k <= Len(Trace[h].steps)
  /\ k' = k + 1
  /\ h' = h
  /\ IF k < Len(Trace[h].steps) THEN JudgeStep(h, Trace[h], Trace[h].steps[k + 1])
     ELSE /\ PrintT(<<"INFO", h, Cardinality({j \in DOMAIN Trace[h].items : \E l \in DOMAIN Trace[h].steps :
                        Trace[h].steps[l].fed # <<>> /\ Trace[h].steps[l].fed[j]})>>)
          /\ PrintT(<<"DONE", h>>)
=============================================================================
