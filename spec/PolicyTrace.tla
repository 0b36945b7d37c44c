---------------------------- MODULE PolicyTrace ----------------------------
(***************************************************************************)
(* Validates recorded metadata resolutions against the rules of Policy.     *)
(* A record has md, pols (sequence, from the immediate superior to the      *)
(* anchor), crits, types (to which some of the resolutions were limited),   *)
(* and obs, what was observed:                                              *)
(*   full, limited : sequences of results of resolving metadata without and *)
(*                   with the limit, alternating, sharing the caches        *)
(*   direct        : results of applying the combined policy twice          *)
(*   merged, rev   : the combined policies, in both orders                  *)
(*   chains        : number of valid chains                                 *)
(*   changed       : inputs that were modified                              *)
(***************************************************************************)
EXTENDS Policy, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, phase
vars == <<h, phase>>

Fail(prop, i, what) == PrintT(<<"FAIL", prop, i, what>>)
Check(ok, prop, i, what) == IF ok THEN TRUE ELSE Fail(prop, i, what)

NormMD(md) == [t \in DOMAIN md |-> [c \in {x \in DOMAIN md[t] : Norm(SV(md[t][x])) # Absent} |-> Norm(SV(md[t][c]))]]
SameMD(a, b) == DOMAIN a = DOMAIN b /\ \A t \in DOMAIN a : DOMAIN a[t] = DOMAIN b[t] /\ \A c \in DOMAIN a[t] :
                  a[t][c] = b[t][c] \/ (c = "scope" /\ a[t][c].s = b[t][c].s)
ObsIs(o, exp) == o.err = exp.err /\ (~exp.err => SameMD(NormMD(o.md), exp.md))

(* the combined policy: unknown operators are left open *)
NonEmpty(C) == [t \in {x \in DOMAIN C : DOMAIN C[x] # {}} |-> C[t]]
SameEntry(e, o) == LET k == KnownPart(o) IN
  /\ DOMAIN e = DOMAIN k
  /\ \A op \in DOMAIN e : e[op].s = k[op].s
MergeIs(o, ps) ==
  /\ o.err = CombinedErr(ps)
  /\ ~o.err => LET C == NonEmpty(Combined(ps)) D == NonEmpty(o.p) IN
       /\ DOMAIN C = DOMAIN D
       /\ \A t \in DOMAIN C : DOMAIN C[t] = DOMAIN D[t] /\ \A c \in DOMAIN C[t] : SameEntry(C[t][c].e, D[t][c])

(* every superior accepts the result *)
Accepted(o, ps, md) ==
  \A i \in DOMAIN ps : \A t \in DOMAIN ps[i] \cap DOMAIN md : \A c \in DOMAIN ps[i][t] :
     LET e == KnownPart(ps[i][t][c])
         raw == IF Has(o.md, t) /\ Has(o.md[t], c) THEN SV(o.md[t][c]) ELSE Absent
         r == [k |-> raw.k, s |-> raw.s] IN
     /\ Has(e, "value") => Norm(r).s = Norm(e["value"]).s
     /\ Has(e, "add") => e["add"].s \subseteq r.s
     /\ Has(e, "one_of") => Norm(r) = Absent \/ r.s \subseteq e["one_of"].s
     /\ Has(e, "subset_of") => r.s \subseteq e["subset_of"].s
     /\ Has(e, "superset_of") => Norm(r) = Absent \/ e["superset_of"].s \subseteq r.s

Confirmed(err) == IF err THEN "impossible" ELSE "possible"

Judge(i) ==
  LET t == Trace[i]
      full == Resolved(t.pols, t.crits, t.md, {})
      limited == Resolved(t.pols, t.crits, t.md, Rng(t.types))
      panics == {x \in {t.obs.panic} \cup {t.obs.full[j].panic : j \in DOMAIN t.obs.full} \cup {t.obs.limited[j].panic : j \in DOMAIN t.obs.limited} : x # ""}
      nocrit == ~CritErr(t.crits)
      direct == Resolved(t.pols, <<>>, t.md, {})
      first == t.obs.full[1]
  IN IF panics # {} THEN Fail("C07", i, panics) /\ Fail("C06", i, panics)
     ELSE
     /\ Check(ObsIs(first, full), "C07", i, <<"resolved metadata", first.err, full>>)
     /\ Check((t.obs.chains > 0) <=> ~full.err, "C07", i, "number of valid chains")
     /\ Check(\A j \in DOMAIN t.obs.full : t.obs.full[j].possible = Confirmed(full.err), "C07", i, "asked whether it can be resolved")
     /\ Check(\A j \in DOMAIN t.obs.limited : t.obs.limited[j].possible = Confirmed(limited.err), "C22", i,
              "asked whether it can be resolved with the limit")
     /\ Check(t.obs.trusted = 1, "C05", i, "trust chain missing")
     /\ Check(MergeIs(t.obs.merged, t.pols), "C08", i, <<"combined policy", t.obs.merged.err>>)
     /\ Check(MergeIs(t.obs.rev, t.pols), "C08", i, <<"policies combined in reverse order", t.obs.rev.err>>)
     /\ Check(first.err \/ Accepted(first, t.pols, t.md), "C08", i, "a superior does not accept the resolved metadata")
     \* repeated, with limited resolutions in between
     /\ Check(\A j \in DOMAIN t.obs.full : t.obs.full[j].err = first.err /\ SameMD(NormMD(t.obs.full[j].md), NormMD(first.md)),
              "C21", i, "repeated resolution differs")
     /\ Check(t.obs.direct = <<>> \/ ObsIs(t.obs.direct[1], direct), "C07", i, <<"policy applied to metadata", direct>>)
     /\ Check(\A j \in DOMAIN t.obs.direct : t.obs.direct[j].err = t.obs.direct[1].err
                                            /\ SameMD(NormMD(t.obs.direct[j].md), NormMD(t.obs.direct[1].md)), "C21", i, "repeated application differs")
     /\ Check(t.obs.changed = <<>>, "C21", i, t.obs.changed)
     /\ Check(ObsIs(first, full) => \A j \in DOMAIN t.obs.limited : ObsIs(t.obs.limited[j], limited), "C22", i, <<"limited resolution", limited>>)
     /\ Check(ObsIs(first, full) => \A j \in DOMAIN t.obs.full : ObsIs(t.obs.full[j], full), "C22", i, "later unlimited resolution")
     /\ PrintT(<<"INFO", i, IF full.err THEN 1 ELSE 0, IF CombinedErr(t.pols) THEN 1 ELSE 0>>)

Init == h \in 1..Len(Trace) /\ phase = "recorded"
Next ==
  /\ phase = "recorded"
  /\ phase' = "validated"
  /\ UNCHANGED h
  /\ Judge(h)
  /\ PrintT(<<"DONE", h>>)
=============================================================================
