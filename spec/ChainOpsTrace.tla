--------------------------- MODULE ChainOpsTrace -----------------------------
(***************************************************************************)
(* Validates operations on lists of trust chains. A record is [stmts,        *)
(* chains, init, steps]: chains are sequences of numbers of statements, init *)
(* and all other lists are sequences of numbers of chains. A step filters or *)
(* sorts the list src = an earlier result (1 is init), or looks at all       *)
(* chains; obs.lists are all lists after it.                                 *)
(***************************************************************************)
EXTENDS ChainOps, IOUtils, Json, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, k, lists, moved
vars == <<h, k, lists, moved>>

Fail(prop, i, what) == PrintT(<<"FAIL", prop, i, what>>)
Check(ok, prop, i, what) == IF ok THEN TRUE ELSE Fail(prop, i, what)
Range(q) == {q[i] : i \in DOMAIN q}

Stmt(s) == [s EXCEPT !.contacts = Range(@), !.padd = Range(@)]
ChainsOf(t) == LET S == [i \in DOMAIN t.stmts |-> Stmt(t.stmts[i])] IN
  [c \in DOMAIN t.chains |-> [i \in DOMAIN t.chains[c] |-> S[t.chains[c][i]]]]

JudgeChain(i, s, c, n, o) ==
  LET m == MetadataOf(c) IN
  /\ Check(o.plen = Intermediates(c), "C17", i, <<"path length", n, o.plen>>)
  /\ Check(o.exp = Expiration(c), "C17", i, <<"expires", n, o.exp, Expiration(c)>>)
  /\ Check(o.err = m.err, "C07", i, <<"metadata", n, o, m>>)
  /\ Check((~o.err /\ ~m.err) => (o.name = m.name /\ Range(o.contacts) = m.contacts), "C07", i, <<"metadata", n, o, m>>)

(* the lists that may be seen afterwards *)
OldOnes(i, s, new) ==
  \A l \in DOMAIN lists :
     LET x == s.obs.lists[l] IN
     Check(x = lists[l] \/ (s.op = "sort" /\ SameElements(lists[l], new) /\ x = new), "C17", i, <<"another list changed", s.op, l, x, lists[l]>>)

Judge(i, t, C, s) ==
  IF s.obs.panic # "" THEN Fail("C17", i, <<"panic", s.op, s.obs.panic>>)
  ELSE CASE s.op = "look" -> /\ \A n \in DOMAIN C : JudgeChain(i, s, C[n], n, s.obs.chains[n])
                             /\ OldOnes(i, s, <<>>)
         [] s.op = "filter" ->
              LET new == s.obs.lists[Len(lists) + 1] IN
              /\ Check(new = KeptAll(s.fs, lists[s.src], C), "C17", i, <<"filter", s.fs, lists[s.src], new, KeptAll(s.fs, lists[s.src], C)>>)
              /\ OldOnes(i, s, new)
         [] s.op = "sort" ->
              LET new == s.obs.lists[Len(lists) + 1] IN
              /\ Check(SortOf(new, lists[s.src], s.score, s.desc, C), "C17", i, <<"sort", s.score, s.desc, lists[s.src], new>>)
              /\ OldOnes(i, s, new)

Init == h \in 1..Len(Trace) /\ k = 1 /\ lists = <<Trace[h].init>> /\ moved = 0
Next ==
  LET t == Trace[h] IN
  /\ h' = h
  /\ k <= Len(t.steps)
  /\ k' = k + 1
  /\ LET s == t.steps[k]
         C == ChainsOf(t) IN
     /\ Judge(h, t, C, s)
     /\ lists' = IF s.obs.panic # "" THEN lists ELSE s.obs.lists
     /\ moved' = moved + (IF s.op # "look" /\ s.obs.panic = "" /\ s.obs.lists[Len(s.obs.lists)] # lists[s.src] THEN 1 ELSE 0)
  /\ IF k' > Len(t.steps) THEN PrintT(<<"INFO", h, moved'>>) /\ PrintT(<<"DONE", h>>) ELSE TRUE
=============================================================================
