------------------------------ MODULE GenPolicy ------------------------------
(***************************************************************************)
(* Writes sequences of policy entries with a value: all single entries with *)
(* up to MaxOps operators, and a sample of pairs and triples of those.      *)
(***************************************************************************)
EXTENDS MCPolicy, Json, SequencesExt

Every == EnvInt("EVERY", 1000)
Off == EnvInt("OFF", 0)

ToV(x) == [k |-> x.k, v |-> SetToSeq(x.s)]
ToE(e) == [op \in DOMAIN e |-> ToV(e[op])]
ToEs(q) == [i \in DOMAIN q |-> ToE(q[i])]
Case(k, q, v) == [kind |-> k, es |-> ToEs(q), val |-> ToV(v)]

LE == SetToSeq(ListEntries)
SE == SetToSeq(ScalarEntries)
LV == SetToSeq(ListVals \cup {Absent})
SVs == SetToSeq({One(a) : a \in A} \cup {Absent})

Single(k, E, V) == {Case(k, <<E[i]>>, V[j]) : i \in DOMAIN E, j \in DOMAIN V}
PairsOf(k, E, V, n) ==
  {Case(k, <<E[x[1]], E[x[2]]>>, V[1 + ((x[1] * 31 + x[2] * 17 + Off) % Len(V))]) :
     x \in {y \in (DOMAIN E) \X (DOMAIN E) : (y[1] * 7919 + y[2] * 104729 + Off) % n = 0}}
TriplesOf(k, E, V, n) ==
  {Case(k, <<E[x[1]], E[x[2]], E[x[3]]>>, V[1 + ((x[1] * 31 + x[2] * 17 + x[3] * 7 + Off) % Len(V))]) :
     x \in {<<y[1], y[2], 1 + ((y[1] * 13 + y[2] * 101 + Off) % Len(E))>> :
              y \in {z \in (DOMAIN E) \X (DOMAIN E) : (z[1] * 104729 + z[2] * 7919 + Off) % n = 0}}}

GenNext == UNCHANGED vars

ASSUME LET S == SetToSeq(Single("list", LE, LV) \cup Single("scalar", SE, SVs)
                         \cup PairsOf("list", LE, LV, Every) \cup PairsOf("scalar", SE, SVs, 1 + (Every \div 8))
                         \cup TriplesOf("list", LE, LV, 2 * Every) \cup TriplesOf("scalar", SE, SVs, 1 + (Every \div 4))) IN
       /\ ndJsonSerialize(IOEnv.OUT, S)
       /\ PrintT(<<"GENERATED", Len(S), Len(LE), Len(SE)>>)
=============================================================================
