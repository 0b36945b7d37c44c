----------------------------- MODULE GenResolver -----------------------------
(* writes the systematic family of worlds for replay against the implementation *)
EXTENDS ResolverWorlds
VARIABLE x
Init == x = 0
Next == UNCHANGED x
ASSUME LET S == SetToSeq(NoDefect \cup OneDefect \cup Pairs(PairEvery, PairOff)) IN
       /\ ndJsonSerialize(IOEnv.OUT, S)
       /\ PrintT(<<"GENERATED", Len(S)>>)
=============================================================================
