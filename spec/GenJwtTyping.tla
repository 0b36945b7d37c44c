---------------------------- MODULE GenJwtTyping ----------------------------
(***************************************************************************)
(* Writes all documents with up to two signatures: all types in protected   *)
(* and unprotected headers, all serializations.                             *)
(***************************************************************************)
EXTENDS JwtTyping, IOUtils, Json, TLC, SequencesExt

AllTypes == Purposes \cup {"no", "ro", "ca", "js", "er", "empty", "upper", "prefix", "space", "list"}
SomeTypes == Purposes \cup {"no", "ca"}
UTypes == Purposes \cup {"no"}
Keys == {"own", "other"}
Sig(p, u, k) == [prot |-> p, unprot |-> u, signer |-> k]
Doc(s, q) == [ser |-> s, sigs |-> q, from |-> "handmade"]

One == {Doc("compact", <<Sig(p, "no", k)>>) : p \in AllTypes, k \in Keys}
         \cup {Doc(s, <<Sig(p, u, k)>>) : s \in {"flat", "general"}, p \in AllTypes, u \in UTypes, k \in Keys}
Two == {Doc("general", <<Sig(p[1], p[2], "own"), Sig(q[1], q[2], k)>>) : p \in SomeTypes \X UTypes, q \in SomeTypes \X UTypes, k \in Keys}
Lib == {[ser |-> "compact", sigs |-> <<Sig(p, "no", "own")>>, from |-> "library"] : p \in Purposes \cup {"ro", "ca"}}

VARIABLE x
Init == x = 0
Next == UNCHANGED x
ASSUME LET S == SetToSeq(One \cup Two \cup {Doc("general", <<>>)} \cup Lib) IN
       ndJsonSerialize(IOEnv.OUT, S) /\ PrintT(<<"GENERATED", Len(S)>>)
=============================================================================
