------------------------- MODULE MCRemoteResolvers ---------------------------
(***************************************************************************)
(* A smart resolver or collector at work: it looks at one trust anchor after *)
(* the other; configurations, endpoints and answers are arbitrary. The       *)
(* machine agrees with what RemoteResolvers says, asks nobody twice and      *)
(* nobody after a decision, and its result is what somebody said or the      *)
(* local result. BUG=1: it lets the last answer count, whatever it is; BUG=2:*)
(* an answer that is not understood confirms that resolving is impossible.   *)
(***************************************************************************)
EXTENDS RemoteResolvers, IOUtils, TLC

EnvInt(n, d) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE d
N == EnvInt("ANCHORS", 3)
Bug == EnvInt("BUG", 0)
Names == <<"A", "B", "C", "D">>
Anchors == {Names[i] : i \in 1..N}
A(k, c) == [kind |-> k, code |-> c]
Answers == {A("ok", ""), A("nomd", ""), A("garbage", ""), A("down", ""), A("error", "invalid_metadata"), A("error", "invalid_trust_chain"),
            A("error", "invalid_subject"), A("error", "server_error")}
Hows == {"resolve", "possible", "collect"}

VARIABLES how, todo, state,   \* of the machine
          has,                \* which anchors turned out to have an endpoint
          answers, asked, result
vars == <<how, todo, state, has, answers, asked, result>>

Init == /\ how \in Hows /\ todo \in {q \in [1..N -> Anchors] : \A i, j \in 1..N : q[i] = q[j] => i = j}
        /\ state = "look" /\ has = <<>> /\ answers = [a \in {} |-> 0] /\ asked = <<>> /\ result = "none"

Look == /\ state = "look" /\ todo # <<>>
        /\ \/ state' = "look" /\ todo' = Tail(todo) /\ UNCHANGED has        \* no configuration or no endpoint
           \/ state' = "ask" /\ has' = Append(has, Head(todo)) /\ UNCHANGED todo
        /\ UNCHANGED <<how, answers, asked, result>>
Ask == /\ state = "ask"
       /\ \E x \in Answers :
            LET a == Head(todo)
                c == IF Bug = 2 /\ Confirms(x) = "nothing" THEN "impossible" ELSE Confirms(x)
                decides == CASE how = "resolve" -> Positive(x) [] how = "possible" -> c # "nothing" [] how = "collect" -> x.kind = "ok" IN
            /\ answers' = [b \in DOMAIN answers \cup {a} |-> IF b = a THEN x ELSE answers[b]]
            /\ asked' = Append(asked, a)
            /\ IF decides \/ (Bug = 1 /\ Len(todo) = 1)
               THEN state' = "done" /\ result' = (IF how = "possible" THEN c ELSE a) /\ UNCHANGED todo
               ELSE state' = "look" /\ todo' = Tail(todo) /\ UNCHANGED result
       /\ UNCHANGED <<how, has>>
Local == /\ state = "look" /\ todo = <<>>
         /\ state' = "done" /\ result' = "local"
         /\ UNCHANGED <<how, todo, has, answers, asked>>
Next == Look \/ Ask \/ Local
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == state = "done"
Agrees == Done => /\ asked = Asked(how, has, answers)
                  /\ result = "local" <=> Decider(how, has, answers) = ""
NoInvention == (Done /\ result # "local") =>
   IF how = "possible" THEN \E a \in DOMAIN answers : Confirms(answers[a]) = result
   ELSE Decides(how, answers[result])
OnceEach == \A i, j \in DOMAIN asked : asked[i] = asked[j] => i = j
LocalOnlyIfUndecided == (Done /\ result = "local") => \A a \in DOMAIN answers : ~Decides(how, answers[a])
Terminates == <>Done
=============================================================================
