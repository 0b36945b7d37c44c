--------------------------- MODULE MCAuthRequest -----------------------------
(***************************************************************************)
(* Clients send request objects and assertions to providers; what they send  *)
(* is also known to a thief, who sends it again, to anybody. The caller of   *)
(* a client chooses parameters, possibly the same ones as before, and tries  *)
(* to impersonate.                                                           *)
(* BUG=1: a client writes what it has added into the caller's parameters     *)
(* BUG=2: the caller's parameters come first                                 *)
(***************************************************************************)
EXTENDS AuthRequest, IOUtils

EnvInt(name, default) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE default
MaxTime == EnvInt("MAXTIME", 3)
MaxDocs == EnvInt("MAXDOCS", 3)
Bug == EnvInt("BUG", 0)

Parties == {[id |-> "A", key |-> "kA", alg |-> "ES256", life |-> 1], [id |-> "B", key |-> "kB", alg |-> "ES256", life |-> 1]}
KeysOf == [p \in {"A", "B"} |-> {"k" \o p}]
OPs == {"P", "Q"}
NameSeq == <<"client_id", "sub", "client_secret", "iss", "x">>
Names == {NameSeq[i] : i \in 1..EnvInt("NAMES", 3)}
Choices == {("aud" :> Str(o)) @@ [n \in N |-> Str("B")] : o \in OPs, N \in SUBSET Names}

VARIABLES now, params,   \* the caller's parameters
          docs,          \* what has been sent: [d, by, to]
          seen           \* by the providers
vars == <<now, params, docs, seen>>

Fresh == "j" \o ToString(Len(docs) + 1)
Made(p) == IF Bug = 2 THEN [RequestObject(p, params, now, Fresh) EXCEPT !.claims = params @@ @] ELSE RequestObject(p, params, now, Fresh)

Init == now = 0 /\ params \in Choices /\ docs = <<>> /\ seen = [o \in OPs |-> {}]
Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<params, docs, seen>>
Choose == /\ \E c \in Choices : c # params /\ params' = c
          /\ Len(docs) > 0 /\ UNCHANGED <<now, docs, seen>>
Deliver(d, op) == /\ IF ProviderAccepts(op, KeysOf, seen[op], d, now)
                     THEN seen' = [seen EXCEPT ![op] = @ \cup {d.jti}]
                     ELSE UNCHANGED seen
Audience(d) == CHOOSE o \in OPs : Str(o) = d.claims["aud"]
Send == /\ Len(docs) < MaxDocs
        /\ \E p \in Parties : \E d \in {Made(p), Assertion(p, "P", now, Fresh)} :
             /\ docs' = Append(docs, [d |-> d, by |-> p.id, ok |-> ProviderAccepts(Audience(d), KeysOf, seen[Audience(d)], d, now)])
             /\ Deliver(d, Audience(d))
             /\ params' = IF Bug = 1 /\ "client_id" \in DOMAIN d.claims THEN params @@ ("jti" :> d.jti) ELSE params
        /\ UNCHANGED now
Steal == \E i \in DOMAIN docs, op \in OPs : Deliver(docs[i].d, op) /\ UNCHANGED <<now, params, docs>>
Next == Tick \/ Choose \/ Send \/ Steal
Spec == Init /\ [][Next]_vars

(* what a client sends is accepted where it is sent to, the first time *)
Works == \A i \in DOMAIN docs : docs[i].ok
(* and never again, nowhere else, nor after its time *)
NoReplay == [][\A i \in DOMAIN docs : \A op \in OPs : ~(ProviderAccepts(op, KeysOf, seen[op], docs[i].d, now))]_vars
(* a client speaks only for itself *)
Authentic == \A i \in DOMAIN docs : docs[i].d.claims["iss"] = Str(docs[i].by) /\ docs[i].d.key = "k" \o docs[i].by
NoSecrets == \A i \in DOMAIN docs : "client_secret" \notin DOMAIN docs[i].d.claims
                                    /\ ("sub" \in DOMAIN docs[i].d.claims => docs[i].d.claims["sub"] = Str(docs[i].by))
Fresh1 == \A i, j \in DOMAIN docs : docs[i].d.jti = docs[j].d.jti => i = j
=============================================================================
