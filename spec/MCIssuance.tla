----------------------------- MODULE MCIssuance -----------------------------
(***************************************************************************)
(* Histories of an owner and an issuer of trust marks: they are configured, *)
(* issue delegations and trust marks, with and without a lifetime of their  *)
(* own, while time passes. Every document is accepted from when it is       *)
(* issued until the end of its own lifetime, whatever happens before and    *)
(* after.                                                                   *)
(* STICKY=1: a lifetime demanded for one document stays configured (a       *)
(* mistake, to see that it is noticed).                                     *)
(***************************************************************************)
EXTENDS Issuance, IOUtils

EnvInt(name, default) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE default
MaxTime == EnvInt("MAXTIME", 4)
MaxDocs == EnvInt("MAXDOCS", 3)
Sticky == EnvInt("STICKY", 0) = 1

Lives == {0, 1, 3}
Over == {<<>>} \cup {<<l>> : l \in Lives}
Spec0(l) == [type |-> "t", life |-> l, ref |-> "", logo |-> "", extra |-> <<>>, inInfo |-> FALSE]

VARIABLES now, mcfg, dcfg, docs, asked
vars == <<now, mcfg, dcfg, docs, asked>>

Init == /\ now = 0 /\ docs = <<>> /\ asked = <<>>
        /\ mcfg \in {Spec0(l) : l \in Lives} /\ dcfg \in {Spec0(l) : l \in Lives}

Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<mcfg, dcfg, docs, asked>>
Configure == /\ \E l \in Lives : mcfg' = Spec0(l) /\ mcfg # mcfg'
             /\ UNCHANGED <<now, dcfg, docs, asked>>
Delegate == /\ Len(docs) < MaxDocs
            /\ \E o \in Over : /\ docs' = Append(docs, Delegation(dcfg, "O", "kO", "I", o, now))
                               /\ asked' = Append(asked, Life(dcfg.life, o))
                               /\ dcfg' = IF Sticky /\ o # <<>> THEN Spec0(o[1]) ELSE dcfg
            /\ UNCHANGED <<now, mcfg>>
Delegations == {docs[i] : i \in {j \in DOMAIN docs : docs[j].kind = "td"}}
Issue == /\ Len(docs) < MaxDocs
         /\ \E o \in Over, d \in Delegations \cup {None} :
              /\ docs' = Append(docs, Mark(mcfg, "I", "kI", "s", o, now, "", d))
              /\ asked' = Append(asked, Life(mcfg.life, o))
              /\ mcfg' = IF Sticky /\ o # <<>> THEN Spec0(o[1]) ELSE mcfg
         /\ UNCHANGED <<now, dcfg>>
Next == Tick \/ Configure \/ Delegate \/ Issue
Spec == Init /\ [][Next]_vars

Keys == {"kI", "kO"}
Lifetimes == \A i \in DOMAIN docs :
  LET d == docs[i] IN
  Accepted(d, Keys, now) <=> (now >= d.iat /\ (asked[i] = 0 \/ now - d.iat <= asked[i]))
(* a trust mark with a delegation is accepted exactly while both are *)
Both == \A i \in DOMAIN docs :
  LET d == docs[i] IN
  d.kind = "tm" => (AcceptedWithOwner(d, {"kI"}, "O", {"kO"}, now) <=> (d.delegation # None /\ InTime(d, now) /\ InTime(d.delegation, now)))
(* nobody else's keys *)
Foreign == \A i \in DOMAIN docs : ~Accepted(docs[i], {"evil"}, now)
(* what has been issued stays as it is, and is not accepted again once it is not accepted any more *)
Lasting == [][\A i \in DOMAIN docs : docs'[i] = docs[i] /\ (InTime(docs[i], now') => InTime(docs[i], now))]_vars
(* the configured lifetime only changes by configuring *)
Configured == [][(Len(docs') > Len(docs)) => (mcfg' = mcfg /\ dcfg' = dcfg)]_vars
=============================================================================
