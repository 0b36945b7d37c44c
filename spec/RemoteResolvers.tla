-------------------------- MODULE RemoteResolvers ----------------------------
(***************************************************************************)
(* Asking others to resolve or to collect.                                   *)
(*                                                                          *)
(* An answer of a resolve endpoint is a record [kind, code, md]: kind is     *)
(*  "ok" / "nomd" : a resolve response with / without metadata,              *)
(*  "error"       : an error response with the given error code,             *)
(*  anything else : nothing that can be understood (unreachable, an error    *)
(*                  without explanation, garbage, a JWT of another type,     *)
(*                  claims of the wrong type, an error pretending success).  *)
(* An answer of a collection endpoint is [kind, ids]; kind is "ok" or        *)
(* something else.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Positive(a) == a.kind \in {"ok", "nomd"}
Confirms(a) == IF Positive(a) THEN "possible"
               ELSE IF a.kind # "error" THEN "nothing"
               ELSE CASE a.code = "invalid_metadata" -> "possible"       \* there is a valid trust chain
                      [] a.code = "invalid_trust_chain" -> "impossible"
                      [] OTHER -> "nothing"

(* how: "resolve" (metadata wanted), "possible" (only whether it can be resolved), or "collect" *)
Decides(how, a) ==
  CASE how = "resolve" -> Positive(a)
    [] how = "possible" -> Confirms(a) # "nothing"
    [] how = "collect" -> a.kind = "ok"

(* The entities of which the endpoints have to be asked, in this order, out of those that have one *)
RECURSIVE Asked(_, _, _)
Asked(how, having, answers) ==
  IF having = <<>> THEN <<>>
  ELSE IF Decides(how, answers[Head(having)]) THEN <<Head(having)>>
  ELSE <<Head(having)>> \o Asked(how, Tail(having), answers)

(* who decides; "" if nobody does *)
Decider(how, having, answers) ==
  LET q == Asked(how, having, answers) IN
  IF q = <<>> \/ ~Decides(how, answers[q[Len(q)]]) THEN "" ELSE q[Len(q)]

(* the anchors of a collection: that of the request first *)
CollectFrom(ta, configured) == <<ta>> \o SelectSeq(configured, LAMBDA x : x # ta)
=============================================================================
