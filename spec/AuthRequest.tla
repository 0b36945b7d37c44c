---------------------------- MODULE AuthRequest ------------------------------
(***************************************************************************)
(* What a relying party sends to a provider: request objects, client         *)
(* assertions, authorization URLs and token requests.                        *)
(*                                                                          *)
(* A party is [id, key, alg, life]. Parameters and claims are functions from *)
(* names to JSON texts, queries and forms from names to sequences of texts.  *)
(* A document is [typ, key, alg, iat, exp, jti, claims]; claims are all      *)
(* other claims.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Str(s) == "\"" \o s \o "\""
Only(f, names) == [n \in (DOMAIN f) \cap names |-> f[n]]
Without(f, names) == [n \in (DOMAIN f) \ names |-> f[n]]
Header == {"iat", "exp", "jti"}

(* params: chosen by the caller. Whatever they are, the client and the times *)
(* are those of the party, there is no subject and no secret; the identifier *)
(* is new unless the caller has chosen one.                                  *)
RequestObject(party, params, now, fresh) ==
  [typ |-> "", key |-> party.key, alg |-> party.alg, iat |-> now, exp |-> now + party.life,
   jti |-> IF "jti" \in DOMAIN params THEN params["jti"] ELSE fresh,
   claims |-> ("iss" :> Str(party.id)) @@ ("client_id" :> Str(party.id)) @@ Without(params, {"sub", "client_secret"} \cup Header)]
CanRequest(params) == "aud" \in DOMAIN params

Assertion(party, aud, now, fresh) ==
  [typ |-> "", key |-> party.key, alg |-> party.alg, iat |-> now, exp |-> now + party.life, jti |-> fresh,
   claims |-> ("iss" :> Str(party.id)) @@ ("sub" :> Str(party.id)) @@ ("aud" :> Str(aud))]

(* the parameters of a request object that belongs to an authorization URL *)
AuthParams(params, issuer, redirect, state, scope) ==
  ("aud" :> Str(issuer)) @@ ("redirect_uri" :> Str(redirect)) @@ ("state" :> Str(state)) @@ ("response_type" :> Str("code")) @@ ("scope" :> Str(scope))
    @@ params
(* endpoint: the query of the authorization endpoint *)
AuthQuery(endpoint, party, redirect, scope, requestObject) ==
  ("request" :> <<requestObject>>) @@ ("client_id" :> <<party.id>>) @@ ("response_type" :> <<"code">>) @@ ("redirect_uri" :> <<redirect>>)
    @@ ("scope" :> <<scope>>) @@ endpoint
TokenForm(params, party, code, redirect, assertion) ==
  ("grant_type" :> <<"authorization_code">>) @@ ("code" :> <<code>>) @@ ("redirect_uri" :> <<redirect>>) @@ ("client_id" :> <<party.id>>)
    @@ ("client_assertion_type" :> <<"urn:ietf:params:oauth:client-assertion-type:jwt-bearer">>) @@ ("client_assertion" :> <<assertion>>) @@ params

(* The provider: keysOf is a function from clients to the keys they have *)
ProviderAccepts(op, keysOf, seen, d, now) ==
  /\ "aud" \in DOMAIN d.claims /\ d.claims["aud"] = Str(op)
  /\ \E c \in DOMAIN keysOf : d.claims["iss"] = Str(c) /\ d.key \in keysOf[c]
                               /\ ("client_id" \in DOMAIN d.claims => d.claims["client_id"] = Str(c))
                               /\ ("sub" \in DOMAIN d.claims => d.claims["sub"] = Str(c) /\ "client_id" \notin DOMAIN d.claims)
  /\ d.iat <= now /\ now <= d.exp
  /\ d.jti \notin seen
=============================================================================
