----------------------------- MODULE Collection -----------------------------
(***************************************************************************)
(* Collecting the entities of a federation, starting at a trust anchor.     *)
(*                                                                          *)
(* In addition to what module Federation says, an entity statement has      *)
(*   listat : the entity at whose list endpoint its subordinates are        *)
(*            listed, or ""                                                 *)
(*   md     : the metadata it publishes (types is the sequence of its types)*)
(*   mpol   : its metadata policies                                         *)
(*   crit   : names of critical policy operators                            *)
(* both as in module Policy; and an entity has                              *)
(*   listresp : what its list endpoint answers                              *)
(*   list     : the entities it lists                                       *)
(* A collection request is a record                                         *)
(*   ta, hasTypes, types, query (a sequence of letters, empty: none),       *)
(*   filters : a sequence of [kind, vals, anchors], kind is "chains" (valid *)
(*     chain to one of the anchors), "grants", "scopes", "automatic",       *)
(*     "explicit" or "ops"                                                  *)
(***************************************************************************)
EXTENDS Federation, Policy

----------------------------------------------------------------------------
(* The listed entities. Lists(w, a) are the subordinates a lists; an entity  *)
(* that does not publish a usable configuration lists nobody.                *)

HasList(w, a) ==
  /\ HasEC(w, a)
  /\ "federation_entity" \in Range(EC(w, a).types)
  /\ EC(w, a).listat # ""
ListOf(w, a) ==
  IF ~HasList(w, a) THEN {}
  ELSE LET o == EC(w, a).listat IN
       IF Known(w, o) /\ w.ents[o].listresp = "ok" THEN Range(w.ents[o].list) ELSE {}

(* Next(a): what is listed by a; all that is listed directly or indirectly *)
RECURSIVE Closure(_, _, _)
Closure(w, done, todo) ==
  IF todo = {} THEN {}
  ELSE LET new == UNION {ListOf(w, a) : a \in todo}
           done2 == done \cup todo
       IN new \cup Closure(w, done2, new \ done2)
Listed(w, ta) == Closure(w, {}, {ta})

(* lists of which the content is not known for sure: some of them might be taken from a cache *)
RECURSIVE ClosureBy(_, _, _, _)
ClosureBy(w, lists, done, todo) ==
  IF todo = {} THEN {}
  ELSE LET new == UNION {IF a \in DOMAIN lists /\ HasList(w, a) THEN lists[a] ELSE {} : a \in todo}
           done2 == done \cup todo
       IN new \cup ClosureBy(w, lists, done2, new \ done2)

----------------------------------------------------------------------------
(* matching *)

Lower == [A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f", N |-> "n", O |-> "o", P |-> "p", R |-> "r", S |-> "s"]
Low(c) == IF c \in DOMAIN Lower THEN Lower[c] ELSE c

(* q can be obtained from n by leaving out letters *)
RECURSIVE SubSequence(_, _)
SubSequence(q, n) ==
  IF q = <<>> THEN TRUE
  ELSE IF n = <<>> THEN FALSE
  ELSE IF Low(Head(q)) = Low(Head(n)) THEN SubSequence(Tail(q), Tail(n)) ELSE SubSequence(q, Tail(n))

KnownTypes == {"openid_provider", "openid_relying_party", "oauth_authorization_server", "oauth_client", "oauth_resource", "federation_entity"}

(* the name of an entity for one of its types *)
FallbackName(t) ==
  IF t \in {"openid_relying_party", "oauth_client"} THEN "client_name"
  ELSE IF t = "oauth_resource" THEN "resource_name" ELSE "organization_name"
DisplayName(md, t) ==
  IF Norm(ValueOf(md, t, "display_name")) # Absent THEN ValueOf(md, t, "display_name") ELSE ValueOf(md, t, FallbackName(t))
(* letters of the names that are used: names.json gives them, as TLC does not take strings apart *)
NamesOf(md, letters) ==
  {letters[a] : a \in {x \in UNION {DisplayName(md, t).s : t \in DOMAIN md \cap KnownTypes} : x \in DOMAIN letters}}

Matches(w, req, letters, e) ==
  /\ req.hasTypes => Range(EC(w, e).types) \cap Range(req.types) # {}
  /\ req.query # <<>> => \E n \in NamesOf(EC(w, e).md, letters) : SubSequence(req.query, n)

(* members whose own statement might be used, and those whose statement must be *)
MayBeMember(w, e) == HasEC(w, e)
IsMember(w, e) == HasEC(w, e) /\ EC(w, e).sig = "ok" /\ ECIdentityOK(w, e) /\ EC(w, e).types # <<>>

----------------------------------------------------------------------------
(* metadata along a path: the policies of all superiors *)

PolsOf(w, path) == [k \in 1..(Len(path) - 1) |-> Sub(w, path[k + 1], path[k]).mpol]
CritsOf(w, path) == [k \in 1..(Len(path) - 1) |-> Sub(w, path[k + 1], path[k]).crit]
PathMetadata(w, path) == Resolved(PolsOf(w, path), CritsOf(w, path), EC(w, path[1]).md, {})

AnchorReq(e, anchors) == [start |-> e, types |-> <<>>, anchors |-> anchors]
ByID(id) == <<[id |-> id, pin |-> FALSE, keys |-> <<>>]>>

GoodPaths(w, e, anchors) ==
  IF ~Known(w, e) THEN {}
  ELSE {p \in ValidPaths(w, AnchorReq(e, anchors)) : ~PathMetadata(w, p).err}

(* metadata is resolved with a shortest chain that yields metadata *)
BestPaths(w, e, anchors) ==
  LET G == GoodPaths(w, e, anchors) IN {p \in G : \A q \in G : Len(p) <= Len(q)}

Attr(md, c) == IF "openid_provider" \in DOMAIN md /\ Has(md["openid_provider"], c) THEN md["openid_provider"][c].s ELSE {}

FilterAccepts(md, f) ==
  /\ "openid_provider" \in DOMAIN md
  /\ CASE f.kind = "grants" -> Range(f.vals) \subseteq Attr(md, "grant_types_supported")
       [] f.kind = "scopes" -> Range(f.vals) \subseteq Attr(md, "scopes_supported")
       [] f.kind = "automatic" -> "s:automatic" \in Attr(md, "client_registration_types_supported")
       [] f.kind = "explicit" -> "s:explicit" \in Attr(md, "client_registration_types_supported")

(* with the anchor ids of the filter *)
MustAccept(w, e, f) ==
  CASE f.kind = "chains" -> GoodPaths(w, e, f.anchors) # {}
    [] f.kind = "ops" -> "openid_provider" \in Range(EC(w, e).types)
    [] OTHER -> LET B == BestPaths(w, e, f.anchors) IN B # {} /\ \A p \in B : FilterAccepts(PathMetadata(w, p).md, f)
MayAccept(w, e, f) ==
  CASE f.kind = "chains" -> GoodPaths(w, e, f.anchors) # {}
    [] f.kind = "ops" -> "openid_provider" \in Range(EC(w, e).types)
    [] OTHER -> \E p \in BestPaths(w, e, f.anchors) : FilterAccepts(PathMetadata(w, p).md, f)

----------------------------------------------------------------------------
(* what is said about a collected entity *)

StringInfos == {"description", "logo_uri", "policy_uri", "information_uri"}
InfoClaims == StringInfos \cup {"keywords", "display_name"}

InfoOf(md, t, c) == Norm(IF c = "display_name" THEN DisplayName(md, t) ELSE ValueOf(md, t, c))
(* the infos of an entity: a function from its types to functions from claims to values *)
InfosOf(md, claims) ==
  LET T == {t \in DOMAIN md \cap KnownTypes : \E c \in claims : InfoOf(md, t, c) # Absent} IN
  [t \in T |-> [c \in {x \in claims : InfoOf(md, t, x) # Absent} |-> InfoOf(md, t, c)]]

ChainOfPaths(w, P) == {ChainOf(w, p) : p \in P}

=============================================================================
