----------------------------- MODULE Documents -----------------------------
(***************************************************************************)
(* What a document says, and what may happen to it when it is read, stored, *)
(* signed, and written again.                                               *)
(*                                                                          *)
(* A document is a function from paths to JSON texts: for each member of an *)
(* object, at any depth, the path to it, with the canonical text of its     *)
(* value; the text of an object is "{}", its members have their own paths.  *)
(* Arrays are values as a whole.                                            *)
(*                                                                          *)
(* The law: reading a document and writing it again is the identity on what *)
(* it says. A claim that is null says nothing. What the library may leave   *)
(* out is listed in MayVanish, what it may add in MayAppear, and nothing    *)
(* else ever changes.                                                       *)
(***************************************************************************)
EXTENDS DocumentClaims, Naturals, Sequences, FiniteSets, SequencesExt

Null == "null"
EmptyText == "\"\""
Empties == {EmptyText, "[]", "{}"}
\* what a field of a programming language holds that was never set
Zeros == Empties \cup {"0", "false", Null}

ListKinds == {"strs", "infos", "jwts"}
MapKinds == {"owners", "issuers", "uiinfos"}
EntityTypes == {"federation_entity", "openid_relying_party", "openid_provider", "oauth_authorization_server", "oauth_client", "oauth_resource"}

KnownNames(type) == {Claims[type][j].n : j \in 1..Len(Claims[type])}
KindOf(type, n) == Claims[type][CHOOSE j \in 1..Len(Claims[type]) : Claims[type][j].n = n].k

\* The type of object that the members at a path belong to; a path is a sequence of names
RECURSIVE TypeAt(_, _)
TypeAt(type, path) ==
  IF path = <<>> THEN type
  ELSE LET up == TypeAt(type, SubSeq(path, 1, Len(path) - 1))
           n == path[Len(path)] IN
       IF up = "uiinfos" THEN "ui_info"
       ELSE IF up = "owners" THEN "owner"
       ELSE IF up \notin DOMAIN Claims THEN "any"
       ELSE IF n \notin KnownNames(up) THEN "any"
       ELSE CASE KindOf(up, n) = "entity" -> n
              [] KindOf(up, n) = "policies" -> "metadata_policy"
              [] OTHER -> KindOf(up, n)

\* Claims that are well known where they appear
Defined(type, path) ==
  /\ path # <<>>
  /\ LET up == TypeAt(type, SubSeq(path, 1, Len(path) - 1)) IN up \in DOMAIN Claims /\ path[Len(path)] \in KnownNames(up)
KindAt(type, path) == KindOf(TypeAt(type, SubSeq(path, 1, Len(path) - 1)), path[Len(path)])
Owner(type, path) == TypeAt(type, SubSeq(path, 1, Len(path) - 1))

(* A set of keys without keys is like none.                                   *)
NoKeys(type, doc, p) ==
  LET q == IF p # <<>> /\ p[Len(p)] = "keys" THEN SubSeq(p, 1, Len(p) - 1) ELSE p
      keys == q \o <<"keys">> IN
  /\ Defined(type, q)
  /\ KindAt(type, q) = "jwks"
  /\ keys \in DOMAIN doc /\ doc[keys] = "[]"
  /\ \A r \in DOMAIN doc : IsPrefix(q, r) => r \in {q, keys}

(* A claim that is null is like one that is not there; but in a policy, or in *)
(* a claim that only others understand, null may mean something.              *)
SaysOf(type, doc) == {p \in DOMAIN doc : (doc[p] # Null \/ ~Defined(type, p)) /\ ~NoKeys(type, doc, p)}

(* A value that can be left out without changing what the document says:     *)
(* an empty string of a claim that the library knows; and, outside of metadata    *)
(* and constraints, where an empty list is a statement of its own, empty     *)
(* lists and maps.                                                           *)
MayVanish(type, path, v) ==
  /\ Defined(type, path)
  /\ \/ v = EmptyText
     \/ /\ v \in Empties
        /\ Owner(type, path) \notin EntityTypes \cup {"constraints", "naming", "metadata"}
        /\ KindAt(type, path) \in ListKinds \cup MapKinds

(* The settings of a trust mark are always written in full. *)
MayAppear(type, path, v) == type = "spec" /\ Defined(type, path) /\ v \in Zeros

(* Anything unknown in the specification of constraints and of owners is      *)
(* ignored by the library.                                                    *)
Ignored(type, path) ==
  \E j \in 1..Len(path) :
     /\ TypeAt(type, SubSeq(path, 1, j - 1)) \in {"constraints", "naming", "owner"}
     /\ ~Defined(type, SubSeq(path, 1, j))

\* Paths of a that are missing in b or different there, and paths that b adds
Lost(type, a, b) == {p \in SaysOf(type, a) : ~Ignored(type, p) /\ (p \notin SaysOf(type, b) \/ b[p] # a[p]) /\ ~(p \notin SaysOf(type, b) /\ MayVanish(type, p, a[p]))}
Added(type, a, b) == {p \in SaysOf(type, b) \ SaysOf(type, a) : ~MayAppear(type, p, b[p])}
Same(type, a, b) == Lost(type, a, b) = {} /\ Added(type, a, b) = {}

(* What a user reads from the fields of the language: a field that was not    *)
(* in the document is there, but empty.                                       *)
FieldsSame(type, a, b) ==
  /\ \A p \in Lost(type, a, b) : p \notin SaysOf(type, b) /\ Defined(type, p) /\ a[p] \in Zeros
  /\ \A p \in Added(type, a, b) : Defined(type, p) /\ b[p] \in Zeros

(* What is written when a user sets the fields of the language: scalars that   *)
(* have the value of a field never set may be missing; in constraints nothing  *)
(* is.                                                                         *)
BuiltSame(type, a, b) ==
  /\ \A p \in Lost(type, a, b) : p \notin SaysOf(type, b) /\ Defined(type, p) /\ a[p] \in Zeros /\ Owner(type, p) \notin {"constraints", "naming", "metadata"}
  /\ \A p \in Added(type, a, b) : Defined(type, p) /\ b[p] \in Zeros
=============================================================================
