---------------------------- MODULE MCDocuments ----------------------------
(***************************************************************************)
(* A codec with fields for known claims and a bag for the others, as the    *)
(* library has it: a document is read into fields, written, stored in a     *)
(* cache in another format, loaded, signed and parsed, and a policy that     *)
(* says nothing is applied to it. Any sequence of these is the identity.    *)
(*                                                                          *)
(* A field cannot tell "absent" from "zero"; so which claims were present   *)
(* has to be remembered, in all representations.                            *)
(*                                                                          *)
(* BUG 1 does not remember it when reading, 2 not when storing, 3 matches   *)
(* names without regard to case, 4 does not store unknown claims, 5 applies *)
(* policies to fields without noting what was present.                      *)
(***************************************************************************)
EXTENDS Documents, IOUtils, TLC

BUG == IF "BUG" \in DOMAIN IOEnv THEN atoi(IOEnv.BUG) ELSE 0
DEPTH == atoi(IOEnv.DEPTH)

Type == "openid_provider"
Str == "issuer"
Lst == "scopes_supported"
Bool == "require_request_uri_registration"
Var == "Issuer"
Unk == "x"
Known == {Str, Lst, Bool}
Names == Known \cup {Var, Unk}

Values(n) == CASE n = Str -> {Null, EmptyText, "\"v\""} [] n = Lst -> {Null, "[]", "[\"v\"]"} [] n = Bool -> {Null, "false", "true"}
               [] n = Var -> {"\"w\""} [] n = Unk -> {Null, "false", "\"v\""}
Docs == UNION {{d \in [{<<n>> : n \in N} -> UNION {Values(n) : n \in N}] : \A n \in N : d[<<n>>] \in Values(n)} : N \in SUBSET Names}
Zero(n) == CASE n = Str -> EmptyText [] n = Lst -> Null [] n = Bool -> "false"

\* the fields of a structure, which of them were set, and all other claims
Field(d, n) ==
  LET cands == {m \in Names : <<m>> \in DOMAIN d /\ (m = n \/ (BUG = 3 /\ {m, n} = {Str, Var}))}
      m == IF Var \in cands THEN Var ELSE n IN
  IF cands = {} THEN Zero(n) ELSE IF d[<<m>>] = Null THEN Zero(n) ELSE d[<<m>>]
Read(d) ==
  [val |-> [n \in Known |-> Field(d, n)],
   set |-> IF BUG = 1 THEN {} ELSE {n \in Known : <<n>> \in DOMAIN d /\ d[<<n>>] # Null},
   extra |-> [p \in {q \in DOMAIN d : q[1] \notin Known} |-> d[p]]]
Write(f) ==
  LET ks == {n \in Known : n \in f.set \/ f.val[n] \notin Zeros} IN
  [p \in {<<n>> : n \in ks} \cup DOMAIN f.extra |-> IF p[1] \in Known THEN f.val[p[1]] ELSE f.extra[p]]
\* the other format keeps the fields, and a note of which were present
Store(f) == [val |-> f.val, set |-> IF BUG = 2 THEN {} ELSE f.set, extra |-> IF BUG = 4 THEN <<>> ELSE f.extra]
\* pointers, nil for a claim that is absent
Apply(f) == [f EXCEPT !.set = IF BUG = 5 THEN {n \in Known : f.val[n] \notin Zeros} ELSE @]

VARIABLES d0, rep, x, n
vars == <<d0, rep, x, n>>
Init == d0 \in Docs /\ rep = "text" /\ x = d0 /\ n = 0
Step(r, y) == rep' = r /\ x' = y /\ n' = n + 1 /\ UNCHANGED d0
Next == n < DEPTH /\
  \/ rep = "text" /\ Step("fields", Read(x))
  \/ rep = "fields" /\ Step("text", Write(x))
  \/ rep = "fields" /\ Step("stored", Store(x))
  \/ rep = "stored" /\ Step("fields", x)
  \/ rep = "fields" /\ Step("fields", Apply(x))
Spec == Init /\ [][Next]_vars

Identity == rep = "text" => Same(Type, d0, x)
\* and nothing is lost on the way, either: the fields read as the document
Readable == rep = "fields" => FieldsSame(Type, d0, [p \in {<<m>> : m \in Known} \cup DOMAIN x.extra |-> IF p[1] \in Known THEN x.val[p[1]] ELSE x.extra[p]])
\* the law itself: reflexive, and it composes
Laws == n = 0 => Same(Type, d0, d0)
=============================================================================
