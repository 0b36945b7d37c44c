--------------------------- MODULE DocumentsTrace ---------------------------
(***************************************************************************)
(* Validates what the library made of documents. A record is                 *)
(*  type  : type of the document                                             *)
(*  doc   : Seq of [p (Seq of names), v], the leaves of the document         *)
(*  steps : Seq of [op, err, panic, doc], each applied to the document       *)
(*    "fields"  what the fields of the language say                          *)
(*    "build"   fields are set, the document is written from them            *)
(*    others    the document is read, changes its representation (op), and   *)
(*              is written again                                             *)
(* A document of type "single" is a value that is a list or a single text.   *)
(***************************************************************************)
EXTENDS Documents, IOUtils, Json, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, k
vars == <<h, k>>

Fail(prop, i, what) == PrintT(<<"FAIL", prop, i, what>>)
Check(ok, prop, i, what) == IF ok THEN TRUE ELSE Fail(prop, i, what)

(* The law speaks about each path on its own, except that a set of keys is    *)
(* seen with its keys; so only paths that differ, and what belongs to them,   *)
(* have to be looked at.                                                      *)
Differ(A, B) == {x.p : x \in (A \ B) \cup (B \ A)}
Relevant(A, D) == {x \in A : \E d \in D : IsPrefix(d, x.p) \/ (d # <<>> /\ x.p = Front(d))}
Doc(A) == [p \in {x.p : x \in A} |-> (CHOOSE x \in A : x.p = p).v]

\* a single text and the list of it say the same
Single(q) == q[1].v
SameSingle(a, b) == a = b \/ "[" \o a \o "]" = b \/ "[" \o b \o "]" = a

Texts(doc, P) == {<<p, doc[p]>> : p \in P \cap DOMAIN doc}

Judge(i, t, A, s) ==
  IF s.panic # "" THEN Fail("C24", i, <<"panic", s.op, s.panic>>)
  ELSE IF s.err # "" THEN Fail("C24", i, <<"error", s.op, s.err>>)
  ELSE IF t.type = "single" THEN Check(SameSingle(Single(t.doc), Single(s.doc)), "C24", i, <<"changed", s.op, Single(s.doc)>>)
  ELSE
  LET B == ToSet(s.doc)
      D == Differ(A, B) IN
  IF D = {} THEN TRUE ELSE
  LET a == Doc(Relevant(A, D))
      b == Doc(Relevant(B, D))
      ok == CASE s.op = "fields" -> FieldsSame(t.type, a, b)
              [] s.op = "build" -> BuiltSame(t.type, a, b)
              [] OTHER -> Same(t.type, a, b)
      lost == Lost(t.type, a, b) IN
  Check(ok, "C24", i, <<"changed", s.op, "lost", Texts(a, lost), "now", Texts(b, lost), "added", Texts(b, Added(t.type, a, b))>>)

Init == h \in 1..Len(Trace) /\ k = 0
Next ==
  LET t == Trace[h]
      A == ToSet(t.doc) IN
  /\ h' = h
  /\ k = 0
  /\ k' = 1
  /\ \A j \in 1..Len(t.steps) : Judge(h, t, A, t.steps[j])
  /\ PrintT(<<"INFO", h, Len(t.doc), Len(t.steps)>>)
  /\ PrintT(<<"DONE", h>>)
=============================================================================
