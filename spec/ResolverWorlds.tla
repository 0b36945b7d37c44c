--------------------------- MODULE ResolverWorlds ---------------------------
(***************************************************************************)
(* A systematic family of small worlds: well-formed federations of several  *)
(* shapes in which up to two things are wrong (or unusual) at any place.    *)
(***************************************************************************)
EXTENDS Federation, IOUtils, Json, SequencesExt

Names == {"L", "I", "J", "T", "U"}
Idx(e) == CASE e = "L" -> 1 [] e = "I" -> 2 [] e = "J" -> 3 [] e = "T" -> 4 [] e = "U" -> 5
KeyOf(e) == "k" \o e
HostOf(e) ==
  CASE e = "L" -> <<"l", "sub", "example", "org">>
    [] e = "I" -> <<"i", "sub", "example", "org">>
    [] e = "J" -> <<"j", "other", "net">>
    [] e = "T" -> <<"example", "org">>
    [] e = "U" -> <<"u", "xexample", "org">>

NoCon == [mpl |-> -1, hasPerm |-> FALSE, perm |-> <<>>, excl |-> <<>>, hasTypes |-> FALSE, types |-> <<>>]

NOW == 1000

TypesFor(e) ==
  CASE e = "L" -> <<"openid_provider", "federation_entity">>
    [] OTHER -> <<"federation_entity">>

(* a base is [hints, anchors, start]; subordinate statements exist where hinted *)
MkEC(b, e) ==
  [sid |-> Idx(e), iss |-> e, sub |-> e, iat |-> 901, exp |-> 1101, keys |-> <<KeyOf(e)>>, signer |-> KeyOf(e),
   sig |-> "ok", typ |-> "es", hints |-> b.hints[e], types |-> TypesFor(e), fetch |-> e, con |-> NoCon, pol |-> "none"]
MkSub(a, e) ==
  [sid |-> 10 * Idx(a) + Idx(e), iss |-> a, sub |-> e, iat |-> 901, exp |-> 1101, keys |-> <<KeyOf(e)>>,
   signer |-> KeyOf(a), sig |-> "ok", typ |-> "es", hints |-> <<>>, types |-> <<>>, fetch |-> "", con |-> NoCon, pol |-> "none"]

MkWorld(b) ==
  [now |-> NOW,
   ents |-> [e \in DOMAIN b.hints |->
     [host |-> HostOf(e), resp |-> "ok", ec |-> MkEC(b, e),
      subs |-> [s \in {x \in DOMAIN b.hints : e \in Range(b.hints[x])} |-> [resp |-> "ok", stmt |-> MkSub(e, s)]]]]]

Unpinned(id) == [id |-> id, pin |-> FALSE, keys |-> <<>>]
Pinned(id) == [id |-> id, pin |-> TRUE, keys |-> <<KeyOf(id)>>]
PinnedWrong(id) == [id |-> id, pin |-> TRUE, keys |-> <<"kX">>]
Req(s, as) == [start |-> s, anchors |-> as, types |-> <<>>]

Line    == [L |-> <<"I">>, I |-> <<"T">>, T |-> <<>>]
Direct  == [L |-> <<"T">>, T |-> <<>>]
Diamond == [L |-> <<"I", "J">>, I |-> <<"T">>, J |-> <<"T">>, T |-> <<>>]
Deep    == [L |-> <<"I">>, I |-> <<"J">>, J |-> <<"T">>, T |-> <<>>]
Short   == [L |-> <<"I", "T">>, I |-> <<"J", "T">>, J |-> <<"T">>, T |-> <<>>]
Two     == [L |-> <<"I", "J">>, I |-> <<"T">>, J |-> <<"U">>, T |-> <<>>, U |-> <<>>]
Loop    == [L |-> <<"I">>, I |-> <<"J", "T">>, J |-> <<"I", "L", "T">>, T |-> <<>>]
Stacked == [L |-> <<"I">>, I |-> <<"T">>, T |-> <<"U">>, U |-> <<>>]

Bases == <<
  [hints |-> Line,    req |-> Req("L", <<Unpinned("T")>>)],
  [hints |-> Line,    req |-> Req("L", <<Pinned("T")>>)],
  [hints |-> Direct,  req |-> Req("L", <<Unpinned("T")>>)],
  [hints |-> Direct,  req |-> Req("L", <<PinnedWrong("T")>>)],
  [hints |-> Diamond, req |-> Req("L", <<Unpinned("T")>>)],
  [hints |-> Diamond, req |-> Req("L", <<Pinned("T")>>)],
  [hints |-> Deep,    req |-> Req("L", <<Pinned("T")>>)],
  [hints |-> Short,   req |-> Req("L", <<Unpinned("T")>>)],
  [hints |-> Two,     req |-> Req("L", <<Pinned("T"), Unpinned("U")>>)],
  [hints |-> Two,     req |-> Req("L", <<PinnedWrong("U"), Unpinned("T")>>)],
  [hints |-> Loop,    req |-> Req("L", <<Unpinned("T")>>)],
  [hints |-> Stacked, req |-> Req("L", <<Unpinned("T"), Unpinned("U")>>)],
  [hints |-> Stacked, req |-> Req("L", <<Pinned("U")>>)],
  [hints |-> Direct,  req |-> Req("T", <<Unpinned("T")>>)],
  [hints |-> Direct,  req |-> Req("T", <<PinnedWrong("T")>>)],
  [hints |-> Direct,  req |-> Req("U", <<Unpinned("T")>>)],
  [hints |-> Diamond, req |-> Req("I", <<Unpinned("T")>>)],
  [hints |-> Diamond, req |-> [start |-> "L", anchors |-> <<Unpinned("T")>>, types |-> <<"openid_provider">>]]
>>

(* ---- defects ---- *)
StmtDefects == {"notfound", "garbage", "errjson", "typ", "iss", "sub", "iat", "exp", "noexp", "signX", "kidspoof", "tampered",
                "signnone", "hmac", "nokeys", "keysX", "keysAdd", "rollover"}
ECDefects == StmtDefects \cup {"nohints", "selfhint", "duphint", "unknownhint", "notypes", "nofed", "nofetch", "otherfetch",
                               "fetchX", "extratype", "takeover"}
SubDefects == StmtDefects \cup {"selfsigned", "mpl0", "mpl1", "permsub", "permexact", "permnone", "exclsub", "exclexact", "excldot",
                                "typesop", "typesrp", "typesempty", "polok", "polbad"}

Positions(b) ==
  LET hs == b.hints IN
  {<<"ec", e, e>> : e \in DOMAIN hs} \cup {<<"sub", a, e>> : a \in DOMAIN hs, e \in DOMAIN hs}
PosOK(b, p) == p[1] = "ec" \/ p[2] \in Range(b.hints[p[3]])

Other(w, e) == CHOOSE x \in DOMAIN w.ents : x # e /\ \A y \in DOMAIN w.ents : y # e => Idx(x) <= Idx(y)

Con(f, v) == [NoCon EXCEPT ![f] = v]

SetStmt(w, p, st) ==
  IF p[1] = "ec" THEN [w EXCEPT !.ents[p[2]].ec = st]
                 ELSE [w EXCEPT !.ents[p[2]].subs[p[3]].stmt = st]
GetStmt(w, p) == IF p[1] = "ec" THEN w.ents[p[2]].ec ELSE w.ents[p[2]].subs[p[3]].stmt
SetResp(w, p, r) ==
  IF p[1] = "ec" THEN [w EXCEPT !.ents[p[2]].resp = r]
                 ELSE [w EXCEPT !.ents[p[2]].subs[p[3]].resp = r]

Lbl(d, l) == [dot |-> d, labels |-> l]

Apply(w, d) ==
  LET p == d[1] k == d[2] st == GetStmt(w, p) IN
  CASE k \in {"notfound", "garbage", "errjson"} -> SetResp(w, p, k)
    [] k = "typ" -> SetStmt(w, p, [st EXCEPT !.typ = "tm"])
    [] k = "iss" -> SetStmt(w, p, [st EXCEPT !.iss = Other(w, st.iss)])
    [] k = "sub" -> SetStmt(w, p, [st EXCEPT !.sub = Other(w, st.sub)])
    [] k = "iat" -> SetStmt(w, p, [st EXCEPT !.iat = 1051])
    [] k = "exp" -> SetStmt(w, p, [st EXCEPT !.exp = 951])
    [] k = "noexp" -> SetStmt(w, p, [st EXCEPT !.exp = 0])
    [] k = "signX" -> SetStmt(w, p, [st EXCEPT !.signer = "kX"])
    [] k = "kidspoof" -> SetStmt(w, p, [st EXCEPT !.sig = "kidspoof"])
    [] k = "tampered" -> SetStmt(w, p, [st EXCEPT !.sig = "tampered"])
    [] k = "signnone" -> SetStmt(w, p, [st EXCEPT !.sig = "none"])
    [] k = "hmac" -> SetStmt(w, p, [st EXCEPT !.sig = "hmac"])
    [] k = "nokeys" -> SetStmt(w, p, [st EXCEPT !.keys = <<>>])
    [] k = "keysX" -> SetStmt(w, p, [st EXCEPT !.keys = <<"kX">>])
    [] k = "keysAdd" -> SetStmt(w, p, [st EXCEPT !.keys = <<"kX">> \o st.keys])
    [] k = "rollover" -> SetStmt(w, p, [st EXCEPT !.signer = st.signer \o "2", !.keys = IF st.keys = <<>> THEN <<>> ELSE Append(st.keys, st.keys[Len(st.keys)] \o "2")])
    [] k = "selfsigned" -> SetStmt(w, p, [st EXCEPT !.signer = KeyOf(p[3])])
    [] k = "nohints" -> SetStmt(w, p, [st EXCEPT !.hints = <<>>])
    [] k = "selfhint" -> SetStmt(w, p, [st EXCEPT !.hints = <<p[2]>> \o st.hints])
    [] k = "duphint" -> SetStmt(w, p, [st EXCEPT !.hints = st.hints \o st.hints])
    [] k = "unknownhint" -> SetStmt(w, p, [st EXCEPT !.hints = <<"Z">> \o st.hints])
    [] k = "notypes" -> SetStmt(w, p, [st EXCEPT !.types = <<>>])
    [] k = "nofed" -> SetStmt(w, p, [st EXCEPT !.types = <<"openid_relying_party">>])
    [] k = "extratype" -> SetStmt(w, p, [st EXCEPT !.types = Append(st.types, "custom_type")])
    [] k = "nofetch" -> SetStmt(w, p, [st EXCEPT !.fetch = ""])
    [] k = "otherfetch" -> SetStmt(w, p, [st EXCEPT !.fetch = Other(w, p[2])])
    [] k = "fetchX" -> SetStmt(w, p, [st EXCEPT !.fetch = "Z"])
    [] k = "takeover" ->
         LET w2 == SetStmt(w, p, [st EXCEPT !.signer = "kX", !.keys = <<"kX">>]) IN
         [w2 EXCEPT !.ents[p[2]].subs = [s \in DOMAIN @ |-> [@[s] EXCEPT !.stmt.signer = "kX"]]]
    [] k = "mpl0" -> SetStmt(w, p, [st EXCEPT !.con = Con("mpl", 0)])
    [] k = "mpl1" -> SetStmt(w, p, [st EXCEPT !.con = Con("mpl", 1)])
    [] k = "permsub" -> SetStmt(w, p, [st EXCEPT !.con = [NoCon EXCEPT !.hasPerm = TRUE, !.perm = <<Lbl(TRUE, <<"sub", "example", "org">>)>>]])
    [] k = "permexact" -> SetStmt(w, p, [st EXCEPT !.con = [NoCon EXCEPT !.hasPerm = TRUE, !.perm = <<Lbl(FALSE, <<"l", "sub", "example", "org">>), Lbl(TRUE, <<"net">>)>>]])
    [] k = "permnone" -> SetStmt(w, p, [st EXCEPT !.con = [NoCon EXCEPT !.hasPerm = TRUE]])
    [] k = "exclsub" -> SetStmt(w, p, [st EXCEPT !.con = Con("excl", <<Lbl(FALSE, <<"nobody">>), Lbl(TRUE, <<"other", "net">>)>>)])
    [] k = "exclexact" -> SetStmt(w, p, [st EXCEPT !.con = Con("excl", <<Lbl(FALSE, <<"i", "sub", "example", "org">>)>>)])
    [] k = "excldot" -> SetStmt(w, p, [st EXCEPT !.con = [NoCon EXCEPT !.hasPerm = TRUE, !.perm = <<Lbl(TRUE, <<"example", "org">>), Lbl(TRUE, <<"net">>)>>,
                                                       !.excl = <<Lbl(TRUE, <<"xexample", "org">>)>>]])
    [] k = "typesop" -> SetStmt(w, p, [st EXCEPT !.con = [NoCon EXCEPT !.hasTypes = TRUE, !.types = <<"openid_provider">>]])
    [] k = "typesrp" -> SetStmt(w, p, [st EXCEPT !.con = [NoCon EXCEPT !.hasTypes = TRUE, !.types = <<"openid_relying_party">>]])
    [] k = "typesempty" -> SetStmt(w, p, [st EXCEPT !.con = [NoCon EXCEPT !.hasTypes = TRUE]])
    [] k = "polok" -> SetStmt(w, p, [st EXCEPT !.pol = "ok"])
    [] k = "polbad" -> SetStmt(w, p, [st EXCEPT !.pol = "bad"])

DefectsOf(b) ==
  {<<p, k>> : p \in {q \in Positions(b) : PosOK(b, q)}, k \in ECDefects \cup SubDefects}
DefectOK(d) == IF d[1][1] = "ec" THEN d[2] \in ECDefects ELSE d[2] \in SubDefects
DefectSeq(b) == SetToSeq({d \in DefectsOf(b) : DefectOK(d)})

(* all worlds with one thing wrong *)
Case(b, ds) ==
  [world |-> IF ds = <<>> THEN MkWorld(b) ELSE IF Len(ds) = 1 THEN Apply(MkWorld(b), ds[1]) ELSE Apply(Apply(MkWorld(b), ds[1]), ds[2]),
   req |-> b.req, desc |-> [i \in DOMAIN ds |-> ds[i][1] \o <<ds[i][2]>>]]

NoDefect == {Case(Bases[i], <<>>) : i \in DOMAIN Bases}
OneDefect == UNION {{Case(Bases[i], <<d>>) : d \in Range(DefectSeq(Bases[i]))} : i \in DOMAIN Bases}

(* every n-th of all pairs *)
Pairs(n, off) ==
  UNION {LET D == DefectSeq(Bases[i]) IN
         {Case(Bases[i], <<D[x], D[y]>>) :
            <<x, y>> \in {xy \in (DOMAIN D) \X (DOMAIN D) : xy[1] < xy[2] /\ (xy[1] * 7919 + xy[2] * 104729 + i * 31 + off) % n = 0}}
         : i \in DOMAIN Bases}

EnvInt(name, default) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE default
PairEvery == EnvInt("PAIR_EVERY", 50)
PairOff == EnvInt("PAIR_OFF", 0)
=============================================================================
