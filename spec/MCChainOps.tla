---------------------------- MODULE MCChainOps ------------------------------
(***************************************************************************)
(* The laws of filtering and sorting, for all lists of up to LISTLEN chains  *)
(* of up to MIDS + 2 statements: independent criteria commute, the minimal path     *)
(* length does not commute with them but is the last step of choosing a      *)
(* shortest chain among the acceptable ones, and a chain ends with its first *)
(* expiring statement.                                                       *)
(***************************************************************************)
EXTENDS ChainOps, IOUtils, TLC

EnvInt(n, d) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE d
ListLen == EnvInt("LISTLEN", 2)

Leaf == [iss |-> "l", exp |-> 3, hasmd |-> TRUE, name |-> "n", contacts |-> {}, pname |-> "", padd |-> {}, crit |-> FALSE]
Up(a, e, p) == [iss |-> a, exp |-> e, hasmd |-> FALSE, name |-> "", contacts |-> {}, pname |-> p, padd |-> {}, crit |-> FALSE]
Mids(n) == [1..n -> {Up("i", 2, ""), Up("i", 0, "x")}]
Ends == {Up("A", 0, ""), Up("B", 1, "y")}
Chains == {<<>>, <<Leaf>>} \cup {<<Leaf>> \o m \o <<x>> : m \in UNION {Mids(n) : n \in 0..EnvInt("MIDS", 2)}, x \in Ends}

Crit == {[kind |-> "anchor", anchor |-> "A", n |-> 0], [kind |-> "anchor", anchor |-> "B", n |-> 0], [kind |-> "valid", anchor |-> "", n |-> 0],
         [kind |-> "long", anchor |-> "", n |-> 4]} \cup {[kind |-> "max", anchor |-> "", n |-> n] : n \in 0..2}
Min == [kind |-> "min", anchor |-> "", n |-> 0]

VARIABLE list
Init == list = <<>>
Next == Len(list) < ListLen /\ \E c \in Chains : list' = Append(list, c)
Spec == Init /\ [][Next]_list

Commute == \A f, g \in Crit : FilteredAll(<<f, g>>, list) = FilteredAll(<<g, f>>, list)
Intersection == \A f, g \in Crit : \A c \in {list[i] : i \in DOMAIN list} :
   (\E i \in DOMAIN FilteredAll(<<f, g>>, list) : FilteredAll(<<f, g>>, list)[i] = c) <=> (Keeps(f, c, list) /\ Keeps(g, c, list))
Idempotent == \A f \in Crit \cup {Min} : FilteredAll(<<f, f>>, list) = FilteredAll(<<f>>, list)
(* a shortest chain among those with metadata, in contrast to metadata among the shortest *)
ShortestUsable ==
  LET r == FilteredAll(<<[kind |-> "valid", anchor |-> "", n |-> 0], Min>>, list) IN
  (r = <<>>) <=> (\A i \in DOMAIN list : MetadataOf(list[i]).err)
MinIsMax == LET r == Filtered(Min, list) IN r # <<>> =>
  r = Filtered([kind |-> "max", anchor |-> "", n |-> Intermediates(r[1])], list)
Expires == \A i \in DOMAIN list : LET c == list[i] IN
  /\ \A j \in DOMAIN c : c[j].exp # 0 => Expiration(c) # 0 /\ Expiration(c) <= c[j].exp
  /\ Expiration(c) = 0 \/ \E j \in DOMAIN c : c[j].exp = Expiration(c)
(* sorting and filtering are independent up to the order of equals *)
ids == [i \in DOMAIN list |-> i]
Perms == {p \in [DOMAIN list -> DOMAIN list] : SameElements(p, ids)}
SortFilter == \A f \in Crit, s \in {"path", "len", "expiry", "flat", "neg"}, d \in BOOLEAN, p \in Perms :
  SortOf(p, ids, s, d, list) => SortOf(KeptAll(<<f>>, p, list), KeptAll(<<f>>, ids, list), s, d, list)
=============================================================================
