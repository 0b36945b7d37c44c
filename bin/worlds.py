"""Random federations in the vocabulary of spec/Federation.tla."""
import random

NOCON = {"mpl": -1, "hasPerm": False, "perm": [], "excl": [], "hasTypes": False, "types": []}
HOSTS = [["a", "sub", "example", "org"], ["b", "sub", "example", "org"], ["example", "org"], ["sub", "example", "org"],
         ["c", "other", "net"], ["xexample", "org"], ["net"], ["d", "a", "sub", "example", "org"]]
CONHOSTS = [["example", "org"], ["sub", "example", "org"], ["other", "net"], ["net"], ["c", "other", "net"], ["org"],
            ["a", "sub", "example", "org"], ["xexample", "org"]]
TYPES = ["openid_provider", "openid_relying_party", "federation_entity", "oauth_authorization_server", "custom_type", "oauth_client",
         "oauth_resource", "Custom_type"]
NOW = 1000


def lbl(rnd):
    return {"dot": rnd.random() < 0.6, "labels": rnd.choice(CONHOSTS)}


def rnd_con(rnd):
    c = dict(NOCON)
    for k in rnd.sample(["mpl", "perm", "excl", "types"], rnd.choice([1, 1, 2])):
        if k == "mpl":
            c["mpl"] = rnd.choice([0, 1, 1, 2, 3])
        elif k == "perm":
            c["hasPerm"] = True
            c["perm"] = [lbl(rnd) for _ in range(rnd.choice([0, 1, 2, 3, 4]))]
        elif k == "excl":
            c["excl"] = [lbl(rnd) for _ in range(rnd.choice([1, 1, 2]))]
        else:
            c["hasTypes"] = True
            c["types"] = rnd.sample(TYPES, rnd.choice([0, 1, 3, 4, 5, 7]))
    return c


# identifiers that are similar to the one of an entity, but different: those of entities that do not exist
VARIANTS = ["slash", "slash", "http", "upper", "frag", "query", "pct", "port", "user"]


def near(rnd, name):
    return name + "~" + rnd.choice(VARIANTS)


STMT_DEFECTS = ["notfound", "garbage", "errjson", "hostile", "typ", "iss", "sub", "iat", "exp", "edge", "noexp", "signX", "kidspoof", "tampered",
                "none", "hmac", "jwkheader", "nokeys", "keysX", "keysAdd", "rollover"]


def defect(rnd, names, e, st, holder, is_ec):
    """Applies a random defect to statement st (in holder, which has resp)."""
    k = rnd.choice(STMT_DEFECTS + (["hints", "hints", "selfhint", "unknown", "types", "nofetch", "otherfetch"] if is_ec else
                                   ["con", "con", "con", "con", "selfsigned", "policy"]))
    if k in ("notfound", "garbage", "errjson"):
        holder["resp"] = k
    elif k == "hostile":
        holder["resp"] = "hostile%d" % rnd.randrange(40)
    elif k == "typ":
        st["typ"] = rnd.choice(["tm", "td", "rr", "no", "entity-statement", "ENTITY-STATEMENT+JWT", "application/entity-statement+jwt"])
    elif k == "iss":
        st["iss"] = rnd.choice(names + ["Z"]) if rnd.random() < 0.5 else near(rnd, st["iss"].split("~")[0])
    elif k == "sub":
        st["sub"] = rnd.choice(names + ["Z"]) if rnd.random() < 0.5 else near(rnd, st["sub"].split("~")[0])
    elif k == "iat":
        st["iat"] = NOW + rnd.choice([1, 2, 50, 5000])
    elif k == "exp":
        st["exp"] = NOW - rnd.choice([1, 2, 50, 900])
    elif k == "edge":
        st["iat"] = rnd.choice([NOW, st["iat"]])
        st["exp"] = rnd.choice([NOW + 1, st["exp"]])
    elif k == "noexp":
        st["exp"] = 0
    elif k == "signX":
        st["signer"] = "kX"
    elif k in ("kidspoof", "tampered", "none", "hmac", "jwkheader"):
        st["sig"] = k
    elif k == "nokeys":
        st["keys"] = []
    elif k == "keysX":
        st["keys"] = [rnd.choice(["kX"] + ["k" + n for n in names])]
    elif k == "keysAdd":
        st["keys"] = [rnd.choice(["kX"] + ["k" + n for n in names])] + st["keys"]
    elif k == "rollover":
        st["signer"] = st["signer"] + "2"
        if rnd.random() < 0.5:
            st["keys"] = st["keys"] + [x + "2" for x in st["keys"]]
    elif k == "selfsigned":
        st["signer"] = "k" + st["sub"].split("~")[0]
    elif k == "hints":
        st["hints"] = [rnd.choice(names) for _ in range(rnd.choice([0, 1, 2, 3]))]
    elif k == "selfhint":
        st["hints"] = st["hints"] + [e]
    elif k == "unknown":
        st["hints"] = [rnd.choice(["Z", near(rnd, rnd.choice(names))])] + st["hints"]
    elif k == "types":
        st["types"] = rnd.sample(TYPES, rnd.choice([0, 1, 2]))
    elif k == "nofetch":
        st["fetch"] = ""
    elif k == "otherfetch":
        st["fetch"] = rnd.choice(names + ["Z"])
    elif k == "con":
        st["con"] = rnd_con(rnd)
    elif k == "policy":
        st["pol"] = rnd.choice(["ok", "bad"])
    return k


def random_world(rnd, maxn=7, shape=None):
    n = len(shape) if shape else rnd.randint(2, maxn)
    names = ["E%d" % i for i in range(1, n + 1)]
    ents = {}
    sid = [0]

    def nsid():
        sid[0] += 1
        return sid[0]

    back = rnd.choice([0, 0, 0.15])
    hints = {}
    for i, e in enumerate(names):
        h = []
        for j, a in enumerate(names):
            if j > i and rnd.random() < min(1.0, 2.0 / max(1, n - 1 - i)):
                h.append(a)
            elif j < i and rnd.random() < back:
                h.append(a)
        rnd.shuffle(h)
        hints[e] = h[:3]
    if shape:
        hints = shape
    anchors = [names[-1]] + rnd.sample(names, rnd.choice([0, 0, 1, 1, 2]))
    aids = []
    for a in anchors:
        if a not in aids:
            aids.append(a)
    rnd.shuffle(aids)
    if rnd.random() < 0.05:
        aids.insert(rnd.randrange(len(aids) + 1), rnd.choice(["Z", near(rnd, rnd.choice(names))]))
    start = names[0] if rnd.random() < 0.85 else rnd.choice(names + ["Z", near(rnd, names[0])])
    samehost = rnd.random() < 0.1
    for e in names:
        types = rnd.sample(TYPES, rnd.choice([1, 1, 2])) if e == start else rnd.sample(TYPES, rnd.choice([0, 0, 0, 0, 1]))
        if "federation_entity" not in types:
            types.append("federation_entity")
        k = "k" + e
        ents[e] = {"host": HOSTS[0] if samehost else rnd.choice(HOSTS), "port": rnd.choice(["", "", "", "", ":8443"]), "resp": "ok",
                   "ec": {"sid": nsid(), "iss": e, "sub": e, "iat": NOW - rnd.choice([99, 500]), "exp": NOW + rnd.choice([101, 4000]), "keys": [k],
                          "signer": k, "sig": "ok", "typ": "es", "hints": hints[e], "types": types, "fetch": e, "con": dict(NOCON), "pol": "none"},
                   "subs": {}}
    for e in names:
        for a in hints[e]:
            ents[a]["subs"][e] = {"resp": "ok", "stmt": {
                "sid": nsid(), "iss": a, "sub": e, "iat": NOW - rnd.choice([99, 500]), "exp": NOW + rnd.choice([101, 4000]), "keys": ["k" + e],
                "signer": "k" + a, "sig": "ok", "typ": "es", "hints": [], "types": [], "fetch": "", "con": dict(NOCON), "pol": "none"}}
    pos = [("ec", e, e) for e in names] + [("sub", a, e) for e in names for a in hints[e]]
    desc = []
    for _ in range(rnd.choice([0, 1, 1, 2, 2, 3, 4, 5])):
        p = rnd.choice(pos)
        if p[0] == "ec":
            k = defect(rnd, names, p[1], ents[p[1]]["ec"], ents[p[1]], True)
        else:
            o = ents[p[1]]["subs"][p[2]]
            k = defect(rnd, names, p[2], o["stmt"], o, False)
        desc.append(list(p) + [k])
    for _ in range(rnd.choice([0, 0, 1, 2])):
        p = rnd.choice([x for x in pos if x[0] == "sub"] or [None])
        if p:
            ents[p[1]]["subs"][p[2]]["stmt"]["con"] = rnd_con(rnd)
            desc.append(list(p) + ["con"])
    pinmode = rnd.random()
    anchors = []
    for a in aids:
        pin = pinmode < 0.5 if rnd.random() < 0.8 else rnd.random() < 0.5
        keys = ["k" + a.split("~")[0]] if rnd.random() < 0.85 else rnd.choice([["kX"], ["kX", "k" + a.split("~")[0]], ["k" + rnd.choice(names)]])
        anchors.append({"id": a, "pin": pin, "keys": keys if pin else []})
    types = [] if rnd.random() < 0.75 else rnd.sample(TYPES, rnd.choice([1, 2, 3]))
    return {"world": {"now": NOW, "ents": ents}, "req": {"start": start, "types": types, "anchors": anchors}, "desc": desc}


def big_world(rnd):
    """More levels, authorities or paths than usual; the last entity is an anchor."""
    kind = rnd.choice(["line", "line", "wide", "wide", "ladder", "clique"])
    if kind == "line":
        n = rnd.choice([9, 11, 12, 13, 17, 21, 26, 34])
        up = [[i + 1] for i in range(n - 1)] + [[]]
        for _ in range(rnd.choice([0, 0, 1, 3])):
            i = rnd.randrange(1, n)
            up[i].insert(rnd.randrange(len(up[i]) + 1), rnd.randrange(i))      # and back
    elif kind == "wide":
        n = rnd.choice([10, 13, 18, 24])
        up = [list(range(1, n - 1))] + [[n - 1] for _ in range(n - 2)] + [[]]
        rnd.shuffle(up[0])
        for i in range(1, n - 1):
            if rnd.random() < 0.3:
                up[i] = rnd.choice([[], [0], [n - 1, 0], [min(i + 1, n - 1)]])
    elif kind == "ladder":
        k = rnd.choice([3, 4, 5])
        n = 2 * k + 2
        up = [[1, 2]] + [[j, j + 1] for i in range(k - 1) for j in [2 * i + 3] for _ in (1, 2)] + [[n - 1], [n - 1], []]
    else:
        n = rnd.choice([5, 6])
        up = [[j for j in range(n) if j != i] for i in range(n)]
    names = ["E%d" % (i + 1) for i in range(n)]
    sc = random_world(rnd, shape={e: [names[j] for j in h] for e, h in zip(names, up)})
    sc["desc"].insert(0, [kind])
    return sc


def random_worlds(seed, n, maxn=7):
    rnd = random.Random("worlds-%d" % seed)
    big = random.Random("big-%d" % seed)
    return [random_world(rnd, maxn) for _ in range(n)] + [big_world(big) for _ in range(n // 40)]
