"""Federations of which the entities are collected, in the vocabulary of spec/Collection.tla."""
import random
import unicodedata

import worlds
from worlds import NOCON, NOW

OP, RP, FE = "openid_provider", "openid_relying_party", "federation_entity"
TYPES = [OP, OP, OP, RP, "oauth_authorization_server", "oauth_client", "oauth_resource", "custom_type"]
KNOWN = [OP, RP, FE, "oauth_authorization_server", "oauth_client", "oauth_resource"]
NAMES = ["Bad Carps", "beer", "Face", "Rope 7", "ABC-Repo", "scope", "ear", "Soap", "BEEF", "op", "Red Rope", "Café Ñ"]
QUERIES = ["b", "ae", "RE", "rep", "sco", "op", "e7", "bf", "abcr", "face", "pe", " 7", "e ", " c", "c ", "d C", "cafe", "FE N"]
GRANTS = ["s:authorization_code", "s:refresh_token", "s:authorization"]
SCOPES = ["s:openid", "s:OpenID", "s:open"]
REGS = ["s:automatic", "s:explicit"]
CLAIMS = ["entity_types", "description", "logo_uri", "policy_uri", "information_uri", "keywords", "display_name", "metadata", "trust_chain"]


def lst(xs):
    return {"k": "l", "v": list(xs)}


def one(x):
    return {"k": "s", "v": [x]}


def sub(rnd, xs, least=0):
    return rnd.sample(xs, rnd.randint(least, len(xs)))


def metadata(rnd, e, t):
    m = {}
    if rnd.random() < 0.5:
        m["display_name"] = one("s:" + rnd.choice(NAMES))
    if rnd.random() < 0.6:
        m["organization_name"] = one("s:" + rnd.choice(NAMES))
    if t in (RP, "oauth_client") and rnd.random() < 0.6:
        m["client_name"] = one("s:" + rnd.choice(NAMES))
    if t == "oauth_resource" and rnd.random() < 0.6:
        m["resource_name"] = one("s:" + rnd.choice(NAMES))
    for c in ["description", "logo_uri", "policy_uri", "information_uri"]:
        if rnd.random() < 0.3:
            m[c] = one("s:%s %s of %s" % (t, c, e))
    if rnd.random() < 0.3:
        m["keywords"] = lst("s:%s%d" % (e, i) for i in range(rnd.choice([1, 2])))
    if t == OP:
        if rnd.random() < 0.9:
            m["grant_types_supported"] = lst(sub(rnd, GRANTS, 1))
        if rnd.random() < 0.9:
            m["scopes_supported"] = lst(sub(rnd, SCOPES, 1))
        if rnd.random() < 0.9:
            m["client_registration_types_supported"] = lst(sub(rnd, REGS, 1))
    return m


def policy(rnd):
    p = {}
    for c, xs in (("grant_types_supported", GRANTS), ("scopes_supported", SCOPES), ("client_registration_types_supported", REGS)):
        if rnd.random() < 0.4:
            op = rnd.choice(["value", "add", "subset_of", "subset_of", "superset_of", "default", "essential"])
            p[c] = {op: one("b:true") if op == "essential" else lst(sub(rnd, xs, 1))}
    if rnd.random() < 0.15:
        p["display_name"] = {"value": one("s:forced")}
    return {OP: p} if p else {}


def stmt(rnd, sid, iss, subj, signer, keys):
    return {"sid": sid, "iss": iss, "sub": subj, "iat": NOW - rnd.choice([99, 500]), "exp": NOW + rnd.choice([301, 20000, 20000]), "keys": keys,
            "signer": signer, "sig": "ok", "typ": "es", "hints": [], "types": [], "fetch": "", "con": dict(NOCON), "pol": "none",
            "listat": "", "md": {}, "mpol": {}, "crit": []}


def federation(rnd, n):
    names = ["TA"] + ["E%d" % i for i in range(1, n + 1)]
    if rnd.random() < 0.2 and n > 1:
        # identifiers that only differ in case
        names[rnd.randint(2, n)] = "e1"
    inter = ["TA"] + [e for e in names[1:] if rnd.random() < 0.45]
    sid = [0]

    def nsid():
        sid[0] += 1
        return sid[0]

    # who lists whom: mostly downwards, with diamonds, sometimes back up
    lists = {e: [] for e in names}
    for i, e in enumerate(names[1:], 1):
        above = [a for a in inter if names.index(a) < i]
        for a in rnd.sample(above, min(len(above), rnd.choice([1, 1, 1, 2, 2, 3]))):
            lists[a].append(e)
    sup = {e: [a for a in names if e in lists[a]] for e in names}
    for a in inter:
        if rnd.random() < 0.2:
            lists[a].append(rnd.choice(names))       # back edges, self references, duplicates
        if rnd.random() < 0.1:
            lists[a].append("Z")
        if rnd.random() < 0.1 and lists[a]:
            lists[a].remove(rnd.choice(lists[a]))    # a subordinate that is not listed
        rnd.shuffle(lists[a])
    ents = {}
    for e in names:
        ec = stmt(rnd, nsid(), e, e, "k" + e, ["k" + e])
        ec["hints"] = sup[e]
        ts = []
        if e in inter or rnd.random() < 0.1:
            ts.append(FE)
        if e not in inter or rnd.random() < 0.2:
            ts += rnd.sample(TYPES, rnd.choice([1, 1, 2]))
        ts = sorted(set(ts))
        ec["types"] = ts
        ec["md"] = {t: metadata(rnd, e, t) for t in ts}
        if e in inter:
            ec["fetch"] = e
            ec["listat"] = e
        ents[e] = {"host": ents["E1"]["host"] if e == "e1" else rnd.choice(worlds.HOSTS), "resp": "ok", "ec": ec, "subs": {}, "listresp": "ok", "list": lists[e]}
    for e in names:
        for a in sup[e]:
            st = stmt(rnd, nsid(), a, e, "k" + a, ["k" + e])
            if rnd.random() < 0.5:
                st["mpol"] = policy(rnd)
            if rnd.random() < 0.03:
                st["crit"] = ["regexp"]
            if rnd.random() < 0.15:
                st["con"] = worlds.rnd_con(rnd)
            ents[a]["subs"][e] = {"resp": "ok", "stmt": st}
    desc = []
    for _ in range(rnd.choice([0, 0, 1, 1, 2])):
        e = rnd.choice(names[1:])
        k = rnd.choice(["resp", "typ", "iss", "sub", "sig", "notypes", "sub-resp", "sub-sig", "sub-time", "listresp", "listresp", "nolist", "otherlist",
                        "exp", "keysX"])
        o, ec = ents[e], ents[e]["ec"]
        s = o["subs"][rnd.choice(sorted(o["subs"]))] if o["subs"] else None
        a = ents[rnd.choice(inter)]
        if k == "resp":
            o["resp"] = rnd.choice(["notfound", "garbage", "errjson"])
        elif k == "typ":
            ec["typ"] = rnd.choice(["tm", "no", "rr"])
        elif k in ("iss", "sub"):
            ec[k] = rnd.choice(names)
        elif k == "sig":
            ec["sig"] = rnd.choice(["kidspoof", "tampered", "none"])
        elif k == "notypes":
            ec["types"], ec["md"] = [], {}
        elif k == "sub-resp" and s:
            s["resp"] = rnd.choice(["notfound", "garbage", "errjson"])
        elif k == "sub-sig" and s:
            s["stmt"]["sig"] = rnd.choice(["kidspoof", "tampered"])
        elif k == "sub-time" and s:
            s["stmt"]["exp"] = NOW - 1
        elif k == "listresp":
            a["listresp"] = rnd.choice(["notfound", "garbage", "servererror"])
        elif k == "nolist":
            a["ec"]["listat"] = ""
        elif k == "otherlist":
            a["ec"]["listat"] = rnd.choice(names)
        elif k == "exp":
            ec["exp"] = NOW + rnd.choice([-5, 5, 30])
        elif k == "keysX":
            ec["signer"] = "kX"
        desc.append([e, k])
    return names, inter, ents, desc


def anchor(rnd):
    pin = rnd.random() < 0.5
    keys = rnd.choice([["kTA"], ["kTA"], ["kX"], ["kX", "kTA"]])
    return {"id": "TA", "pin": pin, "keys": keys if pin else []}


def filters(rnd, inter):
    out = []
    for _ in range(rnd.choice([0, 1, 1, 2])):
        k = rnd.choice(["chains", "chains", "grants", "scopes", "automatic", "explicit", "ops"])
        a = anchor(rnd)
        if k != "chains":
            a = {"id": "TA" if rnd.random() < 0.6 else rnd.choice(inter), "pin": False, "keys": []}
        anchors = [a]
        if rnd.random() < 0.2:
            b = rnd.choice(inter)
            if b != a["id"]:
                anchors.append({"id": b, "pin": False, "keys": []})
        out.append({"kind": k, "vals": sub(rnd, GRANTS if k == "grants" else SCOPES) if k in ("grants", "scopes") else [], "anchors": anchors})
    return out


def request(rnd, names, inter):
    r = {"ta": "TA" if rnd.random() < 0.8 else rnd.choice(inter + names + ["Z"]), "hasTypes": rnd.random() < 0.4, "types": [], "query": [], "filters": []}
    if r["hasTypes"]:
        r["types"] = rnd.sample(sorted(set(TYPES)) + [FE, "nosuchtype", "OpenID_Provider", "openid_", "custom"], rnd.choice([1, 1, 2, 3]))
    if rnd.random() < 0.15:
        r["query"] = list(rnd.choice(QUERIES))
    return r


def step(rnd, names, inter, at):
    coll = rnd.choice(["simple", "simple", "op", "verified", "filterable", "filterable-simple"])
    r = request(rnd, names, inter)
    s = {"at": at, "coll": coll, "n": rnd.choice([1, 1, 1, 2, 3]), "shared": rnd.random() < 0.7, "req": r, "hasClaims": rnd.random() < 0.5, "claims": [], "tas": [], "nest": ""}
    if s["hasClaims"]:
        s["claims"] = sub(rnd, CLAIMS, 1)
    if coll.startswith("filterable"):
        r["filters"] = filters(rnd, inter)
        if s["hasClaims"] and any(f["kind"] == "ops" for f in r["filters"]) and "entity_types" not in s["claims"]:
            s["claims"].append("entity_types")
        # collections for different anchors with one collector, at once or one within the other
        if s["n"] > 1 and rnd.random() < 0.5:
            s["tas"] = [rnd.choice(inter) for _ in range(s["n"])]
        if s["shared"] and rnd.random() < 0.4:
            s["nest"] = rnd.choice(inter)
    return s


def plain(text):
    """Without accents: these do not matter for queries."""
    return [c for c in unicodedata.normalize("NFD", text) if unicodedata.category(c) != "Mn"]


def letters():
    return {"s:" + n: plain(n) for n in NAMES}


def small(rnd):
    names, inter, ents, desc = federation(rnd, rnd.choice([2, 3, 4, 5, 6, 7]))
    lists, steps = [], []
    at = NOW
    for _ in range(rnd.choice([1, 2, 3, 4])):
        steps.append(step(rnd, names, inter, at))
        if rnd.random() < 0.5:
            at += rnd.choice([1, 60, 1800, 3599, 3600, 3601, 3602, 7000])
            if rnd.random() < 0.6:
                e = rnd.choice(inter)
                lists.append({"at": at - rnd.choice([0, 1]), "e": e, "list": rnd.sample(names, rnd.randint(0, len(names)))})
    return {"world": {"now": NOW, "ents": ents}, "letters": letters(), "lists": lists, "lat": rnd.choice([0, rnd.randint(1, 10 ** 6)]), "steps": steps,
            "desc": desc}


def large(rnd, kind):
    """More entities than there are workers: wide, deep, or both."""
    lists = {"TA": []}
    n = rnd.randint(129, 150)
    if kind == "wide":
        for i in range(n):
            lists["TA"].append("I%d" % i)
            lists["I%d" % i] = ["L%d" % i, "L%d" % rnd.randrange(n)]
            lists["L%d" % i] = None
    elif kind == "flat":
        for i in range(2 * n):
            lists["TA"].append("L%d" % i)
            lists["L%d" % i] = None
    elif kind == "deep":
        above = "TA"
        for i in range(n):
            lists[above].append("I%d" % i)
            above = "I%d" % i
            lists[above] = []
            if rnd.random() < 0.3:
                lists[above].append(rnd.choice(["TA", "I%d" % max(0, i - 2), above]))
        lists[above].append("L")
        lists["L"] = None
    else:  # everybody lists everybody
        names = ["I%d" % i for i in range(12)]
        for x in ["TA"] + names:
            lists[x] = ["TA"] + names
            rnd.shuffle(lists[x])
    ents = {}
    for i, (e, l) in enumerate(lists.items()):
        ec = stmt(rnd, i + 1, e, e, "kA", ["kA"])
        ec["exp"] = NOW + 20000
        t = OP if l is None else FE
        ec["types"], ec["md"] = [t], {t: {"organization_name": one("s:" + e)}}
        ec["listat"] = "" if l is None else e
        ents[e] = {"host": worlds.HOSTS[0], "resp": "ok", "ec": ec, "subs": {}, "listresp": "ok", "list": l or []}
    s = {"at": NOW, "coll": "simple", "n": rnd.choice([1, 2]), "shared": True, "hasClaims": False, "claims": [], "tas": [], "nest": "",
         "req": {"ta": "TA", "hasTypes": rnd.random() < 0.5, "types": [OP], "query": [], "filters": []}}
    return {"world": {"now": NOW, "ents": ents}, "letters": {}, "lists": [], "lat": rnd.choice([0, rnd.randint(1, 10 ** 6)]), "steps": [s], "desc": [kind]}


def collections(seed, n):
    rnd = random.Random("collect-%d" % seed)
    out = [small(rnd) for _ in range(n)]
    for i in range(max(8, n // 150)):
        out.insert(rnd.randrange(len(out)), large(rnd, ["wide", "flat", "deep", "clique"][i % 4]))
    return out
