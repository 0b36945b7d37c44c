"""Histories of issuing and verifying documents, in the vocabulary of spec/IssuanceTrace.tla; times in half seconds.
In all strings, @ stands for the prefix of the identifiers of the scenario."""
import json
import random

ALGS = ["ES256"] * 6 + ["ES384", "ES512", "PS256", "RS256", "EdDSA", "RS512"]
DEFAULT = 2 * 86400


def canon(o):
    return json.dumps(o, sort_keys=True, separators=(",", ":"), ensure_ascii=False)


VALUES = ["x", "", 0, 1, 17, 2.5, True, False, None, [], ["a", "b"], {"a": 1}, {}, [{"b": [1, "c"]}], "http://x/?a=b&c=<d>", "äöü"]


def extra(rnd, names=("custom", "x_claim", "vendor:thing", "nbf", "jti", "$ref")):
    return [{"n": n, "v": canon(rnd.choice(VALUES))} for n in names if rnd.random() < 0.25]


def spec(rnd, typ, lives):
    return {"type": typ, "life": rnd.choice(lives), "ref": rnd.choice(["", "https://ref/1"]), "logo": rnd.choice(["", "https://logo"]),
            "delegation": 0, "extra": extra(rnd), "inInfo": rnd.random() < 0.4, "via": rnd.choice(["struct", "json", "yaml"])}


def deleg_spec(rnd, typ, lives):
    return {"type": typ, "life": rnd.choice(lives), "ref": rnd.choice(["", "https://ref/2"]), "extra": extra(rnd)}


MD = [{"openid_relying_party": {"client_name": "n", "redirect_uris": ["https://r"], "client_registration_types": ["automatic"]}}, {"oauth_client": {"scope": "a b", "client_registration_types": []}}, {}]


def claims(rnd, kind, ta):
    c = []
    md = dict(rnd.choice(MD))
    if ta:
        md["federation_entity"] = {"federation_fetch_endpoint": "@%s/fetch" % ta}
    if ta or rnd.random() < 0.8:
        c.append({"n": "metadata", "v": canon(md)})
    if kind == "ec" and rnd.random() < 0.4:
        c.append({"n": "trust_mark_issuers", "v": canon({"@t1": ["@i"]})})
    c += extra(rnd, ("custom", "x_claim", "nbf"))
    return c


def history(rnd):
    start = rnd.choice([0, 0, 101, 5000])
    lives = [0, 0, 1, 3, 20, 100, rnd.randint(1, 400), 7200, 100000]
    mtypes = ["@t1", "@t2", "@t3"]
    marks = [spec(rnd, ty, lives) for ty in mtypes if rnd.random() < 0.6]
    delegs = [deleg_spec(rnd, ty, lives) for ty in mtypes if rnd.random() < 0.7]
    sc = {"alg": rnd.choice(ALGS), "issuer": "@i", "owner": "@o", "marks": marks, "delegs": delegs, "steps": []}
    docs = []     # (kind, iat, exp or None, delegation)
    cm = {m["type"]: m for m in marks}
    cd = {d["type"]: d for d in delegs}
    t = start
    feds = []
    steps = sc["steps"]

    def over():
        return [] if rnd.random() < 0.5 else [rnd.choice(lives)]

    def exp(s, o):
        life = o[0] if o else s["life"]
        return None if life == 0 else t + life

    for _ in range(rnd.randint(8, 26)):
        if sc["alg"][0] in "RP" or sc["alg"] == "EdDSA":
            t += 1     # the signatures may be deterministic: no two identical documents
        if rnd.random() < 0.5:
            t += rnd.choice([0, 1, 2, 3, 10, 50, 200])
        if docs and rnd.random() < 0.5:
            # close to the end of some lifetime
            ends = sorted({d["exp"] + e for d in docs if d["exp"] is not None for e in (-1, 0, 1) if d["exp"] + e >= t})
            if ends:
                t = rnd.choice(ends[:6])
        r = rnd.random()
        if r < 0.06:
            s = spec(rnd, rnd.choice(mtypes), lives)
            tds = [i for i, d in enumerate(docs) if d["kind"] == "td"]
            if tds and rnd.random() < 0.8:
                s["delegation"] = 1 + rnd.choice(tds)
                if rnd.random() < 0.8:
                    s["type"] = docs[s["delegation"] - 1]["type"]
            cm[s["type"]] = s
            steps.append({"t": t, "op": "addmark", "spec": s})
        elif r < 0.1:
            s = deleg_spec(rnd, rnd.choice(mtypes), lives)
            cd[s["type"]] = s
            steps.append({"t": t, "op": "adddeleg", "spec": s})
        elif r < 0.12:
            steps.append({"t": t, "op": "types"})
        elif r < 0.26:
            ty, o = rnd.choice(mtypes), over()
            steps.append({"t": t, "op": "mark", "type": ty, "sub": rnd.choice(["@s", "@u"]), "over": o})
            if ty in cm:
                docs.append({"kind": "tm", "exp": exp(cm[ty], o), "type": ty, "deleg": cm[ty]["delegation"]})
        elif r < 0.36:
            ty, o = rnd.choice(mtypes), over()
            steps.append({"t": t, "op": "deleg", "type": ty, "sub": rnd.choice(["@i", "@i", "@i", "@u"]), "over": o})
            if ty in cd:
                docs.append({"kind": "td", "exp": exp(cd[ty], o), "type": ty})
                if rnd.random() < 0.7:
                    s = spec(rnd, ty, lives)
                    s["delegation"] = len(docs)
                    cm[ty] = s
                    steps.append({"t": t, "op": "addmark", "spec": s})
                    o = over()
                    steps.append({"t": t, "op": "mark", "type": ty, "sub": "@s", "over": o})
                    docs.append({"kind": "tm", "exp": exp(s, o), "type": ty, "deleg": len(docs)})
        elif r < 0.44 and len(feds) < 3:
            # a federation of two entities: configurations and a statement
            k = len(feds)
            a, l = "a%d" % k, "l%d" % k
            first = len(docs) + 1
            for kind, iss, sub in rnd.sample([("ec", a, a), ("ec", l, l), ("es", a, l)], 3):
                life = rnd.choice([2, 4, 20, 100, 2 * rnd.randint(1, 200), 7200, DEFAULT] + ([0, -4] if kind == "ec" else [1, 31]))
                c = claims(rnd, kind, a if kind == "ec" and iss == a else "")
                if kind == "ec" and iss == l:
                    c.append({"n": "authority_hints", "v": canon(["@" + a])})
                    if not any(x["n"] == "metadata" for x in c):
                        c.append({"n": "metadata", "v": canon({"oauth_client": {"scope": "a b", "client_registration_types": []}})})
                c.append({"n": "jwks", "v": "key:" + (iss if kind == "ec" else l)})
                steps.append({"t": t, "op": kind, "iss": "@" + iss, "key": iss, "sub": "@" + sub, "life": life, "c": c})
                real = (DEFAULT if life <= 0 else life) if kind == "ec" else life
                docs.append({"kind": kind, "exp": t + real, "iss": iss})
                if rnd.random() < 0.3:
                    t += rnd.choice([1, 2, 7])
            ids = {(d["kind"], d["iss"]): first + i for i, d in enumerate(docs[first - 1:])}
            feds.append({"ec": ids["ec", l], "es": ids["es", a], "ta": ids["ec", a], "start": "@" + l, "anchor": "@" + a})
        elif r < 0.5:
            life = rnd.choice([2, 20, 100])
            steps.append({"t": t, "op": "rr", "iss": "@r", "key": "r", "sub": "@s", "life": life,
                          "c": claims(rnd, "rr", "") + ([{"n": "aud", "v": canon("@v")}] if rnd.random() < 0.3 else [])})
            docs.append({"kind": "rr", "exp": t + life})
        elif r < 0.62 and feds:
            steps.append(dict(rnd.choice(feds), t=t, op="chain"))
        elif docs:
            # rather the ones that are about to expire
            near = [i for i, d in enumerate(docs) if d["exp"] is not None and abs(d["exp"] - t) <= 1]
            i = rnd.choice(near) if near and rnd.random() < 0.7 else rnd.randrange(len(docs))
            d = docs[i]
            how = {"tm": ["external", "info", "owner", "federation", "fedowner", "otherowner", "ownerkeys"], "td": ["external", "federation"],
                   "ec": ["external"], "es": ["external"], "rr": ["parse"]}[d["kind"]]
            if d["kind"] == "tm" and d["deleg"]:
                how = ["owner", "owner", "fedowner", "fedowner"] + how
            steps.append({"t": t, "op": "check", "doc": i + 1, "how": rnd.choice(how), "keys": "wrong" if rnd.random() < 0.12 else "right"})
    return sc


def histories(seed, n):
    rnd = random.Random("issue-%d" % seed)
    return [history(rnd) for _ in range(n)]
