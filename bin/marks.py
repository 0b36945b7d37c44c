"""Random federations with trust marks in the vocabulary of spec/TrustMarks.tla."""
import copy
import random

import worlds
from worlds import NOCON, NOW

MT = ["t1", "t2", "t3"]
SIGS = ["kidspoof", "tampered", "none", "hmac", "jwkheader"]
NODEL = {"kind": "none", "iss": "", "sub": "", "type": "", "iat": 0, "exp": 0, "signer": "", "sig": "", "typ": ""}


def federation(rnd):
    """TA; IA below it; issuers I and J, subjects S and T, an outsider X that might or might not be a member."""
    names = ["TA", "IA", "I", "J", "S", "T", "X"]
    sup = {"TA": [], "IA": ["TA"], "I": [rnd.choice(["TA", "IA"])], "J": [rnd.choice(["TA", "IA"])], "S": [rnd.choice(["TA", "IA"])],
           "T": rnd.choice([["TA"], ["IA"], ["IA", "TA"]]), "X": rnd.choice([[], [], ["TA"], ["IA"]])}
    if rnd.random() < 0.1:
        sup["I"] = ["IA", "TA"]
    sid = [0]

    def nsid():
        sid[0] += 1
        return sid[0]

    def st(iss, sub, signer, keys):
        return {"sid": nsid(), "iss": iss, "sub": sub, "iat": NOW - rnd.choice([99, 500]), "exp": NOW + rnd.choice([101, 4000]), "keys": keys,
                "signer": signer, "sig": "ok", "typ": "es", "hints": [], "types": [], "fetch": "", "con": dict(NOCON), "pol": "none",
                "tmi": [], "tmo": [], "marks": []}
    ents = {}
    for e in names:
        ec = st(e, e, "k" + e, ["k" + e])
        ec["hints"] = sup[e]
        ec["types"] = ["federation_entity"] + rnd.sample(["openid_provider", "openid_relying_party"], rnd.choice([0, 1]))
        ec["fetch"] = e
        ec["listat"] = e
        ents[e] = {"host": rnd.choice(worlds.HOSTS), "resp": "ok", "ec": ec, "subs": {}, "list": []}
    for e in names:
        for a in sup[e]:
            ents[a]["subs"][e] = {"resp": "ok", "stmt": st(a, e, "k" + a, ["k" + e])}
            ents[a]["list"].append(e)
    desc = []
    if rnd.random() < 0.15:
        # the issuer or the anchor rolled over its keys
        e = rnd.choice(["I", "J", "TA"])
        ents[e]["ec"]["keys"] = rnd.choice([["k%s2" % e, "k" + e], ["k%s2" % e]])
        if len(ents[e]["ec"]["keys"]) == 1:
            ents[e]["ec"]["signer"] = "k%s2" % e
            for a in sup[e]:
                ents[a]["subs"][e]["stmt"]["keys"] = ["k%s2" % e]
            for s in ents[e]["subs"].values():
                s["stmt"]["signer"] = "k%s2" % e
        desc.append(["rollover", e])
    pos = [("ec", e, e) for e in names if e != "TA"] + [("sub", a, e) for e in names for a in sup[e]]
    for _ in range(rnd.choice([0, 0, 0, 1, 1, 2])):
        p = rnd.choice(pos)
        o = ents[p[1]]
        k = worlds.defect(rnd, names, p[1], o["ec"], o, True) if p[0] == "ec" else \
            worlds.defect(rnd, names, p[2], o["subs"][p[2]]["stmt"], o["subs"][p[2]], False)
        desc.append(list(p) + [k])
    return names, {"now": NOW, "ents": ents}, desc


def rnd_times(rnd, x):
    x["iat"] = NOW - rnd.choice([1, 50, 900])
    x["exp"] = NOW + rnd.choice([0, 1, 40, 60, 5000]) if rnd.random() < 0.8 else 0


def mark(rnd, mid, names, tmo):
    iss = rnd.choice(["I", "I", "J", "TA", "X"])
    typ = rnd.choice(MT)
    m = {"mid": mid, "iss": iss, "sub": rnd.choice(["S", "S", "T", "I", "J"]), "type": typ, "signer": "k" + iss, "sig": "ok", "typ": "tm"}
    rnd_times(rnd, m)
    own = [o for o in tmo if o["type"] == typ]
    if own and rnd.random() < 0.95 or rnd.random() < 0.1:
        o = own[0] if own else {"id": "O", "keys": ["kO"]}
        d = {"kind": "jwt", "iss": o["id"], "sub": iss, "type": typ, "signer": o["keys"][0] if o["keys"] else "kO", "sig": "ok", "typ": "td"}
        rnd_times(rnd, d)
        m["del"] = d
    else:
        m["del"] = dict(NODEL)
    desc = []
    for _ in range(rnd.choice([0, 0, 0, 1, 1, 2])):
        k = rnd.choice(["iss", "sub", "type", "iat", "exp", "edge", "signer", "sig", "typ", "rolled", "stolen"] +
                       (["diss", "dsub", "dtype", "diat", "dexp", "dedge", "dsigner", "dsig", "dtyp", "dgarbage", "dnone", "dself", "dmark"] * 2
                        if m["del"]["kind"] == "jwt" else []))
        desc.append(k)
        x = m
        if k.startswith("d"):
            x, k = m["del"], k[1:]
        if k in ("iss", "sub"):
            x[k] = rnd.choice(names + ["O", "Z"])
        elif k == "type":
            x[k] = rnd.choice(MT)
        elif k == "iat":
            x["iat"] = NOW + rnd.choice([1, 2, 30, 55, 5000])
        elif k == "exp":
            x["exp"] = NOW - rnd.choice([1, 2, 50])
        elif k == "edge":
            x["iat"] = rnd.choice([NOW, x["iat"], NOW + 50])
            x["exp"] = rnd.choice([NOW, NOW + 1, NOW + 49, NOW + 50, NOW + 51, x["exp"]])
        elif k == "signer":
            x["signer"] = "k" + rnd.choice(names + ["O", "Z"])
        elif k == "rolled":
            x["signer"] += "2"
        elif k == "sig":
            x["sig"] = rnd.choice(SIGS)
        elif k == "typ":
            x["typ"] = rnd.choice(["es", "td", "tm", "no", "rr", "trust-mark"])
        elif k == "stolen":
            # somebody pretends to be the issuer
            m["signer"] = "kX"
        elif k == "garbage":
            m["del"] = dict(NODEL, kind="garbage")
            break
        elif k == "none":
            m["del"] = dict(NODEL)
            break
        elif k == "self":
            x["signer"] = m["signer"]
        elif k == "mark":
            # the owner's delegation is for something else
            x["sub"] = m["sub"]
    return m, desc


def random_marks(seed, n):
    rnd = random.Random("marks-%d" % seed)
    out = []
    for _ in range(n):
        names, w, desc = federation(rnd)
        tmi, tmo = [], []
        for t in MT:
            if rnd.random() < 0.5:
                tmi.append({"type": t, "ids": rnd.choice([["I"], ["I", "J"], ["J", "TA"], ["I", "X"], ["TA"], ["I", "J", "TA", "X"], []])})
            if rnd.random() < 0.5:
                o = rnd.choice(["O", "O", "I", "TA"])
                tmo.append({"type": t, "id": o, "keys": rnd.choice([["k" + o], ["k" + o], ["kX", "k" + o], ["k%s2" % o]])})
        ta = w["ents"]["TA"]["ec"]
        ta["tmi"], ta["tmo"] = tmi, tmo
        if rnd.random() < 0.2:
            # an intermediate's rules do not count
            w["ents"]["IA"]["ec"]["tmi"] = [{"type": t, "ids": rnd.choice([[], ["X"]])} for t in MT]
            w["ents"]["IA"]["ec"]["tmo"] = [{"type": "t1", "id": "X", "keys": ["kX"]}]
        items, ext = [], []
        marks = []
        for mid in range(1, rnd.choice([3, 4, 5, 6]) + 1):
            m, d = mark(rnd, mid, names, tmo)
            marks.append(m)
            desc.append(d)
        for m in marks:
            holders = [m["sub"]] if rnd.random() < 0.75 and m["sub"] in names else [rnd.choice(["S", "T", "I"])]
            if rnd.random() < 0.25:
                holders.append(rnd.choice(["S", "T", "J", "IA"]))
            for e in sorted(set(holders), key=holders.index):
                info = m["type"] if rnd.random() < 0.9 else rnd.choice(MT)
                items.append({"e": e, "info": info, "mark": m})
        rnd.shuffle(items)
        for p in items:
            w["ents"][p["e"]]["ec"]["marks"].append({"info": p["info"], "mark": copy.deepcopy(p["mark"])})
            own = [dict(o) for o in tmo if o["type"] == p["mark"]["type"]]
            if rnd.random() < 0.2:
                own = rnd.choice([[], [{"type": p["mark"]["type"], "id": "O", "keys": ["kO"]}]])
            ext.append({"keys": rnd.choice([["k" + p["mark"]["iss"]], ["k" + p["mark"]["iss"]], ["kX", p["mark"]["signer"]], ["kX"], []]),
                        "owners": own})
        types = rnd.choice([["t1"], ["t2"], ["t1", "t2"], ["t3", "t1"]])
        out.append({"world": w, "ta": "TA", "items": items, "ext": ext, "types": types, "nows": [NOW, NOW + 50], "smart": rnd.random() < 0.3,
                    "desc": desc})
    return out
