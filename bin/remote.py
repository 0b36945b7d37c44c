"""Histories of local and remote resolutions and collections, in the vocabulary of spec/RemoteTrace.tla."""
import random

import collect
from worlds import NOW

ERRORS = ["invalid_metadata", "invalid_metadata", "invalid_trust_chain", "invalid_trust_chain", "invalid_subject", "invalid_trust_anchor", "not_found",
          "server_error", "temporarily_unavailable", "made_up", "invalid_request"]
NOTHING = ["garbage", "badtyp", "badpayload", "plain404", "plain500", "drop", "errsuccess", "empty"]
CNOTHING = ["garbage", "null", "notjson", "error", "plain404", "plain500", "drop"]


def answer(rnd, positive):
    r = rnd.random()
    if r < positive:
        if rnd.random() < 0.15:
            return {"kind": "nomd", "code": "", "md": {}}
        ts = rnd.sample([collect.OP, collect.RP, "oauth_client"], rnd.choice([1, 1, 2]))
        return {"kind": "ok", "code": "", "md": {t: collect.metadata(rnd, "remote", t) for t in ts}}
    if rnd.random() < 0.5:
        return {"kind": "error", "code": rnd.choice(ERRORS), "md": {}}
    return {"kind": rnd.choice(NOTHING), "code": "", "md": {}}


def canswer(rnd, names, positive):
    if rnd.random() < positive:
        return {"kind": "ok", "ids": [rnd.choice(names + ["R1", "R2"]) for _ in range(rnd.choice([0, 1, 2, 4]))]}
    return {"kind": rnd.choice(CNOTHING), "ids": []}


def scenario(rnd):
    names, inter, ents, _ = collect.federation(rnd, rnd.choice([2, 3, 4, 5, 6]))
    for e in names:
        for st in [ents[e]["ec"]] + [x["stmt"] for x in ents[e]["subs"].values()]:
            st["resolveat"], st["collectat"] = "", ""
            if NOW < st["exp"] < NOW + 200:
                st["exp"] += 3000      # retries take time
    offer = rnd.choice([0.3, 0.7, 1])
    for e in inter:
        ec = ents[e]["ec"]
        if ec["iss"] == e and ec["sub"] == e and ec["sig"] == "ok" and ec["signer"] == "k" + e:
            other = rnd.choice(names)
            if rnd.random() < offer:
                ec["resolveat"] = e if rnd.random() < 0.8 else other
            if rnd.random() < offer:
                ec["collectat"] = e if rnd.random() < 0.8 else other
    if rnd.random() < 0.3:
        ents[rnd.choice(inter)]["resp"] = rnd.choice(["notfound", "garbage", "errjson"])
    positive = rnd.choice([0, 0.15, 0.4, 0.8])
    steps = []
    ans = {e: answer(rnd, positive) for e in names}
    cans = {e: canswer(rnd, names, positive) for e in names}
    for _ in range(rnd.randint(3, 10)):
        for e in names:
            if rnd.random() < 0.3:
                ans[e] = answer(rnd, positive)
            if rnd.random() < 0.3:
                cans[e] = canswer(rnd, names, positive)
        kind = rnd.choice(["local", "local", "simple", "smart", "smart", "smart", "smart"])
        how = rnd.choice(["resolve", "payload", "payload", "possible", "possible", "collect"])
        if how == "collect" and kind == "local":
            how = "payload"
        s = {"kind": kind, "how": how, "e": rnd.choice(names), "ans": dict(ans), "cans": dict(cans)}
        if how == "collect":
            has = rnd.random() < 0.4
            s["req"] = {"ta": rnd.choice(inter), "hasTypes": has, "types": rnd.sample([collect.OP, collect.RP, collect.FE], rnd.choice([1, 2])) if has else [],
                        "query": [], "claims": rnd.sample(["entity_types", "display_name"], rnd.choice([0, 0, 1, 2])),
                        "conf": rnd.sample(inter, rnd.randint(0, min(3, len(inter))))}
            if kind == "simple" and rnd.random() < 0.4:
                s["req"]["query"] = list("op&a =")[:rnd.randint(1, 6)]
        else:
            tas = rnd.sample(inter, rnd.choice([1, 1, 2, min(3, len(inter))]) if len(inter) > 1 else 1)
            if rnd.random() < 0.1:
                tas.insert(0, "Z")
            if "TA" not in tas and rnd.random() < 0.7:
                tas.append("TA")
            s["req"] = {"sub": rnd.choice(names[1:] + ["Z"] if rnd.random() < 0.1 else names[1:]), "tas": tas,
                        "types": rnd.sample(collect.KNOWN, rnd.choice([1, 2, 3])) if rnd.random() < 0.3 else []}
        steps.append(s)
    return {"world": {"now": NOW, "ents": ents}, "steps": steps}


def scenarios(seed, n):
    rnd = random.Random(seed * 104729 + 5)
    return [scenario(rnd) for _ in range(n)]
