"""Histories of what relying parties send to providers, in the vocabulary of spec/AuthTrace.tla."""
import json
import random
from urllib.parse import parse_qs, urlsplit

import collect
from issue import ALGS, canon
from worlds import NOW

SPECIAL = ["iss", "client_id", "sub", "client_secret", "jti", "exp", "iat", "redirect_uri", "state", "scope", "response_type", "aud"]
PLAIN = ["nonce", "prompt", "max_age", "x"]
VALUES = ["x", "", 0, 7, True, None, [], ["a", "b"], {"a": 1}, "https://evil.test/?a=b&c=<d>", "äö"]
AUTHZ = ["https://op.test/%s/authorize", "https://op.test/%s/authorize?tenant=a%%20b", "https://op.test:8443/%s/a?client_id=evil&x=1&x=2&request=old",
         "https://op.test/%s/authorize?scope=all&redirect_uri=https%%3A%%2F%%2Fevil.test"]
TOKEN = ["https://op.test/%s/token", "https://op.test/%s/token?tenant=1"]
FORM = ["grant_type", "code", "redirect_uri", "client_id", "client_secret", "client_assertion", "client_assertion_type", "resource", "code_verifier"]


def provider(rnd, e, urls):
    m = {}
    for c, choice, missing in (("issuer", ["https://op.test/%s"], 0.05), ("authorization_endpoint", AUTHZ, 0.08), ("token_endpoint", TOKEN, 0.08)):
        if rnd.random() < missing:
            continue
        u = rnd.choice(choice) % e
        urls.add(u)
        m[c] = collect.one("s:" + u)
    return m


def policy(rnd, a, urls):
    p = {}
    for c, choice in (("issuer", ["https://op.test/%s"]), ("authorization_endpoint", AUTHZ), ("token_endpoint", TOKEN)):
        if rnd.random() < 0.2:
            us = [rnd.choice(choice) % rnd.choice([a, "forced"]) for _ in range(2)]
            urls.update(us)
            op = rnd.choice(["value", "value", "default", "essential", "one_of"] if c != "issuer" else ["default", "essential", "value"])
            p[c] = {op: collect.one("b:true") if op == "essential" else collect.lst(sorted({"s:" + u for u in us})) if op == "one_of" else collect.one("s:" + us[0])}
    return p


def params(rnd, must):
    ps = {}
    if rnd.random() < must:
        ps["aud"] = rnd.choice(["https://op.test/1", "https://op.test/2", ["https://op.test/1"]])
    if rnd.random() < 0.5:
        for n in rnd.sample(SPECIAL, rnd.choice([1, 1, 2, 4])):
            if n != "aud":
                ps[n] = rnd.choice(VALUES + ["https://rp.test/2"])
    for n in PLAIN:
        if rnd.random() < 0.25:
            ps[n] = rnd.choice(VALUES)
    if "jti" in ps and rnd.random() < 0.6:
        del ps["jti"]
    return [{"n": n, "v": canon(v)} for n, v in ps.items()]


def values(rnd, names):
    vs = {n: [rnd.choice(["x", "", "a b&c", "https://evil.test/?a=b", "ä"]) for _ in range(rnd.choice([1, 1, 1, 2]))]
          for n in rnd.sample(names, rnd.choice([0, 1, 2, 4]))}
    if "jti" in vs and rnd.random() < 0.6:
        del vs["jti"]
    return [{"n": n, "v": v} for n, v in vs.items()]


def scenario(rnd):
    names, inter, ents, _ = collect.federation(rnd, rnd.choice([2, 3, 4, 5]))
    urls = set()
    for e in names:
        ec = ents[e]["ec"]
        if e not in inter and rnd.random() < 0.85 and collect.OP not in ec["types"]:
            ec["types"] = sorted(ec["types"] + [collect.OP])
            ec["md"][collect.OP] = {}
        if collect.OP in ec["types"]:
            ec["md"][collect.OP].update(provider(rnd, e, urls))
        for x in ents[e]["subs"].values():
            p = policy(rnd, e, urls)
            if p and rnd.random() < 0.7:
                x["stmt"]["mpol"].setdefault(collect.OP, {}).update(p)
    parties = []
    for i, key in enumerate(["issuer", "owner", "nobody"]):
        leaf = i < 2
        anchors = []
        if leaf:
            for a in ["TA"] * (rnd.random() < 0.9) + rnd.sample(inter, rnd.choice([0, 0, 1])):
                if a not in [x["id"] for x in anchors]:
                    pin = rnd.random() < 0.4
                    anchors.append({"id": a, "pin": pin, "keys": rnd.choice([["k" + a], ["k" + a], ["kX"], ["kX", "k" + a]]) if pin else []})
        parties.append({"id": "https://rp.test/%d" % (i + 1), "key": key, "alg": rnd.choice(ALGS), "leaf": leaf, "anchors": anchors,
                        "life": 60 if leaf else rnd.choice([1, 30, 60, 300, 86400])})
    maps = {}
    steps = []
    t = NOW
    ops = [e for e in names if collect.OP in ents[e]["ec"]["types"]]
    for _ in range(rnd.randint(4, 12)):
        if rnd.random() < 0.3:
            t = rnd.choice([x for x in (t + 1, t + 30, t + 61, NOW + 300, NOW + 302, NOW + 400) if x >= t])
        op = rnd.choice(["ro", "ro", "ca", "opmd", "url", "url", "url", "code", "code"] if rnd.random() < 0.95 else ["burst"])
        s = {"t": t, "op": op, "p": rnd.choice([1, 2, 3] if op in ("ro", "ca", "burst") else [1, 2]), "map": 0, "params": [], "isnil": False, "aud": "",
             "n": 0, "e": "", "redirect": "", "state": "", "scope": "", "vals": [], "code": "", "ans": ""}
        if op in ("ca", "burst"):
            s["aud"] = rnd.choice(["https://op.test/1", "https://op.test/1/token", ""])
        if op in ("ro", "burst"):
            s["params"] = params(rnd, 0.92 if op == "ro" else 1)
            if op == "burst":
                s["n"] = rnd.choice([2, 8])
                s["params"] = [p for p in s["params"] if p["n"] != "jti"]
            s["isnil"] = op == "ro" and rnd.random() < 0.04
        elif op in ("opmd", "url", "code"):
            s["e"] = rnd.choice(ops) if ops and rnd.random() < 0.85 else rnd.choice(names + ["Z"])
            s["redirect"] = rnd.choice(["https://rp.test/cb", "https://rp.test/cb?a=b&c=d", "https://rp.test/%20"])
            s["state"] = rnd.choice(["s1", "", "a&b=c"])
            s["scope"] = rnd.choice(["openid", "openid profile", ""])
            s["code"] = rnd.choice(["c0", "a b+c/="])
            s["ans"] = rnd.choice(["token", "token", "error", "garbage", "drop"])
            s["vals"] = values(rnd, SPECIAL + PLAIN if op == "url" else FORM)
        kind = "map" if op == "ro" else "vals"
        if op in ("ro", "url", "code") and not s["isnil"] and rnd.random() < 0.5:
            s["map"] = (1 if op == "ro" else 10) + rnd.choice([0, 1])
            if s["map"] in maps:
                s["params"], s["vals"] = maps[s["map"]]
            maps[s["map"]] = (s["params"], s["vals"])
        elif kind == "vals" and rnd.random() < 0.1:
            s["isnil"], s["vals"] = True, []
        if op == "url":
            s["params"] = [{"n": x["n"], "v": canon(x["v"][0] if len(x["v"]) == 1 else x["v"])} for x in s["vals"]]
        steps.append(s)
    return {"world": {"now": NOW, "ents": ents}, "parties": parties, "steps": steps,
            "urls": {"s:" + u: {"text": u, "base": u.split("?")[0], "query": parse_qs(urlsplit(u).query, keep_blank_values=True)} for u in sorted(urls)}}


def scenarios(seed, n):
    rnd = random.Random(seed * 15485863 + 11)
    return [scenario(rnd) for _ in range(n)]
