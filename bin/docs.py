"""Documents with any subset of claims, in the vocabulary of spec/DocumentsTrace.tla."""
import json
import random

import vlib

ENTITY = ["federation_entity", "openid_relying_party", "openid_provider", "oauth_authorization_server", "oauth_client", "oauth_resource"]
NESTED = {"metadata": "metadata", "policies": "metadata_policy", "constraints": "constraints", "naming": "naming"}
MANDATORY = {
    "statement": ["iss", "sub", "iat", "exp", "jwks"], "trust_mark": ["iss", "sub", "iat", "trust_mark_type"],
    "delegation": ["iss", "sub", "iat", "trust_mark_type"], "info": ["trust_mark_type", "trust_mark"],
    "resolve_response": ["iss", "sub", "iat", "exp"], "owner": ["sub", "jwks"],
    "collected_entity": ["entity_id"], "collection_response": ["federation_entities"],
}
CLOSED = {"constraints", "naming", "owner"}
UNKNOWN = ["x_unknown", "äöü", "", "-", "Extra", "wasSet", "a.b/c", "x\"y", "__proto__", "x_<b>&c"]
STEPS = {
    "statement": ["json", "fields", "build", "sign", "parse", "cache"],
    "metadata": ["json", "fields", "build", "msgpack", "cache", "nopolicy", "twice", "lookup", "lookup-typed", "iterate"],
    "metadata_policy": ["json", "fields", "build"],
    "constraints": ["json", "fields", "build"],
    "naming": ["json", "fields", "build"],
    "trust_mark": ["json", "fields", "build", "sign", "parse"],
    "delegation": ["json", "fields", "build", "sign"],
    "info": ["json", "fields", "build"],
    "spec": ["json", "fields", "build", "yaml"],
    "owner": ["json", "fields", "build", "yaml"],
    "resolve_response": ["json", "fields", "build", "sign", "parse"],
    "ui_info": ["json", "fields", "build", "twice"],
    "collected_entity": ["json", "fields", "build", "twice"],
    "collection_response": ["json", "fields", "build", "twice"],
    "single": ["json", "yaml"],
}
STEPS.update({e: ["json", "fields", "build", "msgpack", "cache", "twice"] for e in ENTITY})
WEIGHTS = {"statement": 6, "metadata": 6, "metadata_policy": 3, "resolve_response": 2, "openid_provider": 3, "openid_relying_party": 3}


def canon(v):
    if isinstance(v, float) and v == int(v):
        v = int(v)
    if isinstance(v, dict):
        return "{" + ",".join(json.dumps(k, ensure_ascii=False) + ":" + canon(v[k]) for k in sorted(v)) + "}"
    if isinstance(v, list):
        return "[" + ",".join(canon(x) for x in v) + "]"
    return json.dumps(v, ensure_ascii=False)


def leaves(v, path=()):
    """The document as the specification sees it."""
    if isinstance(v, dict):
        r = [{"p": list(path), "v": "{}"}]
        for k, x in v.items():
            r += leaves(x, path + (k,))
        return r
    return [{"p": list(path), "v": canon(v)}]


class Table:
    def __init__(self, lines):
        self.claims = {}   # type -> claim -> (field, kind, values)
        for l in lines:
            f, k, vs = self.claims.setdefault(l["type"], {}).setdefault(l["name"], (l["field"], l["kind"], []))
            if l["value"]:
                vs.append(json.loads(l["value"]))
        self.unknown = self.claims.pop("any")[""][2]
        for t in self.claims.values():
            for _, _, vs in t.values():
                vs.sort(key=canon)

    def fields(self, t):
        return {n: f for n, (f, _, _) in self.claims[t].items()}

    def value(self, rnd, t, n):
        _, kind, vs = self.claims[t][n]
        if kind == "entity":
            return self.doc(rnd, n, rnd.choice([0, 1, 2, 5]))
        if kind in NESTED:
            return self.doc(rnd, NESTED[kind], rnd.choice([0, 1, 1, 2, 3]))
        if n in MANDATORY.get(t, []):
            vs = [v for v in vs if v != ""]
        if kind == "str" and rnd.random() < 0.1:
            return rnd.choice(["ä\u2028\u0000\U0001f600", "a\\b\"c\n", " ", "<script>"])
        return rnd.choice(vs)

    def doc(self, rnd, t, size, null=0.04, unknown=0.4):
        names = list(self.claims[t])
        pick = set(rnd.sample(names, min(len(names), size))) | set(MANDATORY.get(t, []))
        d = {}
        for n in names:
            if n in pick:
                d[n] = None if n not in MANDATORY.get(t, []) and rnd.random() < null else self.value(rnd, t, n)
        if t == "metadata_policy":
            if rnd.random() < 0.3:
                d["x_type"] = rnd.choice(self.claims[t]["openid_provider"][2])
        elif t == "metadata":
            if rnd.random() < 0.3:
                d["x_type"] = rnd.choice([{}, {"a": 1, "b": [], "c": None, "d": {"e": False}}, {"issuer": ""}])
        elif t not in CLOSED and rnd.random() < unknown:
            for n in rnd.sample(UNKNOWN + [x for n in rnd.sample(names, min(2, len(names))) for x in (n.upper(), n.title(), n + "_", n + "#de")], rnd.choice([1, 1, 2, 4])):
                d[n] = rnd.choice(self.unknown)
        l = list(d.items())
        rnd.shuffle(l)
        return dict(l)


def scenarios(seed, count, work):
    tab = Table(vlib.generate(work, "GenDocuments"))
    rnd = random.Random(seed * 7919 + 24)
    out = []

    def add(t, d):
        out.append({"type": t, "text": json.dumps(d, ensure_ascii=rnd.random() < 0.5), "ops": STEPS[t], "fields": tab.fields(t) if t in tab.claims else {}})

    for v in ["x", "", [], ["x"], ["x", "y"], [""], ["x", "x"]]:
        add("single", v)
    # each claim alone with each of its values
    for t, claims in sorted(tab.claims.items()):
        base = {n: next(v for v in claims[n][2] if v != "") for n in MANDATORY.get(t, [])}
        for n, (_, kind, vs) in claims.items():
            for v in vs:
                if not (n in base and v == ""):
                    add(t, dict(base, **{n: v}))
            if n not in base:
                add(t, dict(base, **{n: None}))
        if t not in CLOSED and t not in ("metadata", "metadata_policy"):
            for v in tab.unknown:
                add(t, dict(base, x_unknown=v))
    types = sorted(STEPS)
    types.remove("single")
    for _ in range(count):
        t = rnd.choices(types, [WEIGHTS.get(x, 1) for x in types])[0]
        add(t, tab.doc(rnd, t, rnd.choice([1, 2, 3, 5, 8, 100])))
    return out
