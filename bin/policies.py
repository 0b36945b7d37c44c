"""Metadata with the policies of all superiors, in the vocabulary of spec/Policy.tla."""
import random

# where an abstract value can be placed: (entity type, claim)
LIST_PLACES = [("openid_provider", "contacts"), ("openid_provider", "x_l"), ("openid_relying_party", "grant_types"),
               ("openid_relying_party", "redirect_uris"), ("oauth_authorization_server", "contacts"), ("oauth_client", "contacts"),
               ("oauth_client", "response_types"), ("oauth_resource", "contacts"), ("federation_entity", "keywords"),
               ("federation_entity", "contacts"), ("custom_type", "x_l"), ("other_type", "contacts"),
               ("openid_provider", "grant_types_supported"), ("openid_provider", "acr_values_supported"),
               ("oauth_authorization_server", "scopes_supported")]
SCOPE_PLACES = [("openid_relying_party", "scope"), ("oauth_client", "scope")]
STR_PLACES = [("openid_provider", "organization_name"), ("openid_provider", "x_s"), ("openid_relying_party", "client_name"),
              ("openid_relying_party", "id_token_signed_response_alg"), ("oauth_authorization_server", "organization_name"),
              ("oauth_client", "token_endpoint_auth_method"), ("oauth_resource", "organization_name"),
              ("federation_entity", "organization_name"), ("federation_entity", "homepage_uri"), ("custom_type", "x_s"),
              ("other_type", "organization_name"), ("openid_provider", "issuer"), ("openid_provider", "jwks_uri")]
NUM_PLACES = [("openid_relying_party", "default_max_age"), ("oauth_client", "default_max_age"), ("custom_type", "x_n"),
              ("openid_provider", "x_n")]
BOOL_PLACES = [("openid_relying_party", "require_auth_time"), ("openid_provider", "claims_parameter_supported"), ("custom_type", "x_b"),
               ("openid_provider", "require_request_uri_registration")]
TYPES = ["openid_provider", "openid_relying_party", "oauth_authorization_server", "oauth_client", "oauth_resource", "federation_entity",
         "custom_type", "other_type"]
OPS_L = ["value", "add", "default", "one_of", "subset_of", "superset_of", "essential"]
OPS_S = ["value", "default", "one_of", "essential"]


def ren(v, kind):
    """Renames the atoms of an abstract value for a place of a kind."""
    m = {"str": {"s:a": "s:a", "s:b": "s:b"}, "num": {"s:a": "n:5", "s:b": "n:7"}, "bool": {"s:a": "b:true", "s:b": "b:false"}}[kind]
    return {"k": v["k"], "v": [m.get(x, x) for x in v["v"]]}


def placed(case, n):
    """Places a generated case (kind, es, val)."""
    if case["kind"] == "list":
        ps = [(p, "str") for p in LIST_PLACES + SCOPE_PLACES]
    else:
        ps = [(p, "str") for p in STR_PLACES] + [(p, "num") for p in NUM_PLACES] + [(p, "bool") for p in BOOL_PLACES]
    (t, c), kind = ps[n % len(ps)]
    if c == "scope" and not scope_ok(case["es"], case["val"]):
        t, c = "openid_provider", "contacts"
    md = {t: {}}
    if case["val"]["k"] != "absent":
        md[t][c] = ren(case["val"], kind)
    if n % 3 == 0:
        md[t]["contacts" if c != "contacts" else "x_l"] = {"k": "l", "v": ["s:other"]}
    if n % 5 == 0:
        md[TYPES[n % len(TYPES)] if TYPES[n % len(TYPES)] != t else "another_type"] = {"x_s": {"k": "s", "v": ["s:keep"]}}
    pols = []
    twice = (lambda op, v: {"k": "l", "v": v["v"] + v["v"][:1]} if n % 7 == 0 and op in ("add", "superset_of", "subset_of", "one_of")
             and c != "scope" else v)
    for e in case["es"]:
        e = {} if isinstance(e, list) else e
        pols.append({t: {c: {op: twice(op, ren(v, kind)) for op, v in e.items()}}})
    if n % 4 == 1:  # a superior without policy in between
        pols.insert(n % (len(pols) + 1), {})
    return {"md": md, "pols": pols or [{}], "crits": [[] for _ in (pols or [{}])], "types": [] if n % 3 else [t]}


def scope_ok(es, val):
    """Lists that can be joined into a scope and back."""
    def ok(v):
        return v["k"] in ("l", "absent", "s") and len(v["v"]) > 0
    for e in es:
        if isinstance(e, dict):
            if any(not ok(v) for op, v in e.items() if op != "essential"):
                return False
            if "value" in e or "default" in e or "one_of" in e:
                return False
    return val["k"] == "absent" or len(val["v"]) > 0


def val(rnd, shape, atoms, kinds="l"):
    if shape == "l":
        return {"k": "l", "v": rnd.sample(atoms, rnd.randint(0, min(3, len(atoms))))}
    return {"k": "s", "v": [rnd.choice(atoms)]}


def nonempty(rnd, atoms):
    return {"k": "l", "v": rnd.sample(atoms, rnd.randint(1, min(3, len(atoms))))}


def repeat(rnd, v):
    """Arrays may repeat an element."""
    if v["k"] == "l" and v["v"] and rnd.random() < 0.15:
        v = {"k": "l", "v": v["v"] + [rnd.choice(v["v"])]}
    return v


def entry(rnd, shape, atoms, scope, wild):
    ops = OPS_L if shape == "l" else OPS_S
    e = {}
    for op in rnd.sample(ops, rnd.choice([0, 1, 1, 1, 2, 2, 3])):
        if scope and op in ("value", "default", "one_of"):
            continue
        if op == "value":
            e[op] = {"k": "null", "v": []} if rnd.random() < 0.15 else val(rnd, shape, atoms)
        elif op == "default":
            e[op] = val(rnd, shape, atoms)
        elif op in ("add", "superset_of"):
            e[op] = {"k": "l", "v": rnd.sample(atoms, rnd.choice([1, 1, 2]) if len(atoms) > 1 else 1)}
        elif op in ("one_of", "subset_of"):
            if shape == "l" and op == "one_of":
                # a choice among single values; arrays are checked element-wise
                e[op] = nonempty(rnd, atoms)
            else:
                k = rnd.choice([1, 2, 2, 3, 3])
                e[op] = {"k": "l", "v": rnd.sample(atoms, min(k, len(atoms)))}
        else:
            e[op] = {"k": "s", "v": [rnd.choice(["b:true", "b:true", "b:false"])]}
    if not scope:
        e = {op: v if op in ("value", "default") else repeat(rnd, v) for op, v in e.items()}
    if rnd.random() < wild:
        e[rnd.choice(["regexp", "x_op", "intersects"])] = {"k": "s", "v": ["s:^a"]}
    return e


def places(rnd):
    r = rnd.random()
    if r < 0.45:
        return rnd.choice(LIST_PLACES), "l", ["s:a", "s:A", "s:ab", "s:b"]
    if r < 0.55:
        return rnd.choice(SCOPE_PLACES), "l", ["s:openid", "s:OpenID", "s:openid2"]
    if r < 0.85:
        return rnd.choice(STR_PLACES), "s", ["s:a", "s:A", "s:ab"]
    if r < 0.93:
        p = rnd.choice(NUM_PLACES)
        # claims the library has no integer for take any number
        return p, "s", rnd.choice([["n:5", "n:7", "n:0"], ["n:5", "n:5.5", "n:-1"], ["n:5000000000", "n:5", "n:-5"]]) if p[1] == "x_n" \
            else ["n:5", "n:7", "n:0"]
    return rnd.choice(BOOL_PLACES), "s", ["b:true", "b:false"]


def random_policy(rnd):
    n = rnd.choice([1, 1, 2, 2, 3, 4])
    md, pols = {}, [{} for _ in range(n)]
    for _ in range(rnd.choice([1, 1, 2, 3, 4])):
        (t, c), shape, atoms = places(rnd)
        scope = c == "scope"
        if t in md and c in md[t]:
            continue
        if rnd.random() < 0.9:
            md.setdefault(t, {})
            if rnd.random() < 0.8:
                v = val(rnd, shape, atoms)
                if scope and not v["v"]:
                    v = {"k": "l", "v": atoms[:1]}
                md[t][c] = v if scope else repeat(rnd, v)
        for p in pols:
            if rnd.random() < 0.7:
                p.setdefault(t, {})[c] = entry(rnd, shape, atoms, scope, 0.1)
    if not md:
        md["openid_provider"] = {"x_s": {"k": "s", "v": ["s:a"]}}
    # something no policy mentions
    if rnd.random() < 0.5:
        t = rnd.choice(TYPES)
        md.setdefault(t, {})["x_keep"] = rnd.choice([{"k": "s", "v": ["s:keep"]}, {"k": "l", "v": ["s:k1", "s:k2"]}, {"k": "s", "v": ["n:3"]}])
    crits = [[] for _ in pols]
    if rnd.random() < 0.12:
        crits[rnd.randrange(n)] = rnd.choice([["regexp"], ["subset_of"], ["value", "x_op"], ["intersects"], ["add", "one_of"]])
    types = []
    if rnd.random() < 0.5:
        types = rnd.sample(TYPES, rnd.choice([1, 1, 2]))
        if rnd.random() < 0.6:
            t = rnd.choice(sorted(md))
            types = [t] + [x for x in types if x != t]
    return {"md": md, "pols": pols, "crits": crits, "types": types}


def random_policies(seed, n):
    rnd = random.Random("policies-%d" % seed)
    return [random_policy(rnd) for _ in range(n)]
