"""Histories of resolutions in one federation."""
import random

import worlds


def variants(rnd, w, base):
    names = sorted(w["ents"])
    reqs = [base]
    for _ in range(rnd.choice([1, 2, 3])):
        r = {"start": base["start"], "types": list(base["types"]), "anchors": [dict(a) for a in base["anchors"]]}
        for k in rnd.sample(["start", "types", "pin", "anchors", "order"], rnd.choice([1, 1, 2])):
            if k == "start":
                r["start"] = rnd.choice(names)
            elif k == "types":
                r["types"] = rnd.choice([[], rnd.sample(worlds.TYPES, 1), rnd.sample(worlds.TYPES, 2), ["openid_provider"]])
            elif k == "pin":
                a = rnd.choice(r["anchors"])
                a["pin"] = not a["pin"]
                a["keys"] = (["k" + a["id"]] if rnd.random() < 0.6 else ["kX"]) if a["pin"] else []
            elif k == "anchors":
                i = rnd.choice(names)
                if i not in [a["id"] for a in r["anchors"]]:
                    r["anchors"] = (r["anchors"] if rnd.random() < 0.5 else []) + [{"id": i, "pin": False, "keys": []}]
            else:
                rnd.shuffle(r["anchors"])
        reqs.append(r)
    return reqs


def history(rnd, par):
    sc = worlds.random_world(rnd, 6)
    w = sc["world"]
    reqs = variants(rnd, w, sc["req"])
    now = w["now"]
    steps = []
    for i in range(rnd.choice([3, 4, 5, 6])):
        if i and rnd.random() < (0.25 if par else 0.35):
            now = rnd.choice([x for x in (now + 1, now + 2, worlds.NOW + 49, worlds.NOW + 50, worlds.NOW + 99, worlds.NOW + 101, worlds.NOW + 102,
                                          worlds.NOW + 3900, worlds.NOW + 4001, worlds.NOW + 5000) if x > now])
        steps.append({"now": now, "req": rnd.choice(reqs)})
    return {"world": w, "par": par, "redis": False, "steps": steps}


def histories(seed, n, par=False):
    rnd = random.Random("history-%d-%s" % (seed, par))
    out = [history(rnd, par) for _ in range(n)]
    for h in out[n * 3 // 4:]:
        h["redis"] = True
    return out
