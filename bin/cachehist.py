"""Histories of lookups through the statement cache, in the vocabulary of spec/StmtCache.tla."""
import random

LOCS = ["A>A", "B>B", "A>B", "B>A"]


def version(rnd, v, t, life, ok=True):
    iat = t - rnd.choice([0, 2, 4, life // 2])
    iat -= iat % 2
    exp = t + rnd.choice([life, life, life // 2, 1, -3, life * 2])
    exp += 1 - exp % 2
    if rnd.random() < 0.05:
        exp = 0
    if exp and exp <= iat:
        iat = exp - 5
    return {"v": v, "iat": iat, "exp": exp, "ok": ok, "how": "notfound"}


def history(rnd, n):
    locs = rnd.sample(LOCS, rnd.choice([1, 1, 2, 4]))
    life = rnd.choice([10, 40, 200, 4000, 100000])
    p = {"grace": 2 * rnd.choice([1, 3, life // 8 + 1, life // 3 + 1, life, 1800]), "factor": rnd.choice([25, 50, 50, 75]),
         "lat": rnd.choice([1, 1, 3, 7])}
    v = 0
    init = {}
    for l in locs:
        v += 1
        init[l] = version(rnd, v, 0, life)
        if rnd.random() < 0.1:
            init[l]["ok"] = False
    cur = {l: dict(init[l]) for l in locs}
    t, events, nid = 0, [], 0
    for _ in range(n):
        r = rnd.random()
        if r < 0.45:
            step = rnd.choice([0, 2, 2, 4, life // 10, life // 4, life // 2, life])
            t += step + step % 2
        l = rnd.choice(locs)
        if r > 0.85:
            if rnd.random() < 0.65:
                v += 1
                cur[l] = version(rnd, v, t, life)
            else:
                cur[l] = dict(cur[l], ok=not cur[l]["ok"], how=rnd.choice(["notfound", "servererror", "errjson", "garbage"]))
            # answers to requests from before and after never arrive at the same time
            t += 2
            events.append({"t": t, "op": "publish", "l": l, "id": 0, "ver": cur[l]})
        else:
            nid += 1
            events.append({"t": t, "op": "get", "l": l, "id": nid, "ver": {"v": 0, "iat": 0, "exp": 0, "ok": True, "how": ""}})
    return {"p": p, "redis": False, "locs": locs, "init": init, "events": events, "finish": t + 20}


def histories(seed, n, length):
    rnd = random.Random("cache-%d" % seed)
    out = [history(rnd, rnd.randint(3, length)) for _ in range(n)]
    for h in out[n * 2 // 3:]:
        h["redis"] = True
    return out
