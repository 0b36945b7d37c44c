"""Histories of requests for an own trust mark, in the vocabulary of spec/TrustMarkRefresh.tla."""
import random

KINDS = ["ok"] * 6 + ["late"] * 3 + ["wrongtyp", "notfound", "errjson", "broken", "garbage", "empty"]


def histories(seed, n):
    rnd = random.Random("refresh-%d" % seed)
    out = []
    for _ in range(n):
        start = rnd.choice([0, 1000])
        kind = rnd.choice(["remote"] * 5 + ["own", "self", "self"])
        if rnd.random() < 0.2:
            mn, gr, explicit = 10, 3600, False
        else:
            mn, gr = rnd.choice([(10, 200), (5, 40), (30, 100), (10, 3600), (120, 300), (50, 20)])
            explicit = True
        refresh = True
        init = {"id": 0, "exp": 0}
        lives = [gr + rnd.randint(1, 2 * gr), mn + rnd.randint(1, max(1, gr - mn - 1)) if gr > mn + 1 else mn + 5, mn + rnd.randint(1, 30), max(1, mn - rnd.randint(1, mn)), 0,
                 gr + mn + 100]
        if kind == "remote" and rnd.random() < 0.5:
            # given initially
            refresh = rnd.random() < 0.75
            init = {"id": 1, "exp": rnd.choice([0, start + rnd.choice(lives), start + rnd.choice(lives), start - 5])}
        # a mark given initially whose issuer and type are taken from it
        t = start
        issuer = [{"from": -100, "kind": rnd.choice(KINDS), "ec": rnd.choice(["ok"] * 8 + ["bad"]), "life": rnd.choice([x for x in lives if x != mn]),
                   "lat": rnd.choice([1, 7, 20, 59, 61, 130])}]
        steps = []
        for _ in range(rnd.randint(4, 14)):
            t += rnd.choice([0, 1, 2, 5, 20, 30, 58, 59, 60, 61, 62, 120, rnd.randint(1, max(2, gr)), rnd.choice([x for x in lives if x > 0])])
            if rnd.random() < 0.35:
                issuer.append({"from": t - rnd.choice([0, 1]), "kind": rnd.choice(KINDS), "ec": rnd.choice(["ok"] * 8 + ["bad"]),
                               "life": rnd.choice([x for x in lives if x != mn]), "lat": rnd.choice([1, 7, 20, 59, 61, 130])})
            if steps and steps[-1]["t"] == t:
                steps[-1]["n"] += 1
                continue
            steps.append({"t": t, "n": rnd.choice([1, 1, 1, 2, 4]), "api": rnd.choice(["direct", "config"])})
        out.append({"start": start, "kind": kind, "explicit": explicit, "selflife": rnd.choice([x for x in lives if x != mn]), "issuer": issuer,
                    "steps": steps,
                    "p": {"min": mn, "grace": gr, "minute": 60, "refresh": refresh, "init": init, "observable": kind != "self"}})
    return out
