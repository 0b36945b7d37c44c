"""Operations on lists of trust chains, in the vocabulary of spec/ChainOpsTrace.tla."""
import random

ANCHORS = ["A", "B", "A/", "a"]


def scenario(rnd):
    now = 100
    exps = [0, now + 1, now + 5, now + 50, now + 5000, now + 5001, now - 1, now - 40]
    contacts = ["p", "q", "r"]
    stmts = []
    for _ in range(rnd.randint(1, 3)):
        stmts.append({"iss": rnd.choice(["l", "l2"] + ANCHORS[:1]), "exp": rnd.choice(exps), "hasmd": rnd.random() < 0.85, "name": rnd.choice(["", "n", "m"]),
                      "contacts": rnd.sample(contacts, rnd.randint(0, 2)), "pname": "", "padd": [], "crit": False})
    leaves = len(stmts)
    for _ in range(rnd.randint(2, 7)):
        stmts.append({"iss": rnd.choice(ANCHORS + ["i", "j"]), "exp": rnd.choice(exps), "hasmd": False, "name": "", "contacts": [],
                      "pname": rnd.choice(["", "", "", "x", "y"]), "padd": rnd.sample(contacts, rnd.choice([0, 0, 1, 2])), "crit": rnd.random() < 0.06})
    ups = list(range(leaves + 1, len(stmts) + 1))
    chains, seen = [], set()
    for _ in range(rnd.choice([1, 2, 3, 5, 8, 20])):
        n = rnd.choice([0, 1, 2, 3, 3, 4, 4, 5, 5, 6, 8])
        c = ([rnd.randint(1, leaves)] + [rnd.choice(ups) for _ in range(n - 1)]) if n else []
        if c or () not in seen:
            chains.append(c)
            seen.add(tuple(c))
    init = list(range(1, len(chains) + 1))
    if rnd.random() < 0.2:
        init += [rnd.choice(init) for _ in range(rnd.randint(1, 3))]
        rnd.shuffle(init)
    elif rnd.random() < 0.05:
        init = []
    steps = []
    for j in range(rnd.randint(3, 12)):
        if rnd.random() < 0.2:
            now += rnd.choice([1, 1, 4, 45, 5000])
        op = rnd.choice(["look", "filter", "filter", "filter", "sort", "sort"])
        lists = 1 + sum(1 for s in steps if s["op"] != "look")
        s = {"t": now, "op": op, "src": rnd.choice([1, rnd.randint(1, lists), lists]), "fs": [], "score": "", "desc": False}
        if op == "filter":
            for _ in range(rnd.choice([0, 1, 1, 1, 2, 2, 3])):
                k = rnd.choice(["anchor", "anchor", "max", "max", "min", "valid", "long"])
                s["fs"].append({"kind": k, "anchor": rnd.choice(ANCHORS + ["Z"]) if k == "anchor" else "",
                                "n": rnd.choice([0, 0, 1, 2, 3, 9]) if k == "max" else rnd.randint(0, 6) if k == "long" else 0})
        elif op == "sort":
            s["score"] = rnd.choice(["path", "path", "len", "expiry", "flat", "neg"])
            s["desc"] = rnd.random() < 0.4
        steps.append(s)
    return {"stmts": stmts, "chains": chains, "init": init, "steps": steps}


def scenarios(seed, n):
    rnd = random.Random(seed * 7919 + 17)
    return [scenario(rnd) for _ in range(n)]
