"""Random documents with several signatures, in the vocabulary of spec/JwtTyping.tla."""
import random

PURPOSES = ["es", "tm", "td", "rr"]
TYPES = PURPOSES * 3 + ["no", "ro", "ca", "js", "er", "empty", "upper", "prefix", "space", "list"]


def random_documents(seed, n):
    rnd = random.Random("typing-%d" % seed)
    out = []
    for _ in range(n):
        k = rnd.choice([2, 3, 3, 4])
        main = rnd.choice(PURPOSES)
        sigs = [{"prot": main if rnd.random() < 0.6 else rnd.choice(TYPES), "unprot": rnd.choice(PURPOSES + ["no"] * 3),
                 "signer": rnd.choice(["own", "own", "other"])} for _ in range(k)]
        out.append({"ser": "general", "sigs": sigs, "from": "handmade"})
    return out
