"""The families of scenarios: how they are made, which harness test runs them, which trace specification judges them."""
import json
import os
import random

import auth
import cachehist
import chainops
import collect
import docs
import histories
import issue
import marks
import policies
import refresh
import remote
import typing_docs
import vlib
import worlds


class Family:
    name = ""
    test = ""          # test function of the harness
    module = ""        # trace specification
    race = False       # whether to build with the race detector
    chunk = 700
    race_props = ()
    retries = 1        # how often a failing scenario is re-run to confirm
    default_prop = None  # property violated if a record is not accepted without a FAIL report
    procs = None
    hang = vlib.HANG   # seconds without progress after which a scenario counts as hanging

    def scenarios(self, tier, seed, work):
        raise NotImplementedError

    def record(self, sc, res):
        """What the trace specification gets to see."""
        r = dict(sc)
        r["obs"] = res
        return r

    def crashed(self, sc, what):
        """The observation for a scenario during which the process died."""
        raise NotImplementedError

    def measure(self, scs, infos):
        """(number of non-trivial cases, rule)"""
        return len(scs), "every scenario"


class Chains(Family):
    name = "chains"
    test = "TestChains"
    module = "ChainTrace"

    def scenarios(self, tier, seed, work):
        every, n, maxn = (120, 3000, 7) if tier == "quick" else (12, 40000, 8)
        scs = vlib.generate(work, "GenResolver", {"PAIR_EVERY": str(every), "PAIR_OFF": str(seed)})
        return scs + worlds.random_worlds(seed, n, maxn)

    def crashed(self, sc, what):
        return {"chains": [], "trusted": [], "log": [], "panic": what, "possible": ""}

    def measure(self, scs, infos):
        n = sum(1 for v in infos.values() if v[1] > 0)
        return n, "federations in which at least one path from the subject to an anchor passes all checks but those of signatures"


class Policy(Family):
    name = "policy"
    test = "TestPolicy"
    module = "PolicyTrace"

    def scenarios(self, tier, seed, work):
        every, n = (60, 3000) if tier == "quick" else (5, 30000)
        cases = vlib.generate(work, "GenPolicy", {"EVERY": str(every), "OFF": str(seed)})
        return [policies.placed(c, i) for i, c in enumerate(cases)] + policies.random_policies(seed, n)

    def crashed(self, sc, what):
        e = {"err": True, "p": {}}
        return {"full": [], "limited": [], "direct": [], "merged": e, "rev": e, "chains": 0, "trusted": 0, "changed": [], "panic": what}

    def measure(self, scs, infos):
        n = sum(1 for s in scs if any(e for p in s["pols"] for c in p.values() for e in c.values()))
        return n, "scenarios in which at least one superior has a policy for some claim"


class StmtCache(Family):
    name = "stmtcache"
    test = "TestStmtCache"
    module = "StmtCacheTrace"

    def scenarios(self, tier, seed, work):
        n, length = (2400, 24) if tier == "quick" else (20000, 40)
        return cachehist.histories(seed, n, length)

    def crashed(self, sc, what):
        return {"rets": [], "reqs": [], "panic": what}

    def measure(self, scs, infos):
        n = sum(1 for v in infos.values() if v[0] > 0 and v[1] > 1)
        return n, "histories in which some lookup is answered from the cache and more than one request is made"


class History(Family):
    name = "history"
    test = "TestHistory"
    module = "HistoryTrace"
    chunk = 300
    par = False

    def scenarios(self, tier, seed, work):
        return histories.histories(seed, 2400 if tier == "quick" else 24000, self.par)

    def record(self, sc, res):
        steps = [dict(s, **(res[i] if isinstance(res, list) else res)) for i, s in enumerate(sc["steps"])]
        return {"world": sc["world"], "par": sc["par"], "steps": steps}

    def crashed(self, sc, what):
        o = {"chains": [], "trusted": [], "md": "", "panic": what}
        return {"warm": o, "cold": o}

    def measure(self, scs, infos):
        return sum(1 for v in infos.values() if v[0] > 1), "histories in which at least two resolutions find a trust chain"


class Concurrent(History):
    name = "concurrent"
    par = True
    race = True
    race_props = ("C21",)
    retries = 3

    def scenarios(self, tier, seed, work):
        return histories.histories(seed, 600 if tier == "quick" else 8000, self.par)


class TrustMarks(Family):
    name = "trustmarks"
    test = "TestTrustMarks"
    module = "TrustMarkTrace"
    chunk = 200

    def scenarios(self, tier, seed, work):
        return marks.random_marks(seed, 1000 if tier == "quick" else 24000)

    def record(self, sc, res):
        return {"world": sc["world"], "ta": sc["ta"], "items": sc["items"], "ext": sc["ext"], "steps": res}

    def crashed(self, sc, what):
        return [{"now": sc["world"]["now"], "panic": what, "fed": []}]

    def measure(self, scs, infos):
        return sum(1 for v in infos.values() if v[0] > 0), "federations in which at least one trust mark is accepted"


class Refresh(Family):
    name = "refresh"
    hang = 30
    test = "TestRefresh"
    module = "TrustMarkRefreshTrace"
    chunk = 300
    race = True
    race_props = ("C14",)
    retries = 3

    def scenarios(self, tier, seed, work):
        return refresh.histories(seed, 2400 if tier == "quick" else 24000)

    def record(self, sc, res):
        return {"p": sc["p"], "obs": res}

    def crashed(self, sc, what):
        return {"ev": [], "bad": [], "panic": what}

    def measure(self, scs, infos):
        return sum(1 for v in infos.values() if v[0] > 1 and v[1] > 1), "histories in which the issuer is contacted and marks are obtained more than once"


class Collect(Family):
    name = "collect"
    test = "TestCollect"
    module = "CollectionTrace"
    chunk = 80
    race = True
    race_props = ("C15", "C21")
    retries = 3

    def scenarios(self, tier, seed, work):
        return collect.collections(seed, 1200 if tier == "quick" else 16000)

    def record(self, sc, res):
        steps = [dict(s, **(res[i] if isinstance(res, list) else res)) for i, s in enumerate(sc["steps"])]
        return {"world": sc["world"], "letters": sc["letters"], "lists": sc["lists"], "steps": steps}

    def crashed(self, sc, what):
        return {"runs": [{"ta": "TA", "panic": what, "res": []}], "changed": []}

    def measure(self, scs, infos):
        return sum(1 for v in infos.values() if v[0] > 1), "federations of which at least two entities are collected"


class Typing(Family):
    name = "typing"
    test = "TestTyping"
    module = "JwtTypingTrace"

    def scenarios(self, tier, seed, work):
        scs = vlib.generate(work, "GenJwtTyping")
        return scs + typing_docs.random_documents(seed, 300 if tier == "quick" else 6000)

    def record(self, sc, res):
        return {"doc": sc, "uses": res["uses"]}

    def crashed(self, sc, what):
        return {"uses": [{"use": "", "purpose": "es", "acc": False, "ver": False, "verifies": False, "panic": what}]}

    def measure(self, scs, infos):
        return sum(1 for v in infos.values() if v[0] > 0), "documents which are accepted for some purpose"


class Issue(Family):
    name = "issue"
    test = "TestIssue"
    module = "IssuanceTrace"
    chunk = 300

    def scenarios(self, tier, seed, work):
        return issue.histories(seed, 2400 if tier == "quick" else 24000)

    def record(self, sc, res):
        return {"issuer": sc["issuer"], "owner": sc["owner"], "marks": sc["marks"], "delegs": sc["delegs"],
                "steps": [dict(s, obs=res[i] if isinstance(res, list) else res) for i, s in enumerate(sc["steps"])]}

    def crashed(self, sc, what):
        return {"panic": what}

    def measure(self, scs, infos):
        return sum(1 for v in infos.values() if v[1] > 0 and v[2] > 0), "histories in which documents are accepted and rejected"


class ChainOps(Family):
    name = "chainops"
    test = "TestChainOps"
    module = "ChainOpsTrace"
    chunk = 400

    def scenarios(self, tier, seed, work):
        return chainops.scenarios(seed, 4000 if tier == "quick" else 40000)

    def record(self, sc, res):
        return dict(sc, steps=[dict(s, obs=res[i] if isinstance(res, list) else res) for i, s in enumerate(sc["steps"])])

    def crashed(self, sc, what):
        return {"panic": what}

    def measure(self, scs, infos):
        return sum(1 for v in infos.values() if v[0] > 1), "lists which at least two operations change"


class Remote(Family):
    name = "remote"
    test = "TestRemote"
    module = "RemoteTrace"
    chunk = 250

    def scenarios(self, tier, seed, work):
        return remote.scenarios(seed, 1200 if tier == "quick" else 15000)

    def record(self, sc, res):
        return dict(sc, steps=[dict(s, obs=res[i] if isinstance(res, list) else res) for i, s in enumerate(sc["steps"])])

    def crashed(self, sc, what):
        return {"panic": what}

    def measure(self, scs, infos):
        return sum(1 for v in infos.values() if v[0] > 0), "histories in which a remote endpoint is asked"


class Auth(Family):
    name = "auth"
    test = "TestAuth"
    module = "AuthTrace"
    chunk = 250

    def scenarios(self, tier, seed, work):
        return auth.scenarios(seed, 1200 if tier == "quick" else 15000)

    def record(self, sc, res):
        return dict(sc, steps=[dict(s, obs=res[i] if isinstance(res, list) else res) for i, s in enumerate(sc["steps"])])

    def crashed(self, sc, what):
        return {"panic": what}

    def measure(self, scs, infos):
        return sum(1 for v in infos.values() if v[0] > 1), "histories in which at least two documents are sent"


class Docs(Family):
    name = "docs"
    test = "TestDocs"
    module = "DocumentsTrace"

    def scenarios(self, tier, seed, work):
        return docs.scenarios(seed, 1500 if tier == "quick" else 25000, work)

    def record(self, sc, res):
        steps = []
        for j, op in enumerate(sc["ops"]):
            o = res[j] if isinstance(res, list) else dict(res)
            d, err = [], o["err"]
            if not err and not o["panic"]:
                try:
                    d = docs.leaves(json.loads(o["text"]))
                except ValueError as e:
                    err = "not json: %s" % e
            steps.append({"op": op, "err": err, "panic": o["panic"], "doc": d})
        return {"type": sc["type"], "doc": docs.leaves(json.loads(sc["text"])), "steps": steps}

    def crashed(self, sc, what):
        return {"panic": what, "err": "", "text": ""}

    def measure(self, scs, infos):
        return sum(1 for v in infos.values() if v[0] > 3), "documents with at least three claims"


FAMILIES = {f.name: f for f in [Chains(), Policy(), StmtCache(), History(), Concurrent(), TrustMarks(), Refresh(), Collect(), Typing(), Issue(), ChainOps(), Remote(), Auth(), Docs()]}
