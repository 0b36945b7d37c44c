#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] | check.py --replay FILE

Exit 0: the property held on everything explored. Exit 1: it was violated (VIOLATION line). Exit 2: no verdict."""
import argparse
import json
import os
import shutil
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import families
import vlib
from props import PROPS
from vlib import ToolError, log


class Violation:
    def __init__(self, prop, family, what, scenarios, index, res):
        self.prop, self.family, self.what = prop, family, what
        self.scenarios, self.index, self.res = scenarios, index, res


_bins = {}


def binary(work, race):
    if race not in _bins:
        _bins[race] = vlib.build(work, race)
    return _bins[race]


def execute(fam, work, scs, name, procs=None):
    """Runs scenarios through the implementation and validates what was observed."""
    results, shards, races = vlib.run_go(work, binary(work, fam.race), fam.test, scs, name, procs=procs or fam.procs, hang=fam.hang)
    idx, records = [], []
    for i, r in enumerate(results):
        if r is None:
            continue
        if isinstance(r, dict) and "crash" in r:
            r = fam.crashed(scs[i], r["crash"])
        results[i] = r = vlib.denull(r)
        idx.append(i)
        records.append(fam.record(scs[i], r))
    notrun = len(scs) - len(idx)
    fails, infos, missing = vlib.validate(work, fam.module, records, chunk=fam.chunk)
    fails = [(idx[i], p, w) for i, p, w in fails]
    if missing:
        if not fam.default_prop:
            raise ToolError("%s: %d records were not decided, e.g. %s" % (fam.module, len(missing), json.dumps(records[missing[0]])[:2000]))
        fails += [(idx[i], fam.default_prop, "not a behaviour of the specification") for i in missing]
    for i, txt in races:
        fails.append((i, "RACE", txt))
    return {"results": results, "fails": fails, "infos": {idx[i]: v for i, v in infos.items()}, "n": len(records), "notrun": notrun,
            "shards": shards}


def matches(fam, f, prop):
    return f[1] in (prop, vlib.UNREADABLE) or (f[1] == "RACE" and prop in fam.race_props)


def known_findings():
    """The findings that are not repaired: lines "known: property=<id> family=<family> scenario=<digest> <what fails>"."""
    res = {}
    try:
        with open(os.path.join(vlib.VERIF, "KNOWN_FINDINGS.txt")) as fh:
            for line in fh:
                w = line.split(None, 4)
                if len(w) == 5 and w[0] == "known:":
                    res[(w[1].split("=", 1)[1], w[2].split("=", 1)[1], w[3].split("=", 1)[1])] = w[4].strip()
    except FileNotFoundError:
        pass
    return res


def confirm(fam, work, scs, run, prop):
    """Re-runs failing scenarios; returns a Violation or None."""
    cand = [f for f in run["fails"] if matches(fam, f, prop)]
    for n, (i, p, what) in enumerate(cand[:3]):
        log("%s: %s failed in scenario %d (%s); re-running it" % (fam.name, prop, i, str(what)[:300]))
        for a in range(fam.retries):
            again = execute(fam, work, [scs[i]], "%s-confirm-%d-%d" % (fam.name, n, a))
            hit = [f for f in again["fails"] if matches(fam, f, prop)]
            if hit:
                return Violation(prop, fam.name, hit[0][2], [scs[i]], 0, again["results"][0])
    # what the race detector reports has happened, but is not likely to happen again at once
    for i, p, what in cand:
        if p == "RACE":
            return Violation(prop, fam.name, what, [scs[i]], 0, run["results"][i])
    # it might depend on what came before
    for i, p, what in cand[:2]:
        shard = next(s for s in run["shards"] if i in s)
        log("%s: re-running the whole shard of scenario %d" % (fam.name, i))
        part = [scs[j] for j in shard]
        again = execute(fam, work, part, "%s-confirm-shard" % fam.name, procs=1)
        hit = [f for f in again["fails"] if matches(fam, f, prop)]
        if hit:
            part = part[:hit[0][0] + 1]
            return Violation(prop, fam.name, hit[0][2], part, len(part) - 1, again["results"][len(part) - 1])
    return None


def write_replay(v):
    d = os.path.join(vlib.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (v.prop, v.family, vlib.digest(v.scenarios[-1])[:10]))
    with open(path, "w") as fh:
        json.dump({"property": v.prop, "family": v.family, "what": v.what, "index": v.index, "observed": v.res, "scenarios": v.scenarios},
                  fh, indent=1)
    return path


def shorten(o, n=2500):
    s = json.dumps(o)
    return o if len(s) <= n else s[:n] + "..."


def run_check(prop, tier, seed):
    t0 = time.time()
    spec = PROPS[prop]
    work = vlib.work_dir()
    try:
        violations, unconfirmed, fams = [], [], []
        samples, traces, nontrivial, rules = [], 0, 0, []
        known = known_findings()
        for fname in spec["families"]:
            fname, _, share = fname.partition(":")
            fam = families.FAMILIES[fname]
            t = time.time()
            scs = fam.scenarios(tier, seed, work)
            if share:
                # the family mainly decides other properties: a share of its scenarios is enough here
                scs = scs[:int(len(scs) * float(share))]
            run = execute(fam, work, scs, fam.name)
            traces += run["n"]
            for i, p, _ in list(run["fails"]):
                k = (prop, fname, vlib.digest(scs[i])[:16])
                if p == prop and k in known:
                    print("KNOWN-FINDING: property=%s %s" % (prop, known[k]), flush=True)
                    run["fails"] = [f for f in run["fails"] if (f[0], f[1]) != (i, prop)]
            k, rule = fam.measure(scs, run["infos"])
            nontrivial += k
            rules.append("%s: %s" % (fname, rule))
            other = sorted({f[1] for f in run["fails"] if not matches(fam, f, prop)})
            fams.append({"family": fname, "scenarios": run["n"], "nontrivial": k, "reports": len(run["fails"]),
                         "reports_for_other_properties": other, "wall_s": round(time.time() - t, 1)})
            if run["n"]:
                for i in (0, len(scs) // 2):
                    if run["results"][i] is not None:
                        samples.append(shorten({"family": fname, "scenario": scs[i], "observed": run["results"][i]}))
            if any(matches(fam, f, prop) for f in run["fails"]):
                v = confirm(fam, work, scs, run, prop)
                if v:
                    violations.append(v)
                    break
                unconfirmed.append(fname)
            elif run["notrun"] and not any(f[1] == "RACE" for f in run["fails"]):
                raise ToolError("%s: %d scenarios were not run, since other scenarios crashed" % (fname, run["notrun"]))
        models = []
        if not violations:
            for m in spec.get("models", []):
                env = dict(m.get("env", {}))
                env.update(m.get(tier, {}))
                env.setdefault("PAIR_OFF", str(seed))
                vlib.tlc(work, m["module"], cfg=m.get("cfg"), env_extra=env, workers=vlib.PROCS, heap="8g", args=m.get("args", []))
                models.append(m["module"])
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": vlib.STATS["states"], "transitions": vlib.STATS["transitions"], "traces_validated_against_impl": traces,
                           "distinct_nontrivial": nontrivial, "rule": "; ".join(rules), "families": fams, "models": models,
                           "tlc_runs": len(vlib.STATS["runs"]),
                           "model_runs": [r for r in vlib.STATS["runs"] if r["module"] in models], "samples": samples[:4]},
              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
        os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(vlib.VERIF, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for v in violations:
            path = write_replay(v)
            log(str(v.what)[:2000])
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        if violations:
            return 1
        if unconfirmed:
            log("reports of %s could not be reproduced" % ", ".join(unconfirmed))
            return 2
        print("%s: held on %d recorded behaviours (%d non-trivial), %d states; %.0f s" % (prop, traces, nontrivial, vlib.STATS["states"], time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    with open(path) as fh:
        r = json.load(fh)
    fam = families.FAMILIES[r["family"]]
    work = vlib.work_dir()
    try:
        for _ in range(max(1, fam.retries)):
            run = execute(fam, work, r["scenarios"], "replay", procs=1)
            hit = [f for f in run["fails"] if matches(fam, f, r["property"])]
            if hit:
                print(json.dumps(run["results"][hit[0][0]])[:3000])
                print("reproduced: %s: %s" % (hit[0][1], hit[0][2]))
                return 1
        print("not reproduced; reports: %s" % run["fails"])
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        sys.exit(replay(a.replay) if a.replay else run_check(a.property, a.tier, a.seed))
    except ToolError as e:
        log("error: %s" % e)
        sys.exit(2)


if __name__ == "__main__":
    main()
