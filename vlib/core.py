"""Property-based check runner: Hypothesis generators over persistent sanitised workers.

A check module (checks/cNN.py) defines
    ID, RULE, TARGETS, Ctx, PARTS = [Part(...), ...]
Every part pairs a strategy producing JSON-serialisable cases with check(ctx, case): it raises
Violation when the property does not hold, and returns the set of labels describing the case
("!" among them marks the case as non-trivial).
"""
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings

import build
import worker as W

VERIF = build.VERIF
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
SHRINK_S = {"quick": int(os.environ.get("VERIF_SHRINK", "40")), "thorough": 120}
BUDGET_S = {"quick": 420, "thorough": 3000}
AGAIN_S = {"quick": 240, "thorough": 3000}


class Violation(Exception):
    pass


class Skip(Exception):
    """a case outside of what the model covers"""


class Part:
    def __init__(self, name, strategy, check, quick, thorough=None, examples=()):
        """strategy: callable (tier) -> Hypothesis strategy; quick/thorough: total number of cases"""
        self.name, self.strategy, self.check = name, strategy, check
        self.count = {"quick": quick, "thorough": thorough or quick * 15}
        self.examples = list(examples)


class Ctx:
    """what a check may use: the workers, and a scratch directory"""
    TARGETS = ("worker",)

    def __init__(self, exes):
        self.exes = exes
        self.dir = tempfile.mkdtemp(prefix="vc-")
        self._w = {}

    def get(self, name, cls):
        if name not in self._w:
            self._w[name] = cls(self.exes[name])
        return self._w[name]

    @property
    def stroll(self):
        return self.get("worker", W.Stroll)

    @property
    def lib(self):
        return self.get("libworker", W.Lib)

    def fresh(self):
        for w in self._w.values():
            w.close()
        self._w.clear()

    def close(self):
        os.chdir(VERIF)
        self.fresh()
        shutil.rmtree(self.dir, ignore_errors=True)

    def file(self, name, data):
        p = os.path.join(self.dir, name)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogatepass"))
        return p


def guarded(part, ctx, case):
    """runs one case; a dying or spinning program is a violation whatever the property"""
    try:
        r = part.check(ctx, case)
        return set(r or ())
    except Skip:
        return {"not modelled"}
    except W.Died as e:
        raise Violation("program died (%s)\n%s" % (e.why, e.log[:6000]))
    except W.Hang:
        raise Violation("program does not terminate: CPU budget of one case exhausted")


class _Stop(Exception):
    pass


def _proc(mod, tier, seed, idx, exes, q, stop):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    sys.setrecursionlimit(20000)
    warnings.simplefilter("ignore")
    ctx = mod.Ctx(exes) if hasattr(mod, "Ctx") else Ctx(exes)
    res = dict(evals=0, nontrivial=set(), labels={}, samples=[], failure=None, skipped=0, incon=0, error=None, parts={})
    sampled, best_n = {}, {}
    t0 = time.time()
    try:
        for pi, part in enumerate(mod.PARTS):
            best = {}
            n = (part.count[tier] + NPROC - 1) // NPROC

            def one(case, part=part, best=best):
                if best.get("final"):
                    return
                if stop.is_set() and not best:
                    res["skipped"] += 1
                    return
                if time.time() - t0 > BUDGET_S[tier] and not best:
                    res["skipped"] += 1
                    return
                if best and time.time() - best["t"] > SHRINK_S[tier]:
                    best["final"] = True
                    return
                key = json.dumps(case, sort_keys=True, ensure_ascii=True)
                try:
                    labels = guarded(part, ctx, case)
                except W.Inconclusive:
                    res["incon"] += 1
                    return
                except Violation as e:
                    # a persistent process may have been left in a bad state: believe a fresh one only
                    ctx.fresh()
                    try:
                        guarded(part, ctx, case)
                    except W.Inconclusive:
                        res["incon"] += 1
                        return
                    except Violation as e2:
                        stop.set()
                        if "t" not in best:
                            best["t"] = time.time()
                            best["first"] = case, str(e2)
                        if "key" not in best or (len(key), key) <= (len(best["key"]), best["key"]):
                            best.update(key=key, case=case, msg=str(e2))
                        raise
                    res["incon"] += 1
                    return
                if not best:
                    res["evals"] += 1
                    res["parts"][part.name] = res["parts"].get(part.name, 0) + 1
                    for l in labels:
                        k = part.name + ":" + l
                        res["labels"][k] = res["labels"].get(k, 0) + 1
                    if "!" in labels:
                        h = hashlib.blake2b((part.name + key).encode(), digest_size=8).digest()
                        if h not in res["nontrivial"]:
                            res["nontrivial"].add(h)
                            # one sample per part and process, from late in the search: generators
                            # start with their simplest cases
                            k = best_n[part.name] = best_n.get(part.name, 0) + 1
                            if len(key) < 1500 and (part.name not in sampled or k & (k - 1) == 0 or k % 7 == idx % 7):
                                sampled[part.name] = {"part": part.name, "case": case}

            try:
                for i, ex in enumerate(part.examples):
                    if i % NPROC == idx:
                        one(ex)
                if n:
                    strat = part.strategy(tier)
                    st = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                                  suppress_health_check=list(HealthCheck), print_blob=False,
                                  report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink))

                    @hypothesis.seed(seed * 100003 + idx * 101 + pi)
                    @st
                    @given(strat)
                    def test(case):
                        one(case)
                    test()
            except BaseException as e:
                if "key" in best:
                    res["failure"] = [(part.name, best["case"], best["msg"])]
                    if best["first"][0] != best["case"]:
                        res["failure"].append((part.name,) + best["first"])
                    break
                if isinstance(e, Violation):
                    res["failure"] = None
                raise
    except BaseException:
        res["error"] = traceback.format_exc()
    finally:
        ctx.close()
    res["samples"] = list(sampled.values())
    q.put(res)


def confirm(mod, exes, part, case):
    """replays three times, each in fresh processes; the message if all of them fail"""
    msgs = []
    for _ in range(3):
        ctx = mod.Ctx(exes) if hasattr(mod, "Ctx") else Ctx(exes)
        try:
            try:
                guarded(part, ctx, case)
                return None
            except W.Inconclusive:
                return None
            except Violation as e:
                msgs.append(str(e))
        finally:
            ctx.close()
    return msgs[0]


def search(mod, tier, seed, exes):
    """one search by all processes: what each of them reports"""
    mctx = mp.get_context("fork")
    q, stop = mctx.Queue(), mctx.Event()
    procs = [mctx.Process(target=_proc, args=(mod, tier, seed, i, exes, q, stop)) for i in range(NPROC)]
    for p in procs:
        p.start()
    results = []
    while len(results) < NPROC:
        try:
            results.append(q.get(timeout=5))
        except Exception:
            if not any(p.is_alive() for p in procs) and q.empty():
                break
    for p in procs:
        p.join()
    return results


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                out.append(line.split(" ", 2)[2])
    return out


def replay(mod, path):
    rec = json.load(open(path))
    exes = build.build(*getattr(mod, "TARGETS", ("worker",)))
    if hasattr(mod, "setup"):
        mod.setup()
    part = {p.name: p for p in mod.PARTS}[rec["part"]]
    msg = confirm(mod, exes, part, rec["case"])
    if msg is None:
        print("replay: no violation")
        return 0
    print(msg)
    print("VIOLATION property=%s replay=%s" % (mod.ID, path))
    return 1


def main(mod, tier=None):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET_S:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    exes = build.build(*getattr(mod, "TARGETS", ("worker",)))
    if hasattr(mod, "setup"):
        mod.setup()
    tb = time.time() - t0
    byname = {p.name: p for p in mod.PARTS}
    results, errors, violation, unconfirmed, dropped = [], [], None, 0, []
    for again in range(3):
        new = search(mod, tier, seed + 7919 * again, exes)
        results += new
        errors += [r["error"] for r in new if r["error"]]
        if len(new) < NPROC:
            errors.append("%d search processes ended without an answer" % (NPROC - len(new)))
        # the smallest ones first, then what they were shrunk from
        fails = [(i, len(json.dumps(f[1])), f) for r in new for i, f in enumerate(r["failure"] or ())]
        for _, _, (pn, case, msg) in sorted(fails, key=lambda f: f[:2]):
            m = confirm(mod, exes, byname[pn], case)
            if m is None:
                unconfirmed += 1
                dropped.append((pn + ": " + msg.split("\n")[0])[:200])
                continue
            violation = pn, case, m
            break
        # a failure that does not repeat has ended this search: go on with another one
        if violation or not fails or time.time() - t0 > AGAIN_S[tier]:
            break
    nontrivial = set().union(*[r["nontrivial"] for r in results]) if results else set()
    evals = sum(r["evals"] for r in results)
    labels = {}
    parts = {}
    for r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["parts"].items():
            parts[k] = parts.get(k, 0) + v
    samples = []
    for pn in parts:
        mine = [s for r in results for s in r["samples"] if s["part"] == pn]
        samples += mine[:3 if len(parts) < 4 else 2]
    if violation:
        pn, case, m = violation
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (mod.ID, hashlib.sha256(
            json.dumps([pn, case], sort_keys=True).encode()).hexdigest()[:12]))
        with open(path, "w") as f:
            json.dump({"property": mod.ID, "part": pn, "case": case, "message": m}, f, indent=1)
        violation = (path, m)
    ev = {
        "property": mod.ID, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(nontrivial), "rule": mod.RULE, "samples": samples,
            "cases_per_part": parts, "labels": dict(sorted(labels.items())),
            "skipped": sum(r["skipped"] for r in results), "inconclusive": sum(r["incon"] for r in results) + unconfirmed, "unrepeated": dropped,
            "build_s": round(tb, 1), "processes": NPROC,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ep = os.path.join(VERIF, "evidence", mod.ID + ".json")
    with open(ep + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(ep + ".tmp", ep)
    for k in known_findings(mod.ID):
        print("KNOWN-FINDING: property=%s %s" % (mod.ID, k))
    print("%s: %d cases, %d distinct non-trivial, %.1f s" % (mod.ID, evals, len(nontrivial), time.time() - t0))
    if violation:
        print(violation[1])
        print("VIOLATION property=%s replay=%s" % (mod.ID, violation[0]))
        return 1
    if errors:
        print("ERROR of the check:\n" + errors[0][-1500:])
        return 2
    if not evals or len(nontrivial) < 2:
        print("ERROR of the check: nothing was explored")
        return 2
    return 0
