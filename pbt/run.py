"""Runner: python -m pbt.run PROPERTY [--replay FILE] [--relation NAME]
Exit 0: held on everything explored; 1: VIOLATION; 2: harness error."""
import os
import sys

_ENV = {"PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1",
        "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg",
        "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1"}
_PY = "/opt/venv/bin/python"


def _reexec():
    want = os.path.realpath(_PY)
    if os.environ.get("PBT_CHILD") == "1":
        return
    env = dict(os.environ)
    env.update(_ENV)
    env["PBT_CHILD"] = "1"
    env.pop("PYTHONPATH", None)
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env["PYTHONPATH"] = os.environ.get("PBT_REPO", "/repo") + ":" + root
    del want
    os.execve(_PY, [_PY, "-W", "ignore", "-m", "pbt.run"] + sys.argv[1:], env)


if __name__ == "__main__":
    _reexec()

import argparse  # noqa: E402
import collections  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import math  # noqa: E402
import multiprocessing as mp  # noqa: E402
import random  # noqa: E402
import signal  # noqa: E402
import tempfile  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402
import warnings  # noqa: E402
import zlib  # noqa: E402

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("PBT_REPO", "/repo"))
CASE_LIMIT_S = 60
SHRINK_S = float(os.environ.get("PBT_SHRINK_S", "25"))
WORKERS = int(os.environ.get("PBT_WORKERS", "8"))


class _Hang(Exception):
    pass


def _alarm(*_):
    raise _Hang("the case did not finish within %d s" % CASE_LIMIT_S)


def run_case(core, rel, case):
    """Run one case. Returns (status, message); status in ok/trivial/discard/
    violation/error."""
    import numpy as np
    text = core.key_of(case)
    seed = zlib.crc32(text.encode()) & 0x7FFFFFFF
    np.random.seed(seed)
    random.seed(seed)
    core._case_labels = set()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    cwd = os.getcwd()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = rel.check(json.loads(text))
        return ("trivial" if out is False else "ok"), ""
    except core.Discard:
        return "discard", ""
    except core.HarnessError:
        return "error", traceback.format_exc()
    except core.Violation as exc:
        return "violation", str(exc)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as exc:  # the code under test failed on a valid input
        tb = traceback.extract_tb(exc.__traceback__)
        inside = [f for f in tb
                  if os.path.realpath(f.filename).startswith(REPO + "/tensap")]
        where = "" if not inside else " at %s:%s (%s)" % (
            os.path.relpath(inside[-1].filename, REPO), inside[-1].lineno,
            inside[-1].name)
        if not inside and isinstance(exc, (NameError, ImportError,
                                           UnboundLocalError)):
            return "error", traceback.format_exc()
        return "violation", "unexpected %s: %s%s\n%s" % (
            type(exc).__name__, exc, where, traceback.format_exc()[-2500:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if os.getcwd() != cwd:
            os.chdir(cwd)


class _Found(AssertionError):
    pass


def run_task(args):
    pid, name, n, seed = args
    res = {"relation": name, "evaluations": 0, "keys": set(), "discard": 0,
           "trivial": 0, "labels": collections.Counter(), "samples": [],
           "failure": None, "error": None, "wall": 0.0}
    t0 = time.time()
    try:
        from pbt import core
        import hypothesis
        from hypothesis import settings, HealthCheck, Phase
        devnull = open(os.devnull, "w")
        sys.stdout = devnull
        prop = load(pid)
        rel = prop.relations[name]
        failed = {}
        first = [None]

        def body(case):
            text = core.key_of(case)
            if text in failed:
                raise _Found(failed[text])
            if first[0] is not None and time.time() - first[0] > SHRINK_S:
                return
            status, msg = run_case(core, rel, case)
            if status == "error":
                raise core.HarnessError(msg)
            if first[0] is None:
                res["evaluations"] += 1
                if status == "discard":
                    res["discard"] += 1
                elif status == "trivial":
                    res["trivial"] += 1
                else:
                    k = core.digest(text)
                    if k not in res["keys"]:
                        res["keys"].add(k)
                        m = len(res["keys"])
                        if m in (3, 30, 300) or (m == 1 and n < 20):
                            res["samples"].append(json.loads(text))
                if status != "discard":
                    res["labels"].update(core._case_labels)
            if status == "violation":
                if first[0] is None:
                    first[0] = time.time()
                failed[text] = msg
                res["failure"] = (json.loads(text), msg)
                raise _Found(msg)

        test = hypothesis.given(rel.gen() if callable(rel.gen)
                                    else rel.gen)(body)
        test = settings(
            max_examples=n, database=None, deadline=None,
            suppress_health_check=list(HealthCheck), print_blob=False,
            phases=[Phase.generate, Phase.shrink],
            report_multiple_bugs=False)(test)
        test = hypothesis.seed(seed)(test)
        try:
            test()
        except _Found:
            pass
        except Exception:
            if res["failure"] is None:
                raise
    except BaseException:
        res["error"] = traceback.format_exc()
    res["wall"] = time.time() - t0
    return res


_loaded = {}


def load(pid):
    if pid not in _loaded:
        mod = importlib.import_module("props." + pid.lower())
        _loaded[pid] = mod.P
        assert mod.P.pid == pid
    return _loaded[pid]


def known_findings(pid):
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                head, _, what = line.partition(" :: ")
                fields = head.split(" ", 3)
                rel = fields[2].split("=", 1)[1]
                case = json.loads(fields[3].split("=", 1)[1])
                out.append((rel, case, what))
    return out


def replay(pid, path):
    from pbt import core
    data = json.load(open(path))
    if data.get("property") != pid:
        print("replay file is for another property", file=sys.stderr)
        return 2
    rel = load(pid).relations[data["relation"]]
    keep, sys.stdout = sys.stdout, open(os.devnull, "w")
    status, msg = run_case(core, rel, data["case"])
    sys.stdout = keep
    print("relation %s: %s" % (data["relation"], status))
    if msg:
        print(msg)
    if status == "violation":
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0 if status in ("ok", "trivial") else 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--relation", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--all", action="store_true",
                    help="do not stop at the first violation")
    opt = ap.parse_args()
    pid, tier = opt.pid, opt.tier
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="pbt-")
    os.chdir(scratch)
    try:
        return _main(opt, pid, tier, t0)
    finally:
        os.chdir(ROOT)
        try:
            os.rmdir(scratch)
        except OSError:
            import shutil
            shutil.rmtree(scratch, ignore_errors=True)


def _main(opt, pid, tier, t0):
    import tensap
    where = os.path.realpath(tensap.__file__)
    if not where.startswith(REPO + "/tensap/"):
        print("tensap was imported from " + where, file=sys.stderr)
        return 2
    from pbt import core
    prop = load(pid)
    if opt.replay:
        return replay(pid, opt.replay)

    # known findings: replayed first, each must still be the same failure
    for rel_name, case, what in known_findings(pid):
        keep, sys.stdout = sys.stdout, open(os.devnull, "w")
        status, msg = run_case(core, prop.relations[rel_name], case)
        sys.stdout = keep
        if status == "violation":
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
        elif status == "error":
            print(msg, file=sys.stderr)
            return 2

    tasks = []
    for name, rel in prop.relations.items():
        if opt.relation and name not in opt.relation:
            continue
        n = rel.thorough if tier == "thorough" else rel.examples
        n = max(1, int(math.ceil(n * opt.scale)))
        per = max(25, int(math.ceil(n / WORKERS)))
        if tier == "thorough":
            per = min(per, 400)
        k, i = n, 0
        while k > 0:
            m = min(per, k)
            seed = zlib.crc32(("%d/%s/%s/%d/%s" % (
                opt.seed, pid, name, i, tier)).encode())
            tasks.append((pid, name, m, seed))
            k -= m
            i += 1
    # interleave: big shards first
    tasks.sort(key=lambda t: -t[2])
    limit = 3000 if tier == "thorough" else 780
    results, failure, error, cut = [], None, None, False
    ctx = mp.get_context("fork")
    seen = set()
    pool = ctx.Pool(WORKERS, maxtasksperchild=40)
    try:
        it = pool.imap_unordered(run_task, tasks)
        for _ in tasks:
            left = limit - (time.time() - t0)
            try:
                res = it.next(timeout=max(1.0, left))
            except mp.TimeoutError:
                cut = True
                break
            results.append(res)
            if res["error"] is not None:
                error = error or res
            if res["failure"] is not None:
                if failure is None:
                    failure = res
                if opt.all:
                    sig = (res["relation"], res["failure"][1].split("\n")[0])
                    if sig not in seen:
                        seen.add(sig)
                        print("FAILURE in %s\n%s\n%s\n" % (
                            res["relation"],
                            json.dumps(res["failure"][0])[:1500],
                            res["failure"][1][:700] + "..." +
                            res["failure"][1][700:][-300:]))
                else:
                    break
        pool.terminate()
    finally:
        pool.terminate()
        pool.join()

    agg = collections.OrderedDict()
    for name in prop.relations:
        agg[name] = {"evaluations": 0, "keys": set(), "discard": 0,
                     "trivial": 0, "labels": collections.Counter(),
                     "samples": [], "wall": 0.0}
    for res in results:
        a = agg[res["relation"]]
        a["evaluations"] += res["evaluations"]
        a["discard"] += res["discard"]
        a["trivial"] += res["trivial"]
        a["keys"] |= res["keys"]
        a["labels"].update(res["labels"])
        a["wall"] += res["wall"]
        a["samples"] += res["samples"]
    samples, per_rel = [], {}
    for name, a in agg.items():
        for s in sorted(a["samples"], key=core.key_of)[:2]:
            samples.append({"relation": name, "case": s})
        if a["evaluations"]:
            per_rel[name] = {
                "evaluations": a["evaluations"],
                "distinct_nontrivial": len(a["keys"]),
                "trivial": a["trivial"], "outside_domain": a["discard"],
                "rule": prop.relations[name].rule,
                "classes": dict(sorted(a["labels"].items())),
                "cpu_s": round(a["wall"], 2)}
    total = sum(a["evaluations"] for a in agg.values())
    ev = {"property": pid, "tier": tier, "seed": opt.seed,
          "level": "exploration",
          "coverage": {
              "evaluations": total,
              "distinct_nontrivial": sum(len(a["keys"])
                                         for a in agg.values()),
              "rule": "Cases are drawn by Hypothesis from the generator of "
                      "each relation; a case is non-trivial when the relation "
                      "compared the code with its oracle on it and its own "
                      "rule (see relations) did not class it as trivial; "
                      "distinct by the canonical JSON text of the case.",
              "samples": samples, "relations": per_rel,
              "time_budget_hit": cut},
          "assumptions": prop.assumptions,
          "wall_s": round(time.time() - t0, 2),
          "violations": 1 if failure else 0}
    if not opt.relation or os.environ.get("PBT_EVIDENCE"):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        tmp = os.path.join(ROOT, "evidence", "." + pid + ".tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(ROOT, "evidence", pid + ".json"))
    if opt.v:
        for name, r in per_rel.items():
            print("%-34s n=%-6d nontriv=%-6d triv=%-5d disc=%-5d cpu=%6.1fs %s"
                  % (name, r["evaluations"], r["distinct_nontrivial"],
                     r["trivial"], r["outside_domain"], r["cpu_s"],
                     r["classes"]))
    if failure is not None:
        case, msg = failure["failure"]
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        rec = {"property": pid, "relation": failure["relation"], "case": case,
               "message": msg}
        name = "%s-%s-%s.json" % (
            pid, failure["relation"],
            core.digest(core.key_of(case)).hex()[:10])
        path = os.path.join(ROOT, "replays", name)
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        print("relation %s fails on %s" % (failure["relation"],
                                           core.key_of(case)[:3000]))
        print(msg[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if error is not None:
        print("harness error in relation %s:\n%s" % (error["relation"],
                                                    error["error"]),
              file=sys.stderr)
        return 2
    for name, a in agg.items():
        if a["evaluations"] >= 20 and not a["keys"]:
            print("relation %s: no non-trivial case" % name, file=sys.stderr)
            return 2
    print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs%s"
          % (pid, total, ev["coverage"]["distinct_nontrivial"],
             ev["wall_s"], " (time budget hit)" if cut else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
