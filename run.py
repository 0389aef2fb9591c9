#!/usr/bin/env python3
"""Runs one check: run.py <property> [--replay FILE].  VERIF_TIER, VERIF_SEED from the environment.

A check (checks/<id>.py) is a list of shards; a shard runs cases of a worker module (workers/<name>.py) in a process of
its own, against one build of /repo (plain, asan or tsan).  Exit 0: nothing violated; 1: VIOLATION line; 2: no verdict."""
import concurrent.futures as cf, hashlib, importlib, json, os, re, signal, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vlib import build as B

EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(EVID, "replay")
KNOWN = os.path.join(VERIF, "known", "findings.json")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class Shard:
    def __init__(self, worker, kind="plain", timeout=240, **args):
        self.worker, self.kind, self.args, self.timeout = worker, kind, args, timeout


def sanitize_report(text):
    """the part of stderr that names what went wrong, without addresses"""
    m = re.search(r"(ERROR: AddressSanitizer.*|runtime error:.*|WARNING: ThreadSanitizer.*|MATHLIB-MISUSE:.*|Assertion.*failed.*|terminate called.*)", text)
    return m.group(1)[:300] if m else ""


def tsan_reports(text):
    out = []
    for blk in re.split(r"(?m)^={10,}\s*$", text):
        if "WARNING: ThreadSanitizer" in blk:
            fr = re.findall(r"#\d+ (\S.*?) (?:/|<null>|\()", blk)
            fr = [re.sub(r"\(.*", "", f) for f in fr]
            out.append((re.search(r"ThreadSanitizer: (.*?)(?: \(pid|$)", blk).group(1), fr[:3], blk[:6000]))
    return out


def run_shard(job):
    """runs a shard to its end, restarting after a crash; returns the list of result records"""
    idx, sh, envs, tmp, only = job
    recs, start, restarts = [], 0, 0
    deadline_scale = 1
    retried = set()
    while True:
        res = os.path.join(tmp, "r%d_%d.jsonl" % (idx, restarts))
        err = os.path.join(tmp, "e%d_%d.txt" % (idx, restarts))
        e = dict(envs[sh.kind])
        scratch = os.path.join(tmp, "s%d_%d" % (idx, restarts))
        os.makedirs(scratch, exist_ok=True)
        spec = {"worker": sh.worker, "kind": sh.kind, "args": sh.args, "start": start, "only": only, "res": res, "scratch": scratch}
        with open(err, "wb") as ef:
            p = subprocess.Popen([B.PY, "-u", "-m", "vlib.worker", json.dumps(spec)], cwd=scratch, env=e, stdout=ef, stderr=subprocess.STDOUT, start_new_session=True)
            last, timed_out = time.time(), False
            size = -1
            while True:
                try:
                    p.wait(1)
                    break
                except subprocess.TimeoutExpired:
                    pass
                s = os.path.getsize(res) if os.path.exists(res) else 0
                if s != size:
                    size, last = s, time.time()
                elif time.time() - last > sh.timeout * deadline_scale:
                    timed_out = True
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                    break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        lines = []
        if os.path.exists(res):
            with open(res, encoding="utf-8", errors="replace") as f:
                for l in f:
                    try:
                        lines.append(json.loads(l))
                    except ValueError:
                        pass
        with open(err, encoding="utf-8", errors="replace") as f:
            text = f.read()
        done = any(r.get("t") == "done" for r in lines)
        begun = [r for r in lines if r.get("t") == "begin"]
        ended = {r["i"] for r in lines if r.get("t") == "end"}
        recs += lines
        if sh.kind == "tsan":
            for what, fr, blk in tsan_reports(text):
                recs.append({"t": "viol", "key": "tsan:%s:%s" % (what, "|".join(fr[:2])), "msg": "ThreadSanitizer: %s in %s" % (what, fr[:3]), "detail": blk, "case": begun[-1] if begun else None, "kind": sh.kind})
        if done:
            return recs
        if not begun or begun[-1]["i"] in ended:
            recs.append({"t": "harness", "msg": "worker %s (%s) ended with %s outside a case\n%s" % (sh.worker, sh.kind, p.returncode, text[-3000:])})
            return recs
        bad = begun[-1]
        i = bad["i"]
        if i not in retried:
            # a crash or hang must happen twice, the second time with the case alone in a fresh process... keep going from it
            retried.add(i)
            start = i
            deadline_scale = 2
            first_text = text
        else:
            deadline_scale = 1
            rep = sanitize_report(text)
            if timed_out:
                key, msg = "hang:%s" % bad["id"], "no progress within %d s, twice" % sh.timeout
            else:
                key, msg = "crash:%s" % bad["id"], "process ended with %s; %s" % (p.returncode, rep or text[-300:])
            recs.append({"t": "viol", "key": key, "msg": msg, "detail": text[-6000:], "case": bad, "kind": sh.kind})
            start = i + 1
            if sum(1 for r in recs if r.get("t") == "viol" and r["key"].split(":")[0] in ("crash", "hang")) >= 3:
                return recs
        if only is not None and i in retried and start == i + 1:
            return recs
        restarts += 1
        if restarts > 8:
            recs.append({"t": "harness", "msg": "too many restarts of %s" % sh.worker})
            return recs


def load_known(pid):
    try:
        with open(KNOWN) as f:
            k = json.load(f)
    except OSError:
        return {}
    return {x["key"]: x["what"] for x in k.get("known", []) if x["property"] == pid}


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    mod = importlib.import_module("checks." + pid)
    os.makedirs(REPLAY, exist_ok=True)
    only = None
    if replay:
        with open(replay) as f:
            rp = json.load(f)
        seed, tier = rp["seed"], rp["tier"]
        sh = Shard(rp["worker"], rp["kind"], **rp["args"])
        shards = [sh]
        only = rp["index"]
    else:
        shards = mod.shards(tier, seed)
    kinds = sorted({s.kind for s in shards})
    envs = {}
    try:
        prep = getattr(mod, "prepare", None)
        pargs = prep(B) if prep else {}
        for k in kinds:
            if k == "none":
                envs[k] = dict(os.environ, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
            else:
                py, mth, b = B.build(k)
                envs[k] = B.runtime_env(k, py, mth)
            for a, v in (pargs or {}).items():
                envs[k][a] = v
            envs[k]["VERIF_SEED"], envs[k]["VERIF_TIER"] = str(seed), tier
    except B.BuildError as e:
        print("BUILD FAILED", e)
        return 2
    tb = time.time()
    tmp = os.path.join(B.BUILD, "tmp", "%s_%d" % (pid, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    try:
        with cf.ThreadPoolExecutor(NPROC) as ex:
            results = list(ex.map(run_shard, [(i, s, envs, tmp, only) for i, s in enumerate(shards)]))
    finally:
        import shutil
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(tmp, ignore_errors=True)
    counts, distinct, samples, viol, harness = {}, set(), [], {}, []
    evals = 0
    slow = []
    for sh, recs in zip(shards, results):
        for r in recs:
            t = r.get("t")
            if t == "end":
                evals += 1
                slow.append((r.get("s", 0), sh.worker + "/" + sh.kind + "/" + r.get("id", "")))
                for k, v in r["counts"].items():
                    counts[k] = counts.get(k, 0) + v
                distinct.update(r["distinct"])
                for s in r["samples"]:
                    if len(samples) < 12 and len(json.dumps(s)) < 4000:
                        samples.append(s)
            elif t == "viol":
                r["shard"] = sh
                viol.setdefault(r["key"], []).append(r)
            elif t == "harness":
                harness.append(r["msg"])
    known = load_known(pid)
    new = {k: v for k, v in viol.items() if k not in known}
    seen_known = [k for k in viol if k in known]
    for k in sorted(known):
        if not replay:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[k], "observed in this run" if k in seen_known else "not reached in this run"))
    lines = []
    for k, v in sorted(new.items()):
        r = v[0]
        sh, case = r["shard"], r.get("case") or {"i": 0, "id": "?"}
        name = "%s_%s.json" % (pid, hashlib.sha1(k.encode()).hexdigest()[:10])
        path = os.path.join(REPLAY, name)
        with open(path, "w") as f:
            json.dump({"property": pid, "key": k, "message": r["msg"], "detail": r.get("detail"), "worker": sh.worker, "kind": sh.kind, "args": sh.args,
                       "index": case["i"], "case": case, "seed": seed, "tier": tier, "count": len(v),
                       "how": "cd /verif && python3 run.py %s --replay %s" % (pid, path)}, f, indent=1)
        if len(lines) >= 8:
            continue
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        print("violated: [%s] %s (%d times, %s)" % (k, r["msg"][:700], len(v), sh.kind))
    cov = {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": mod.RULE, "samples": samples, "observed": counts, "builds": {k: sum(1 for s in shards if s.kind == k) for k in kinds}}
    if not replay:
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"), "coverage": cov,
                       "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}, f, indent=1)
    print("%s: %d cases, %d distinct, %s; build %.1f s, run %.1f s" % (pid, evals, len(distinct), json.dumps(counts), tb - t0, time.time() - tb))
    if os.environ.get("VERIF_SLOW"):
        for s, n in sorted(slow, reverse=True)[:10]:
            print("  %.2f s  %s" % (s, n))
    for l in lines:
        print(l)
    if lines:
        return 1
    if harness:
        print("HARNESS:", harness[0])
        return 2
    missing = [c for c in getattr(mod, "MUST_OBSERVE", []) if not counts.get(c)]
    if not replay and (evals == 0 or len(distinct) == 0 or missing):
        print("HARNESS: observed nothing", missing)
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
