"""Seeded search: run the episodes of a property on all cores, judge, minimise, report."""
import hashlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
from collections import Counter

from . import compare, discover, draws, episodes, frequency, iofault, isolation, plan, refuse, simrun, written  # noqa: F401

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "out")
WALL_CAP = {"quick": 780, "thorough": 6 * 3600}
KEEP = 40


class Agg:
    def __init__(self):
        self.runs = 0
        self.probes = Counter()
        self.fired = Counter()
        self.sim_s = 0.0
        self.sigs = set()
        self.nontrivial = set()
        self.faulty_runs = 0
        self.viol = []       # (index, desc, [(prop,msg)])
        self.other = Counter()
        self.harness = []
        self.digest = hashlib.sha1()
        self.samples = []


def seed_for(master, prop, kind, prof, i):
    h = hashlib.sha1(("%d|%s|%s|%s|%d" % (master, prop, kind, prof, i)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def _work(args):
    prop, kind, prof, master, lo, hi = args
    res = []
    k = episodes.KINDS[kind]
    probes, fired, sim_s, faulty, hangs = Counter(), Counter(), 0.0, 0, 0
    for i in range(lo, hi):
        desc = k.make(seed_for(master, prop, kind, prof, i), prof)
        try:
            o = k.run(desc)
        except Exception:
            res.append((i, desc, None, traceback.format_exc(limit=6)))
            continue
        probes.update(o.probes)
        fired.update(o.fired)
        sim_s += o.sim_s
        faulty += 1 if o.fired else 0
        res.append((i, desc, (o.viol[:12], o.sig, o.nontrivial, o.digest), None))
        if any(p == "*" and "does not terminate" in m for p, m in o.viol):
            hangs += 1
            if hangs >= 2:      # each of these costs the whole processor time bound
                break
    return kind, prof, res, (probes, fired, sim_s, faulty)


def jobs_for(prop, tier, master, scale=1.0):
    jobs = []
    for kind, prof, q, t in plan.PLAN[prop]:
        n = max(1, int((q if tier == "quick" else t) * scale))
        step = max(1, min(50, n // 32 or 1))
        for lo in range(0, n, step):
            jobs.append((prop, kind, prof, master, lo, min(n, lo + step)))
    return jobs


def explore(prop, tier, master, workers=None, scale=1.0, stop_after=6):
    t0 = time.monotonic()
    agg = Agg()
    jobs = jobs_for(prop, tier, master, scale)
    workers = workers or min(16, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    timed_out = False
    deadline = t0 + WALL_CAP[tier]
    done, bad = [], 0
    with ctx.Pool(workers) as pool:
        it = pool.imap_unordered(_work, jobs)
        for _ in range(len(jobs)):
            try:
                job = it.next(timeout=max(1.0, deadline - time.monotonic()))
            except mp.TimeoutError:
                timed_out = True
                pool.terminate()
                break
            done.append(job)
            bad += sum(1 for i, desc, o, err in job[2] if o and any(p in (prop, "*") for p, m in o[0]))
            if stop_after and (bad >= stop_after * 10 or bad and time.monotonic() - t0 > 60):
                pool.terminate()
                break
    order = {(kind, prof): n for n, (kind, prof, _, _) in enumerate(plan.PLAN[prop])}
    done.sort(key=lambda x: (order[x[:2]], x[2][0][0] if x[2] else 0))
    for kind, prof, res, (probes, fired, sim_s, faulty) in done:
        agg.probes.update(probes)
        agg.fired.update(fired)
        agg.sim_s += sim_s
        agg.faulty_runs += faulty
        for i, desc, o, err in res:
            agg.runs += 1
            if err is not None:
                agg.harness.append((desc, err))
                continue
            viol, sig, nontriv, digest = o
            if sig:
                agg.sigs.add(sig)
                if nontriv:
                    agg.nontrivial.add(sig)
            agg.digest.update(digest.encode())
            if len(agg.samples) < 3 and nontriv:
                agg.samples.append({"kind": kind, "profile": prof, "seed": desc["seed"], "history": digest})
            mine = [(p, m) for p, m in viol if p in (prop, "*")]
            if mine:
                agg.viol.append((desc, mine))
            for p in {p for p, _ in viol} - {prop, "*"}:
                agg.other[p] += 1
    agg.wall = time.monotonic() - t0
    agg.workers = workers
    agg.timed_out = timed_out
    return agg


# ---------------------------------------------------------------------- minimise
def has_viol(desc, prop):
    try:
        o = episodes.run_desc(desc)
    except Exception:
        return None
    for p, m in o.viol:
        if p in (prop, "*"):
            return o, p, m
    return None


def minimise(desc, prop, budget_s=25.0, max_runs=400):
    k = episodes.KINDS[desc["kind"]]
    t0 = time.monotonic()
    best = k.concretise(desc)
    runs = 0
    first = has_viol(best, prop)
    if first is None:
        best = desc
        first = has_viol(best, prop)
        if first is None:
            return desc, None, 0
    changed = True
    while changed and runs < max_runs and time.monotonic() - t0 < budget_s:
        changed = False
        for cand in k.shrinks(best):
            if runs >= max_runs or time.monotonic() - t0 > budget_s:
                break
            runs += 1
            r = has_viol(cand, prop)
            if r is not None:
                best, first, changed = cand, r, True
                break
    # the schedule tape: record, truncate, then set stretches to the default decision
    o = first[0]
    if getattr(o, "values", None) is not None and "tape" not in best:
        d = dict(best, tape=list(o.values))
        r = has_viol(d, prop)
        if r is not None:
            best, first = d, r
            lo, hi = 0, len(d["tape"])
            while lo < hi and time.monotonic() - t0 < budget_s + 10:
                mid = (lo + hi) // 2
                r = has_viol(dict(best, tape=d["tape"][:mid]), prop)
                if r is not None:
                    hi = mid
                else:
                    lo = mid + 1
            d2 = dict(best, tape=d["tape"][:hi])
            r = has_viol(d2, prop)
            if r is not None:
                best, first = d2, r
            size = max(1, len(best["tape"]) // 2)
            while size >= 1 and time.monotonic() - t0 < budget_s + 15:
                i = 0
                while i < len(best["tape"]) and time.monotonic() - t0 < budget_s + 15:
                    seg = best["tape"][i:i + size]
                    if any(seg):
                        t = best["tape"][:i] + [0.0] * len(seg) + best["tape"][i + size:]
                        r = has_viol(dict(best, tape=t), prop)
                        if r is not None:
                            best, first = dict(best, tape=t), r
                    i += size
                size //= 2
    return best, first, runs


# ---------------------------------------------------------------------- known findings
def load_known():
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def known_match(known, prop, msg, desc):
    for k in known:
        if k.get("status") == "known" and k["property"] == prop and k["match"] in msg:
            return k
    return None


# ---------------------------------------------------------------------- one check
def check(prop, tier, master, workers=None, scale=1.0):
    from . import notes
    agg = explore(prop, tier, master, workers, scale)
    known = load_known()
    fresh = []
    seen_known = {}
    for desc, mine in agg.viol:
        left = []
        for p, m in mine:
            k = known_match(known, prop, m, desc)
            if k:
                seen_known[k["id"]] = k
            else:
                left.append((p, m))
        if left:
            fresh.append((desc, left))
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    ev_extra = {}
    rc = 0
    if fresh:
        rc = 1
        desc, left = fresh[0]
        best, first, runs = minimise(desc, prop)
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        path = os.path.join(OUT, "replays", "%s-%d.json" % (prop, desc["seed"]))
        msg = first[2] if first else left[0][1]
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": prop, "seed": desc["seed"], "violation": msg, "original": desc,
                       "minimise_runs": runs, "episode": best}, f)
        again = subprocess.run([sys.executable, "-W", "ignore", os.path.join(ROOT, "check.py"), "replay", path],
                               capture_output=True, text=True)
        same = again.returncode == 1 and msg in again.stdout
        print("seed %d: %s" % (desc["seed"], msg))
        print("minimised in %d runs; replay in a fresh process %s" % (
            runs, "reproduces it exactly" if same else "DIFFERS: rc=%d %s" % (again.returncode, again.stdout[-300:])))
        for d, l in fresh[1:4]:
            print("also seed %d: %s" % (d["seed"], l[0][1]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, ROOT)))
        ev_extra["violations"] = [{"seed": d["seed"], "what": l[0][1][:300]} for d, l in fresh[:10]]
    elif agg.harness:
        rc = 2
        print("HARNESS ERROR in %d of %d runs; first: %s\n%s" % (
            len(agg.harness), agg.runs, agg.harness[0][0], agg.harness[0][1]))
    elif agg.timed_out:
        rc = 2
        print("WALL LIMIT reached after %d runs: no verdict" % agg.runs)
    det = None
    if rc == 0:
        det = determinism(prop, tier, master)
    write_evidence(prop, tier, master, agg, ev_extra, det, notes)
    print("%s %s seed=%d: %d runs, %d distinct interleavings, %.0f simulated h, faults fired %d, %.1f s" % (
        prop, tier, master, agg.runs, len(agg.sigs), agg.sim_s / 3600, sum(agg.fired.values()), agg.wall))
    return rc


def determinism(prop, tier, master):
    """The same seeds in a fresh process with another hash seed and one worker."""
    n = (16 if tier == "quick" else 80) if prop not in ("C17", "C18") else 8
    want = sample_digests(prop, master, n)
    env = dict(os.environ, PYTHONHASHSEED="271828", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(ROOT, "check.py"), "digests", prop,
                        str(master), str(n)], capture_output=True, text=True, env=env)
    try:
        got = json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        return {"error": p.stderr[-400:]}
    diff = [i for i, (a, b) in enumerate(zip(want, got)) if a != b]
    return {"runs_repeated_in_fresh_process_with_other_hash_seed": len(got), "digest_mismatches": len(diff)}


def sample_digests(prop, master, n):
    out = []
    groups = plan.PLAN[prop]
    for i in range(n):
        kind, prof = groups[i % len(groups)][:2]
        k = episodes.KINDS[kind]
        o = k.run(k.make(seed_for(master, prop, kind, prof, i // len(groups)), prof))
        out.append(o.digest)
    return out


def write_evidence(prop, tier, master, agg, extra, det, notes):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    hours = max(agg.wall, 1e-6) / 3600
    cov = {
        "evaluations": agg.runs,
        "distinct_nontrivial": len(agg.nontrivial),
        "rule": notes.RULES.get(prop, notes.DEFAULT_RULE),
        "samples": agg.samples or [{"none": True}],
        "seeds_per_hour": int(agg.runs / hours),
        "simulated_hours": round(agg.sim_s / 3600, 1),
        "distinct_interleavings": len(agg.sigs),
        "interleaving_measure": notes.MEASURE.get(prop, notes.DEFAULT_MEASURE),
        "runs_with_a_fault_fired": agg.faulty_runs,
        "runs_fault_free": agg.runs - agg.faulty_runs,
        "faults_fired": dict(sorted(agg.fired.items())),
        "conditions_reached": dict(sorted(agg.probes.items())),
        "episode_mix": [{"kind": k, "profile": p, "runs": q if tier == "quick" else t}
                        for k, p, q, t in plan.PLAN[prop]],
        "real_components": notes.REAL,
        "stubbed_components": notes.STUB,
        "workers": agg.workers,
        "history_digest": agg.digest.hexdigest(),
        "violations_of_other_properties_seen": dict(agg.other),
        "harness_errors": len(agg.harness),
    }
    if det is not None:
        cov["determinism"] = det
    ev = {"property": prop, "tier": tier, "seed": master, "level": "exploration", "coverage": cov,
          "wall_s": round(agg.wall, 2), "assumptions": notes.ASSUME}
    ev.update(extra)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    with open(path, encoding="utf-8") as f:
        rec = json.load(f)
    r = has_viol(rec["episode"], rec["property"])
    if r is None:
        print("replay: no violation")
        return 0
    print("seed %d: %s" % (rec["seed"], r[2]))
    print("VIOLATION property=%s replay=%s" % (rec["property"], path))
    return 1


def selftest():
    """One run of every episode mix: imports work and the simulator is deterministic."""
    for prop, groups in plan.PLAN.items():
        for kind, prof, _, _ in groups:
            k = episodes.KINDS[kind]
            d = k.make(7, prof)
            if k.run(d).digest != k.run(d).digest:
                print("selftest: %s/%s is not deterministic" % (kind, prof))
                return 2
    print("selftest: ok")
    return 0
