"""Episodes that count: what is drawn hundreds of times, compared with the distribution it is drawn from
(C05 durations, C10 attributes, C13 arrivals, C14 events, C19 work done alone)."""
import datetime as dt
import json
import math
import random
from collections import Counter

import numpy as np

from . import gen, simrun
from .episodes import Kind, Outcome, product_error, register, sha, tape_of

SIGMAS = 6.0
KS = 3.6          # two samples of one distribution are further apart less than once in 10^11
REF = 20000
ENOUGH = 40


# ------------------------------------------------------------------ what is drawn from
def rand_dist(rng, scale, fix=True):
    k = rng.random()
    if fix and k < 0.1:
        return gen.d_fix(round(scale * rng.choice([0.5, 1, 1.37]), 3))
    if k < 0.3:
        lo = scale * rng.choice([0, 0.1, 0.5, 1.0])
        return {"n": "uniform", "p": [lo, lo + scale * rng.choice([0.2, 1.0, 2.0])]}
    if k < 0.5:
        lo = scale * rng.choice([0, 0, 0.3, 0.8])
        return {"n": "expon", "p": [scale, lo, lo + scale * rng.choice([1, 6])]}
    if k < 0.7:
        return {"n": "norm", "p": [scale, scale * rng.choice([0.05, 0.25, 0.5]), scale * rng.choice([0, 0.1, 0.8]), scale * 2.5]}
    sd = scale * rng.choice([0.1, 0.3, 0.8])
    return {"n": rng.choice(["gamma", "lognorm"]), "p": [scale, sd * sd, scale * rng.choice([0, 0.05, 0.6]), scale * rng.choice([1.5, 5])]}


def uneven(rng, n):
    w = rng.sample([1, 2, 3, 5, 8, 13], n)
    p = [round(x / sum(w), 3) for x in w]
    p[-1] = round(1 - sum(p[:-1]), 3)
    return p


CALLS = {"uniform": "uniform(%g, %g)", "norm": "norm(%g, %g, %g, %g)", "expon": "expon(%g, %g, %g)",
         "gamma": "gamma(%g, %g, %g, %g)", "lognorm": "lognorm(%g, %g, %g, %g)", "fix": "fix(%g)"}


def make_spec(seed):
    rng = random.Random("draws:%d" % seed)
    scale = rng.choice([600, 1800, 3600])
    rs = ["R%d" % (i + 1) for i in range(rng.choice([2, 3, 4]))]
    pools = [{"id": "pool0", "name": "Pool 0", "res": [
        {"id": r, "name": "Res " + r, "amount": rng.choice([1, 2, 3]), "cal": "full", "cost": 10} for r in rs]}]
    ids = iter(range(1, 50))

    def task(**kw):
        some = rng.sample(rs, rng.choice([1, 2, 2, len(rs)]))
        return dict({"t": "task", "id": next(ids), "res": [[r, rand_dist(rng, scale)] for r in some]}, **kw)

    def event(fix=True, near=False):
        return {"t": "event", "id": next(ids), "kind": rng.choice(["plain", "timer", "message", "signal"]),
                "dist": rand_dist(rng, scale * rng.choice([0.8, 1, 1.25] if near else [0.5, 1, 2]), fix)}

    states = ["s0", "s1", "s2"]
    markov = {s: dict(zip(rng.sample(states, 3), uneven(rng, 3))) for s in states}
    first = task(attrs=[{"name": "mk", "kind": "discrete", "opts": [list(x) for x in zip(states, uneven(rng, 3))]}])
    if rng.random() < 0.5:
        first["attrs"].append({"name": "ev", "kind": "continuous", "dist": rand_dist(rng, rng.choice([1, 50]))})
    tree = [first]
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.random()
        if k < 0.35:
            tree.append(event())
        elif k < 0.65:
            tree.append({"t": "ebg", "id": next(ids), "b": [{"event": event(False, True), "body": None} for _ in range(rng.choice([2, 3]))]})
        t = task(attrs=[])
        if rng.random() < 0.7:
            t["attrs"].append({"name": "mk", "kind": "markov", "trans": markov})
        if rng.random() < 0.5:
            t["attrs"].append({"name": "ea", "kind": "discrete", "opts": [list(x) for x in zip(["a", "b", "c"], uneven(rng, 3))]})
        if rng.random() < 0.5:
            d = rand_dist(rng, rng.choice([2, 50]))
            d["p"] = [float("%g" % x) for x in d["p"]]
            t["attrs"].append({"name": "x", "kind": "expression", "expr": CALLS[d["n"]] % tuple(d["p"]), "draws": d})
        if not t["attrs"]:
            del t["attrs"]
        tree.append(t)
    if rng.random() < 0.4:
        n = rng.choice([2, 3])
        alone = rng.choice([0.15, 0.4, 0.7])
        ruled = rng.random() < 0.5
        tree.append(task(batch={
            "type": rng.choice(["Sequential", "Parallel"]), "dur": [[1, 1.0], [2, 0.8]],
            "rules": [[["size", ">=", n]]] if ruled else [],
            "size": [[1, alone], [n, 1 - alone]] if ruled or rng.random() < 0.3 else
                    [[1, alone]] + [[k, p * (1 - alone)] for k, p in zip((n, n + 2), rng.choice([(0.3, 0.7), (0.8, 0.2)]))]}))
    gap = scale * sum(1 for n in tree if n["t"] == "task") / max(1, sum(r["amount"] for r in pools[0]["res"])) * rng.choice([0.9, 1.2, 2])
    if rng.random() < 0.4:
        k = rng.choice([2, 3, 5])
        cum = [round(sum(uneven_p), 3) for uneven_p in _prefixes(uneven(rng, k))]
        arrival = {"n": "hist", "p": [round(gap * x, 3) for x in sorted(rng.sample([0.1, 0.4, 0.9, 1.2, 1.9, 3], k))], "cdf": cum[:-1] + [1.0]}
    else:
        arrival = rand_dist(rng, gap)
    spec = {"tree": {"t": "seq", "c": tree}, "pools": pools, "scale": scale, "arrival": arrival, "arrival_cal": "full",
            "start": (gen.MON + dt.timedelta(seconds=rng.choice([0, 9 * 3600, 61234]))).isoformat() + "+00:00", "cases": 600,
            "events_log": True, "terminate": False, "xml_order": rng.choice([0, 1]), "stat": False,
            "case_attrs": [{"name": "cd", "kind": "discrete", "opts": [list(x) for x in zip(["red", "blue", "gr\u00fcn, x"], uneven(rng, 3))]},
                           {"name": "cc", "kind": "continuous", "dist": rand_dist(rng, 50)}][: rng.choice([1, 2])]}
    return spec


def _prefixes(ps):
    return [ps[: i + 1] for i in range(len(ps))]


# ------------------------------------------------------------------ what to expect
_samples = {}


def sample(d, tag=0, size=REF):
    """A sample of the distribution, always the same one."""
    key = json.dumps([d, tag, size], sort_keys=True)
    if key not in _samples:
        if len(_samples) > 300:
            _samples.clear()
        state = np.random.get_state()
        np.random.seed(int(sha(key)[:8], 16))
        try:
            if d["n"] == "hist":
                ps = [b - a for a, b in zip([0] + d["cdf"], d["cdf"])]
                xs = np.random.RandomState(int(sha(key)[8:16], 16)).choice(d["p"], size, p=np.array(ps) / sum(ps))
            else:
                from pix_framework.statistics.distribution import DurationDistribution
                xs = np.array(DurationDistribution.from_dict(gen.d_json(d)).generate_sample(size), dtype=float)
        finally:
            np.random.set_state(state)
        _samples[key] = xs
    return _samples[key]


def apart(a, b):
    """Largest distance of two empirical distribution functions."""
    a, b = np.sort(a), np.sort(b)
    xs = np.concatenate([a, b])
    return float(np.max(np.abs(np.searchsorted(a, xs, side="right") / len(a) - np.searchsorted(b, xs, side="right") / len(b))))


def in_batch(row):
    return row.get("batch_id", "") not in ("", "None")


def lag(xs):
    """Rank correlation of each value with the next; None where values repeat too much."""
    if len(xs) < 100 or len(set(xs)) < len(xs) * 0.9:
        return None
    r = np.argsort(np.argsort(xs)).astype(float)
    return float(np.corrcoef(r[:-1], r[1:])[0, 1])


class Draws(Kind):
    name = "draws"

    def make(self, seed, prof):
        return {"kind": self.name, "prof": prof, "seed": seed}

    def run(self, desc):
        out = Outcome()
        spec = desc.get("spec") or make_spec(desc["seed"])
        with simrun.scratch() as d:
            net, bpmn, js = gen.write_scenario(spec, d)
            r = simrun.simulate(d, bpmn, js, spec, tape_of(desc), outputs=("log",), step_limit=3_000_000, cpu=120)
        out.values = r.values
        if r.error is not None:
            product_error(out, r.error)
            out.digest = sha(repr(r.error)[:80])
            return out
        table = simrun.parse_csv(r.files["log"])
        rows = [dict(zip(table[0], x)) for x in table[1:]]
        self.rows(out, spec, net, rows)
        out.sim_s = 0.0
        out.sig = out.digest = sha(r.files["log"])[:16]
        out.nontrivial = True
        return out

    def rows(self, out, spec, net, rows):
        nodes = {n["name"]: n["spec"] for n in net.nodes.values() if n["type"] in ("task", "event")}
        units = {u["name"]: u["prof"] for u in gen.resource_units(spec).values()}
        at = {}
        for x in rows:
            for k in ("enable_time", "start_time", "end_time"):
                x[k] = dt.datetime.fromisoformat(x[k].replace("Z", "+00:00"))
            x["node"] = nodes.get(x["activity"])
            if x["node"] is None:
                return
            at[int(x["case_id"]), x["node"]["id"]] = x
        at = dict(sorted(at.items()))
        rows.sort(key=lambda x: x["start_time"])
        top = spec["tree"]["c"]
        raced = {b["event"]["id"]: (n, i) for n in top if n["t"] == "ebg" for i, b in enumerate(n["b"])}
        # durations
        worked, lasted = {}, {}
        for x in rows:
            sec = (x["end_time"] - x["start_time"]).total_seconds()
            if x["node"]["t"] == "task":
                if not in_batch(x):
                    worked.setdefault((x["node"]["id"], units.get(x["resource"])), []).append(sec)
            else:
                lasted.setdefault(x["node"]["id"], []).append(sec)
        for n in gen.walk(spec["tree"]):
            if n["t"] == "task":
                for r, d in n["res"]:
                    self.continuous(out, "C05", "activity %s by %s" % (n["id"], r), worked.get((n["id"], r), ()), d)
            elif n["t"] == "event" and n["id"] not in raced:
                self.continuous(out, "C14", "event %s" % n["id"], lasted.get(n["id"], ()), n["dist"])
        for n in top:
            if n["t"] == "ebg":
                self.race(out, n, lasted)
        # arrivals
        firsts = sorted((c, x["enable_time"]) for (c, i), x in at.items() if i == top[0]["id"])
        gaps = [(b[1] - a[1]).total_seconds() for a, b in zip(firsts, firsts[1:])]
        self.continuous(out, "C13", "time between two arrivals", gaps, spec["arrival"])
        # attributes
        for a in spec.get("case_attrs", ()):
            self.attr(out, "case attribute", a, [x[a["name"]] for (c, i), x in at.items() if i == top[0]["id"]])
        tasks = [n for n in top if n["t"] == "task"]
        before = {}
        for n in tasks:
            xs = [(c, x) for (c, i), x in at.items() if i == n["id"]]
            for a in n.get("attrs", ()):
                got = [x[a["name"]] for _, x in xs]
                what = "attribute at activity %s:" % n["id"]
                if a["kind"] == "markov":
                    for s, opts in a["trans"].items():
                        self.discrete(out, "C10", "%s %s after %s" % (what, a["name"], s),
                                      [x[a["name"]] for c, x in xs if before.get(c) == s], opts.items())
                elif a["kind"] == "expression":
                    self.attr(out, what, {"name": a["name"], "kind": "continuous", "dist": a["draws"]}, got)
                else:
                    self.attr(out, what, a, got)
            before.update((c, x["mk"]) for c, x in xs)
        # batches
        for n in tasks:
            b = n.get("batch")
            if b:
                self.batches(out, n, b, sorted((x for (c, i), x in at.items() if i == n["id"]), key=lambda x: x["enable_time"]))

    def batches(self, out, node, b, xs):
        """Whether work is done alone is decided when no other work waits for a batch; a batch is fired by its last member."""
        times = [x["enable_time"] for x in xs]
        if len(set(times)) < len(times):
            out.probes["batch_order_unknown"] += 1
            return
        left = Counter(x["batch_id"] for x in xs if in_batch(x))
        sizes, waiting, got = list(left.values()), set(), []
        for x in xs:
            if not waiting:
                got.append(not in_batch(x))
            if in_batch(x):
                waiting.add(x["batch_id"])
                left[x["batch_id"]] -= 1
                if not left[x["batch_id"]]:
                    waiting.discard(x["batch_id"])
        p = dict((k, v) for k, v in b["size"])
        alone = p.pop(1, 0)
        self.discrete(out, "C19", "activity %s performed outside of a batch" % node["id"], got, [(True, alone), (False, 1 - alone)], slack=2)
        if not b["rules"]:
            self.discrete(out, "C19", "size of a batch of activity %s" % node["id"], [k for k in sizes if k > 1],
                          [(k, v / sum(p.values())) for k, v in p.items()], slack=2)

    def race(self, out, node, lasted):
        ds = np.array([sample(b["event"]["dist"], tag=i) for i, b in enumerate(node["b"])])
        won, best = ds.argmin(axis=0), ds.min(axis=0)
        ids = [b["event"]["id"] for b in node["b"]]
        total = sum(len(lasted.get(i, ())) for i in ids)
        for k, i in enumerate(ids):
            p = float(np.mean(won == k))
            out.probes["frequencies_judged"] += 1
            sd = math.sqrt(p * (1 - p) * total + total * total * (p * (1 - p) + 1e-4) / REF)
            n = len(lasted.get(i, ()))
            if abs(n - p * total) > SIGMAS * sd + 2:
                out.add("C14", "event %s wins %d of %d times, expected %.1f +- %.1f" % (i, n, total, p * total, sd))
            ref = best[won == k]
            if len(ref) > 500:
                self.against(out, "C14", "event %s, when it is the first," % i, lasted.get(i, ()), ref)

    def attr(self, out, what, a, got):
        what = "%s %s" % (what, a["name"])
        if a["kind"] == "discrete":
            self.discrete(out, "C10", what, got, a["opts"])
        else:
            try:
                xs = [float(v) for v in got]
            except ValueError:
                return      # judged elsewhere
            self.continuous(out, "C10", what, xs, a["dist"], 1e-3)

    def continuous(self, out, prop, what, xs, d, tol=1.01):
        if len(xs) < ENOUGH:
            out.probes["too_few_to_judge"] += 1
            return
        if d["n"] == "fix":
            bad = [x for x in xs if abs(x - d["p"][0]) > tol]
            out.probes["samples_judged"] += 1
            if bad:
                out.add(prop, "%s takes %s, always %s configured" % (what, bad[0], d["p"][0]))
            return
        self.against(out, prop, what, xs, sample(d), tol)

    @staticmethod
    def against(out, prop, what, xs, ref, tol=1.01):
        n, m = len(xs), len(ref)
        if n < ENOUGH:
            out.probes["too_few_to_judge"] += 1
            return
        out.probes["samples_judged"] += 1
        xs = np.asarray(xs, dtype=float)
        far = min(apart(xs + s, ref) for s in ((0.0, -tol / 2, -tol) if tol > 0.5 else (0.0,)))
        lim = KS * math.sqrt((n + m) / (n * m))
        if far > lim:
            out.add(prop, "%s does not follow its distribution: distance %.3f > %.3f over %d draws (median %.6g, expected %.6g)" % (
                what, far, lim, n, float(np.median(xs)), float(np.median(ref))))
            return
        # the draws follow each other independently
        r = lag(xs)
        if r is not None and abs(r) > 6.5 / math.sqrt(n):
            out.add(prop, "%s: each of %d draws depends on the one before (rank correlation %.2f)" % (what, n, r))
        sd = float(ref.std()) * math.sqrt(1 / n + 1 / m)
        if abs(float(xs.mean()) - float(ref.mean())) > SIGMAS * sd + tol:
            out.add(prop, "%s has mean %.6g over %d draws, its distribution says %.6g +- %.3g" % (
                what, float(xs.mean()), n, float(ref.mean()), sd))

    @staticmethod
    def discrete(out, prop, what, got, opts, slack=0, ordered=True):
        n, count = len(got), Counter(got)
        if n < ENOUGH:
            out.probes["too_few_to_judge"] += 1
            return
        opts = list(opts)
        if n >= 200 and sum(opts_p for _, opts_p in opts) > 0.999 and ordered:
            q, c = sum(p * p for _, p in opts), sum(p ** 3 for _, p in opts)
            same = sum(a == b for a, b in zip(got, got[1:]))
            sd = math.sqrt(max(0, n * (q - q * q) + 2 * n * (c - q * q)))
            out.probes["frequencies_judged"] += 1
            if abs(same - (n - 1) * q) > 6.5 * sd + 2:
                out.add(prop, "%s repeats in %d of %d cases, expected %.1f +- %.1f" % (what, same, n, n * q, sd))
        for v, p in opts:
            out.probes["frequencies_judged"] += 1
            sd = math.sqrt(n * p * (1 - p))
            if abs(count.get(v, 0) - n * p) > SIGMAS * sd + 1e-6 + slack:
                out.add(prop, "%s is %s in %d of %d cases, expected %.1f +- %.1f" % (what, v, count.get(v, 0), n, n * p, sd))

    def concretise(self, desc):
        return desc if "spec" in desc else dict(desc, spec=make_spec(desc["seed"]))

    def shrinks(self, desc):
        s = desc["spec"]
        for i in range(1, len(s["tree"]["c"])):
            t = json.loads(json.dumps(s))
            del t["tree"]["c"][i]
            yield dict(desc, spec=t)
        for i in range(len(s["case_attrs"])):
            t = json.loads(json.dumps(s))
            del t["case_attrs"][i]
            yield dict(desc, spec=t)


register(Draws())
