"""Episodes that count: choices made hundreds of times, compared with their probabilities (C11)."""
import json
import math
import sys
from collections import Counter

from . import audit, episodes, gen, simrun
from .episodes import Kind, Outcome, product_error, register, sha, spec_of, tape_of

SIGMAS = 6.0


def one_task(node):
    """The first task below a node, alone."""
    for n in gen.walk(node):
        if n["t"] == "task":
            return n
    return None


def flatten(spec, cases):
    """Keep the choices of the top level; each of their branches is one task or nothing."""
    s = json.loads(json.dumps(spec))
    kids = []
    for c in s["tree"]["c"]:
        if c["t"] in ("xor", "or"):
            for b in c["b"]:
                b["body"] = one_task(b["body"]) if b["body"] is not None else None
            if sum(1 for b in c["b"] if b["body"] is None) > 1:
                continue
            kids.append(c)
        elif c["t"] == "loop":
            t = one_task(c["body"])
            if t is not None and 0 < c["p"] < 1:
                c["body"] = {"t": "seq", "c": [t]}
                c["redo"] = None
                kids.append(c)
        elif c["t"] == "task":
            kids.append(c)
    s["tree"]["c"] = kids
    s["cases"] = cases
    s["terminate"] = False
    return s


def expectations(node, attrs):
    """Probability of each branch for a case with these attributes; None: not judged."""
    ps = [b["p"] for b in node["b"]]
    conds = [b.get("cond") for b in node["b"]]
    if any(c is not None for c in conds):
        dflt = node.get("default")
        held = []
        for i, c in enumerate(conds):
            if c is None:
                if i != dflt:
                    return None
                held.append(False)
                continue
            v = audit.match_cond(c, attrs)
            if v is None:
                return None
            held.append(v)
        if any(held):
            if node["t"] == "or":
                return [1.0 if h else 0.0 for h in held]
            tot = sum(p for p, h in zip(ps, held) if h)
            return [p / tot if h else 0.0 for p, h in zip(ps, held)] if tot > 0 else None
        if dflt is not None:
            return [1.0 if i == dflt else 0.0 for i in range(len(ps))]
    if node["t"] == "xor":
        return ps
    none = math.prod(1 - p for p in ps)
    return [p + none * p for p in ps]


class Freq(Kind):
    name = "freq"

    def run(self, desc):
        out = Outcome()
        spec = spec_of(desc) if "flat" in desc else flatten(spec_of(desc), 300)
        if not any(c["t"] in ("xor", "or", "loop") for c in spec["tree"]["c"]) or spec["tree"]["c"][0]["t"] != "task":
            out.digest = "nothing to count"
            return out
        with simrun.scratch() as d:
            net, bpmn, js = gen.write_scenario(spec, d)
            r = simrun.simulate(d, bpmn, js, spec, tape_of(desc), outputs=("log",), step_limit=3_000_000, cpu=120)
        out.values = r.values
        if r.error is not None:
            product_error(out, r.error)
            out.digest = sha(repr(r.error)[:80])
            return out
        table = simrun.parse_csv(r.files["log"])
        head = table[0]
        byname = {n["name"]: n["spec"]["id"] for n in net.nodes.values() if n["type"] == "task"}
        cases = {}
        for row in table[1:]:
            cases.setdefault(row[0], []).append(dict(zip(head, row)))
        done = {c: Counter(byname.get(x["activity"]) for x in rows) for c, rows in cases.items()}
        for node in spec["tree"]["c"]:
            if node["t"] == "loop":
                self.loop(out, node, done)
            elif node["t"] in ("xor", "or"):
                self.split(out, node, cases, done, {a["name"] for a in spec.get("case_attrs", [])})
        out.sim_s = 0.0
        out.sig = sha(r.files["log"])[:16]
        out.digest = out.sig
        out.nontrivial = True
        return out

    def loop(self, out, node, done):
        t = node["body"]["c"][0]["id"]
        rounds = sum(c[t] for c in done.values())
        again = rounds - len(done)
        if any(c[t] == 0 for c in done.values()) or not rounds:
            return
        self.judge(out, "another round of loop %s" % node["id"], again, rounds * node["p"],
                   rounds * node["p"] * (1 - node["p"]))

    def split(self, out, node, cases, done, names):
        ids = [b["body"]["id"] if b["body"] is not None else None for b in node["b"]]
        got = [0] * len(ids)
        mean, var = [0.0] * len(ids), [0.0] * len(ids)
        for c, rows in cases.items():
            attrs = {k: v for k, v in rows[0].items() if k in names}
            want = expectations(node, attrs)
            if want is None:
                out.probes["choice_not_judged"] += 1
                continue
            took = [i is not None and done[c][i] > 0 for i in ids]
            if node["t"] == "xor" and None in ids:
                took[ids.index(None)] = not any(took)
            for i, p in enumerate(want):
                got[i] += took[i]
                mean[i] += p
                var[i] += p * (1 - p)
        for i, b in enumerate(node["b"]):
            if ids[i] is None and node["t"] == "or":
                continue        # doing nothing beside other branches cannot be seen
            self.judge(out, "branch %d of %s split %s" % (i, node["t"], node["id"]), got[i], mean[i], var[i])

    @staticmethod
    def judge(out, what, got, mean, var):
        out.probes["frequencies_judged"] += 1
        if abs(got - mean) > SIGMAS * math.sqrt(max(var, 0.0)) + 1e-6:
            out.add("C11", "%s is taken %d times, its probability says %.1f +- %.1f" % (what, got, mean, math.sqrt(max(var, 0))))

    def concretise(self, desc):
        if "flat" in desc:
            return desc
        return dict(desc, spec=flatten(spec_of(desc), 300), flat=True)

    def shrinks(self, desc):
        s = desc["spec"]
        for i in range(1, len(s["tree"]["c"])):
            t = json.loads(json.dumps(s))
            del t["tree"]["c"][i]
            yield dict(desc, spec=t)


register(Freq())
