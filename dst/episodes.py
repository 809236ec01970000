"""Kinds of simulated episodes.  An episode is described by a small JSON object and is
a pure function of it: same description, same outcome, in any process."""
import datetime as dt
import hashlib
import json
import random
from collections import Counter

from . import audit, gen, seam, simrun, stats_ref
from .profiles import P


class Outcome:
    def __init__(self):
        self.viol = []            # (property id or '*', message)
        self.probes = Counter()
        self.fired = Counter()
        self.sim_s = 0.0
        self.sig = ""             # which interleaving this was
        self.nontrivial = False
        self.digest = ""
        self.note = ""

    def add(self, prop, msg):
        if len(self.viol) < 80:
            self.viol.append((prop, msg))


def sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        if isinstance(p, str):
            p = p.encode("utf-8", "replace")
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()


def rng_for(desc, salt):
    return random.Random("%s:%s" % (salt, desc["seed"]))


def spec_of(desc):
    if "spec" in desc:
        return desc["spec"]
    return gen.gen_spec(desc["seed"], P[desc["prof"]])


def tape_of(desc, key="tape"):
    return seam.Tape(desc["seed"], desc.get(key))


def product_error(out, err, what="simulation"):
    """An exception out of the product on a valid scenario with no failure injected."""
    if isinstance(err, simrun.Hang):
        out.add("*", "%s does not terminate (processor time bound exceeded)" % what)
    elif isinstance(err, seam.StepLimit):
        out.add("*", "%s does not terminate: %s" % (what, err))
    else:
        out.add("*", "%s fails: %s: %s [%s]" % (what, type(err).__name__, str(err)[:160], simrun.where(err)))


class Kind:
    name = None

    def make(self, seed, prof):
        return {"kind": self.name, "prof": prof, "seed": seed}

    def run(self, desc):
        raise NotImplementedError

    def shrinks(self, desc):
        return ()

    def concretise(self, desc):
        """A self-contained description (no dependence on profiles)."""
        d = dict(desc)
        if "prof" in d and d.get("spec") is None and d["prof"] in P:
            d["spec"] = spec_of(d)
        return d

    def record(self, desc):
        return desc


class Sim(Kind):
    """Audited simulation.  Faults that must change nothing are injected in some runs:
    clock jumps, short writes, tiny buffers."""
    name = "sim"

    def plan(self, desc):
        if "env" in desc:
            return desc["env"]
        r = rng_for(desc, "env")
        env = {"faults": [], "buffer": None, "clock": None, "flush": None}
        if r.random() < 0.5:
            return env      # fault-free configuration
        if r.random() < 0.5:
            for _ in range(r.choice([1, 2])):
                env["faults"].append({"at": "clock", "nth": r.choice([0, 0, 1, 2, 3, 5, 8]),
                                      "by": r.choice([-86400 * 400, -3600, 3600, 86400, 86400 * 3000])})
        if r.random() < 0.6:
            env["buffer"] = r.choice([64, 256, 1024])
            env["flush"] = r.choice([None, 1, 3, 10])
            for _ in range(r.choice([1, 2, 4])):
                env["faults"].append({"at": "write", "kind": "short", "role": r.choice(["log", "stat", None]),
                                      "nth": r.choice([0, 1, 2, 3, 5, 9])})
        if r.random() < 0.5:
            env["clock"] = r.choice(["1999-12-31T23:59:59.900000", "2024-02-29T12:00:00", "2038-01-19T03:14:07.500000"])
        return env

    def run(self, desc):
        out = Outcome()
        spec = spec_of(desc)
        env = self.plan(desc)
        with simrun.scratch() as d:
            net, bpmn, js = gen.write_scenario(spec, d)
            outputs = ("stat", "log") if spec["stat"] else ("log",)
            r = simrun.simulate(d, bpmn, js, spec, tape_of(desc), faults=env["faults"], outputs=outputs,
                                clock0=dt.datetime.fromisoformat(env["clock"]) if env["clock"] else None,
                                buffer_size=env["buffer"], flush_every=env["flush"])
        out.fired.update(r.fired)
        out.values = r.values
        if r.error is not None:
            product_error(out, r.error)
            out.digest = sha(repr(r.error)[:80])
            return out
        self.judge(out, spec, net, r, desc)
        out.digest = sha(r.files.get("log", b""), r.files.get("stat", b""), r.files.get("warnings", b""))
        return out

    def judge(self, out, spec, net, r, desc):
        try:
            table = simrun.parse_csv(r.files.get("log", b""))
        except Exception as e:
            out.add("C17", "the event log is not readable: %s" % e)
            return
        if not table:
            out.add("C17", "the event log is empty")
            return
        a = audit.Audit(spec, net, table, warnings=r.files.get("warnings", b"").decode("utf-8", "replace"))
        a.run()
        if "stat" in r.files:
            try:
                stab = simrun.parse_csv(r.files["stat"])
            except Exception as e:
                out.add("C16", "the statistics file is not readable: %s" % e)
                stab = None
            if stab is not None and not a.probes["runs_not_judged_exact_weeks"]:
                stats_ref.audit_stats(a, stab)
            if stab is not None and desc["seed"] % 4 == 0:
                with simrun.scratch() as d:
                    stats_ref.audit_readback(a, r.files["stat"], d)
        for p, m in a.viol:
            out.add(p, m)
        out.probes.update(a.probes)
        out.sim_s = simrun.log_span(a.rows)
        out.sig = a.signature()
        out.nontrivial = len(a.rows) >= 2
        out.rows = len(a.rows)

    # -------------------------------------------------------------- minimisation
    def shrinks(self, desc):
        return shrink_spec_desc(desc)


def shrink_spec_desc(desc):
    spec = desc["spec"]

    def with_spec(s):
        d = dict(desc)
        d["spec"] = s
        d.pop("tape", None)
        return d

    def cp():
        return json.loads(json.dumps(spec))

    if desc.get("env") and (desc["env"]["faults"] or desc["env"]["buffer"] or desc["env"]["clock"]):
        d = dict(desc)
        d["env"] = {"faults": [], "buffer": None, "clock": None, "flush": None}
        yield d
        for i in range(len(desc["env"]["faults"])):
            d = dict(desc)
            d["env"] = dict(desc["env"], faults=desc["env"]["faults"][:i] + desc["env"]["faults"][i + 1:])
            yield d
    for n in (1, 2, 3, spec["cases"] // 2, spec["cases"] - 1):
        if 0 < n < spec["cases"]:
            s = cp()
            s["cases"] = n
            yield with_spec(s)
    # drop tree parts
    paths = []

    def visit(node, path):
        t = node["t"]
        if t == "seq":
            for i, c in enumerate(node["c"]):
                if len(node["c"]) > 1:
                    paths.append(("del", path + ["c"], i))
                visit(c, path + ["c", i])
        elif t in ("and", "race"):
            if len(node["b"]) > 2:
                for i in range(len(node["b"])):
                    paths.append(("del", path + ["b"], i))
            for i, c in enumerate(node["b"]):
                if t == "and":
                    paths.append(("hoist", path, c))
                visit(c, path + ["b", i])
        elif t in ("xor", "or"):
            for i, b in enumerate(node["b"]):
                if b["body"] is not None:
                    paths.append(("hoist", path, b["body"]))
                    if not (t == "x"):
                        paths.append(("null", path + ["b", i, "body"], None))
                    visit(b["body"], path + ["b", i, "body"])
        elif t == "ebg":
            for i, b in enumerate(node["b"]):
                paths.append(("hoist", path, b["event"]))
                if b["body"] is not None:
                    paths.append(("null", path + ["b", i, "body"], None))
                    visit(b["body"], path + ["b", i, "body"])
        elif t == "loop":
            paths.append(("hoist", path, node["body"]))
            if node["redo"] is not None:
                paths.append(("null", path + ["redo"], None))
                visit(node["redo"], path + ["redo"])
            visit(node["body"], path + ["body"])
        elif t == "task":
            if node.get("batch"):
                paths.append(("pop", path, "batch"))
            if node.get("attrs"):
                paths.append(("pop", path, "attrs"))
            if len(node["res"]) > 1:
                for i in range(len(node["res"])):
                    paths.append(("del", path + ["res"], i))
            for i, (rid, d) in enumerate(node["res"]):
                if d["n"] != "fix":
                    paths.append(("set", path + ["res", i, 1], gen.d_fix(float(int(sum(gen.d_bounds(d)) / 2) or 1))))

    visit(spec["tree"], ["tree"])
    for op, path, arg in paths:
        s = cp()
        cur = s
        ok = True
        if op in ("del", "pop"):
            for k in path:
                cur = cur[k]
            if op == "del":
                del cur[arg]
            else:
                cur.pop(arg)
        elif op in ("null", "set"):
            for k in path[:-1]:
                cur = cur[k]
            cur[path[-1]] = arg
        elif op == "hoist":
            for k in path[:-1]:
                cur = cur[k]
            cur[path[-1]] = json.loads(json.dumps(arg))
        tasks = [n for n in gen.walk(s["tree"]) if n["t"] == "task"]
        # structure rules of the generator must keep holding
        for n in gen.walk(s["tree"]):
            if n["t"] in ("xor", "or") and sum(1 for b in n["b"] if b["body"] is None) > 1:
                ok = False
            if n["t"] == "loop" and not (n["body"]["t"] == "seq" and n["body"]["c"]):
                ok = False
            if n["t"] == "seq" and not n["c"]:
                ok = False
        if s["tree"]["t"] != "seq" or not tasks:
            ok = False
        if ok:
            yield with_spec(s)
    for key in ("prio", "limit", "global_attrs", "case_attrs"):
        if spec.get(key) is not None:
            s = cp()
            s.pop(key)
            yield with_spec(s)
    s = cp()
    ch = False
    for p in s["pools"]:
        for r in p["res"]:
            if r["cal"] != "full":
                r["cal"] = "full"
                ch = True
    if ch:
        yield with_spec(s)
    for pi, p in enumerate(spec["pools"]):
        for ri, r in enumerate(p["res"]):
            if r["cal"] != "full":
                s = cp()
                s["pools"][pi]["res"][ri]["cal"] = "full"
                yield with_spec(s)
            if r["amount"] > 1:
                s = cp()
                s["pools"][pi]["res"][ri]["amount"] = 1
                yield with_spec(s)
    if spec["arrival_cal"] != "full":
        s = cp()
        s["arrival_cal"] = "full"
        yield with_spec(s)
    if spec["arrival"]["n"] != "fix":
        s = cp()
        s["arrival"] = gen.d_fix(float(int(sum(gen.d_bounds(spec["arrival"])) / 2)))
        yield with_spec(s)
    for k, v in (("xml_order", 0), ("stat", False), ("start", "2024-03-04T09:00:00+00:00"), ("terminate", False)):
        if spec.get(k) != v and not (k == "terminate" and spec["tree"]["c"][-1]["t"] == "race"):
            s = cp()
            s[k] = v
            yield with_spec(s)


KINDS = {}


def register(k):
    KINDS[k.name] = k
    return k


register(Sim())


def run_desc(desc):
    return KINDS[desc["kind"]].run(desc)
