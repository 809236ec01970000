"""Episodes that run one simulation under different surroundings (C18): after other
simulations in the same process, under another wall clock, hash seed, time zone or
locale, with other outputs requested, through the API or the command line."""
import datetime as dt
import json
import os
import subprocess
import sys

from . import episodes, gen, seam, simrun
from .episodes import Kind, Outcome, product_error, register, rng_for, sha, spec_of, tape_of
from .iofault import IO, OUT_ROLES, in_child, span
from .profiles import P

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROFS = ["base", "flow", "attr", "cond", "limit2", "prio", "event", "term", "stat", "arrive", "batch"]


def plain(err):
    return None if err is None else "%s: %s [%s]" % (type(err).__name__, str(err)[:120], simrun.where(err))


def lifetime(spec, seed, tape=None, outputs=("stat", "log"), **kw):
    """One simulation in this process; only plain data comes back."""
    with simrun.scratch() as d:
        net, bpmn, js = gen.write_scenario(spec, d)
        r = simrun.simulate(d, bpmn, js, spec, seam.Tape(seed, tape), outputs=outputs, **kw)
    res = {"files": {k: r.files.get(k) for k in OUT_ROLES}, "error": plain(r.error), "crashed": r.crashed,
           "draws": r.draws, "fired": dict(r.fired), "values": r.values}
    if not outputs and r.error is None and not r.crashed:
        res["api"] = api_rows(net, spec, r.result)
    return res


def api_rows(net, spec, result):
    """What a caller without output files gets back, in the shape of the files."""
    if not isinstance(result, tuple):    # with given arrival times
        result = result.log_info.compute_process_kpi(result), result.log_info
    kpis, log_info = result
    units = gen.resource_units(spec)
    rows = []
    for trace in log_info.trace_list:
        for ev in trace.event_list:
            task = ev.task_id in net.nodes and net.nodes[ev.task_id]["type"] == "task"
            if not task and not spec["events_log"]:
                continue
            rows.append([str(trace.p_case), net.nodes[ev.task_id]["name"], iso(ev.enabled_datetime), iso(ev.started_datetime),
                         iso(ev.completed_datetime), units[ev.resource_id]["name"] if task else "No assigned resource"])
    proc, tasks, res, start, end = kpis
    stat = {"start": str(start), "end": str(end)}
    for name, k in (("cycle_time", proc.cycle_time), ("processing_time", proc.processing_time),
                    ("idle_cycle_time", proc.idle_cycle_time), ("idle_processing_time", proc.idle_processing_time),
                    ("waiting_time", proc.waiting_time), ("idle_time", proc.idle_time)):
        stat[name] = (k.min, k.max, k.avg)
    stat["res"] = {u: (k.task_allocated, k.worked_time, k.available_time, k.utilization) for u, k in res.items()}
    return {"rows": sorted(rows), "stat": stat}


def iso(t):
    return "%s.%06d%s" % (t.strftime("%Y-%m-%d %H:%M:%S"), t.microsecond, t.strftime("%z"))


def norm_time(s):
    t = dt.datetime.fromisoformat(s)
    return iso(t)


def near(a, b):
    return abs(a - b) <= 1e-6 + 1e-9 * abs(b)


class Iso(Kind):
    """The same simulation alone in a fresh process and after a history of others."""
    name = "iso"

    def opts(self, desc):
        if "iso" in desc:
            return desc["iso"]
        r = rng_for(desc, "iso")
        hist = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            h = {"seed": r.getrandbits(40), "prof": r.choice(PROFS), "outputs": r.choice([["stat", "log"], ["log"], ["stat"], []]),
                 "cases": r.choice([1, 2, 3, 6]), "same": r.random() < 0.3, "faults": []}
            k = r.random()
            if k < 0.25:
                h["faults"] = [{"at": "draw", "nth": r.choice([0, 1, 5, 20, 60]), "kind": r.choice(["exc", "interrupt"])}]
            elif k < 0.4:
                h["faults"] = [{"at": "write", "role": r.choice(["log", "stat", "warnings"]), "nth": 0,
                                "kind": r.choice(["torn", "enospc", "eio"])}]
            elif k < 0.5:
                h["faults"] = [{"at": "open", "role": r.choice(["model", "params", "log", "warnings"]), "nth": 0,
                                "kind": r.choice(["enoent", "eacces"])}]
            hist.append(h)
        return {"hist": hist, "clock": r.choice(["1999-12-31T23:59:59.900000", "2024-02-29T12:00:00", "2038-01-19T03:14:07.500000",
                                                 "2024-06-15T03:30:00"]),
                "variants": r.sample(["log", "stat", "api", "cli", "twice"], 3), "step": r.choice([0, 86400 * 30, -7200])}

    def run(self, desc):
        out = Outcome()
        spec = spec_of(desc)
        spec["stat"] = True
        o = self.opts(desc)
        tape = desc.get("tape")
        alone = in_child(lifetime, spec, desc["seed"], tape)
        if alone["error"]:
            out.add("*", "simulation fails: " + alone["error"])
            return out
        seen = in_child(self.after_history, spec, desc["seed"], tape, o)
        for h in seen["hist"]:
            out.fired.update(h["fired"])
            out.probes["earlier_run_%s" % ("failed" if h["error"] else "succeeded")] += 1
            if h["error"] and not h["fired"]:
                out.add("*", "simulation fails: " + h["error"])
        for label, x in seen["runs"]:
            out.probes["compared:" + label.split()[0]] += 1
            self.compare(out, spec, label, alone, x)
        if o["step"] or True:
            out.fired["clock_moved"] += 1
        out.values = alone["values"]
        table = simrun.parse_csv(alone["files"]["log"])
        out.sim_s = span(table) if len(table) > 1 else 0
        out.sig = sha(json.dumps(o, sort_keys=True), alone["files"]["log"])[:16]
        out.nontrivial = len(table) > 2
        out.digest = sha(out.sig, *[alone["files"][k] or b"" for k in OUT_ROLES])
        return out

    @staticmethod
    def after_history(spec, seed, tape, o):
        res = {"hist": [], "runs": []}
        for h in o["hist"]:
            hs = dict(spec, cases=h["cases"]) if h["same"] else dict(gen.gen_spec(h["seed"], P[h["prof"]]), cases=h["cases"])
            res["hist"].append(lifetime(hs, h["seed"], None, tuple(h["outputs"]), faults=h["faults"]))
        c = dt.datetime.fromisoformat(o["clock"])
        env = dict(clock0=c, faults=[{"at": "clock", "nth": 0, "by": o["step"]}] if o["step"] else [])
        res["runs"].append(("after %d other simulations" % len(o["hist"]), lifetime(spec, seed, tape, **env)))
        for v in o["variants"]:
            if v == "cli" and not spec.get("fixed"):    # the command line takes no given arrival times
                res["runs"].append(("cli", cli_run(spec, seed, tape)))
            elif v in ("twice", "cli"):
                res["runs"].append(("twice", lifetime(spec, seed, tape)))
            else:
                res["runs"].append((v + " only", lifetime(spec, seed, tape, () if v == "api" else (v,))))
        return res

    @staticmethod
    def compare(out, spec, label, a, b):
        if b["error"]:
            out.add("C18", "%s: fails with %s, alone it does not" % (label, b["error"]))
            return
        if "api" in b:
            table = simrun.parse_csv(a["files"]["log"])
            rows = sorted([r[0], r[1], norm_time(r[2]), norm_time(r[3]), norm_time(r[4]), r[5]] for r in table[1:])
            if rows != b["api"]["rows"]:
                bad = [x for x in b["api"]["rows"] if x not in rows][:1] + [x for x in rows if x not in b["api"]["rows"]][:1]
                out.add("C18", "results returned without output files differ from the log file: %s" % bad)
            st = simrun.parse_csv(a["files"]["stat"])
            for name, want in b["api"]["stat"].items():
                if name == "res":
                    for row in st:
                        if row and row[0] in want and len(row) >= 6:
                            u, n, w, av = float(row[2]), int(row[3]), float(row[4]), float(row[5])
                            n2, w2, av2, u2 = want[row[0]]
                            if n != n2 or not (near(w, w2) and near(av, av2) and near(u, u2)):
                                out.add("C18", "resource %s returned %s, statistics file says %s" % (row[0], want[row[0]], row[2:6]))
                elif name in ("start", "end"):
                    f = [row for row in st if row and row[0] == {"start": "started_at", "end": "completed_at"}[name]]
                    if f and f[0][1] != want:
                        out.add("C18", "returned %s %s, statistics file says %s" % (name, want, f[0][1]))
                else:
                    f = [row for row in st if row and row[0] == name]
                    for row in f:
                        if not all(near(float(x), y) for x, y in zip(row[1:4], want)):
                            out.add("C18", "returned %s %s, statistics file says %s" % (name, want, row[1:4]))
            return
        roles = {"log only": ("log", "warnings"), "stat only": ("stat", "warnings")}.get(label, OUT_ROLES)
        w = {k: a["files"][k] for k in roles}
        g = {k: b["files"][k] for k in roles}
        if w != g:
            out.add("C18", "%s: %s" % (label, IO.diff(w, g, "from the same simulation alone")))
        if a["draws"] != b["draws"]:
            out.add("C18", "%s: took %d random decisions instead of %d" % (label, b["draws"], a["draws"]))

    def concretise(self, desc):
        d = Kind.concretise(self, desc)
        d["iso"] = self.opts(desc)
        return d

    def shrinks(self, desc):
        o = desc["iso"]
        for i in range(len(o["hist"])):
            yield dict(desc, iso=dict(o, hist=o["hist"][:i] + o["hist"][i + 1:]))
        for i in range(len(o["variants"])):
            yield dict(desc, iso=dict(o, variants=o["variants"][:i] + o["variants"][i + 1:]))
        if o["step"]:
            yield dict(desc, iso=dict(o, step=0))
        yield from episodes.shrink_spec_desc(desc)


def cli_run(spec, seed, tape):
    """The command line entry point, under the same world."""
    from click.testing import CliRunner
    from cli.diff_res_bpsim import cli
    import prosimos.simulation_engine as se
    with simrun.scratch() as d:
        net, bpmn, js = gen.write_scenario(spec, d)
        real = se.run_simulation

        def via_cli(bpmn_path, json_path, total_cases, stat_out_path=None, log_out_path=None, starting_at=None,
                    is_event_added_to_log=False, **kw):
            args = ["start-simulation", "--bpmn_path", bpmn_path, "--json_path", json_path, "--total_cases", str(total_cases),
                    "--stat_out_path", stat_out_path, "--log_out_path", log_out_path, "--starting_at", starting_at]
            if is_event_added_to_log or seed % 2:
                args += ["--is_event_added_to_log", str(bool(is_event_added_to_log))]
            se.run_simulation = real
            res = CliRunner().invoke(cli, args, catch_exceptions=False)
            if res.exit_code != 0:
                raise RuntimeError("exit code %d: %s" % (res.exit_code, res.output[-200:]))
        se.run_simulation = via_cli
        try:
            r = simrun.simulate(d, bpmn, js, spec, seam.Tape(seed, tape))
        finally:
            se.run_simulation = real
    return {"files": {k: r.files.get(k) for k in OUT_ROLES}, "error": plain(r.error), "crashed": r.crashed,
            "draws": r.draws, "fired": dict(r.fired), "values": r.values}


class Hash(Kind):
    """A batch of simulations repeated in a fresh interpreter with another hash seed, time zone and locale."""
    name = "hash"

    def opts(self, desc):
        if "hash" in desc:
            return desc["hash"]
        r = rng_for(desc, "hash")
        env = {"PYTHONHASHSEED": str(r.randint(1, 4_000_000_000))}
        if r.random() < 0.7:
            env["TZ"] = r.choice(["EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "IST-5:30", "UTC"])
        if r.random() < 0.5:
            env.update(LC_ALL="C", LANG="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
        return {"env": env, "runs": [[r.getrandbits(40), r.choice(PROFS)] for _ in range(40)], "raw": r.random() < 0.5}

    def specs(self, desc, o):
        for seed, prof in o["runs"]:
            s = prof if isinstance(prof, dict) else gen.gen_spec(seed, P[prof])
            s["stat"] = True
            if o["raw"]:
                s["raw_json"] = True
                for p in s["pools"]:
                    p["name"] = "P\u00f6\u00f6l " + p["id"]
            yield seed, s

    def run(self, desc):
        out = Outcome()
        o = self.opts(desc)
        batch = list(self.specs(desc, o))
        here = in_child(run_batch, batch)
        env = {k: v for k, v in os.environ.items() if k not in ("PYTHONUTF8", "LC_ALL", "LANG", "TZ")}
        env.update({"TZ": "UTC", "PYTHONUTF8": "1", "PYTHONDONTWRITEBYTECODE": "1"})
        env.update(o["env"])
        p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(ROOT, "check.py"), "worker"],
                           input=json.dumps(batch).encode("ascii"), capture_output=True, env=env)
        try:
            there = json.loads(p.stdout.decode("ascii").strip().splitlines()[-1])
        except Exception:
            raise seam.HarnessError("worker: rc=%d %s" % (p.returncode, p.stderr[-600:]))
        for i, (a, b) in enumerate(zip(here, there)):
            if a["error"]:
                out.add("*", "simulation fails: " + a["error"])
            elif a != b:
                what = b["error"] or [k for k in a if a[k] != b[k]]
                out.add("C18", "run %d (seed %d) differs under another %s: %s" % (
                    i, batch[i][0], "/".join(sorted(o["env"])), what))
        out.probes["runs_repeated_in_other_interpreter"] += len(batch)
        for k in o["env"]:
            out.probes["env:" + k] += 1
        out.fired["hash_seed_changed"] += 1
        out.sim_s = sum(a.get("sim_s", 0) for a in here)
        out.sig = sha(json.dumps([a["log"] for a in here]))[:16]
        out.nontrivial = True
        out.digest = sha(json.dumps(here))
        return out

    def concretise(self, desc):
        d = dict(desc)
        d["hash"] = self.opts(desc)
        return d

    def shrinks(self, desc):
        o = desc["hash"]
        n = len(o["runs"])
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                rest = o["runs"][:i] + o["runs"][i + size:]
                if rest:
                    yield dict(desc, hash=dict(o, runs=rest))
            size //= 2
        for k in list(o["env"]):
            if k != "PYTHONHASHSEED":
                yield dict(desc, hash=dict(o, env={a: b for a, b in o["env"].items() if a != k}))
        if n == 1:
            seed, prof = o["runs"][0]
            s = prof if isinstance(prof, dict) else gen.gen_spec(seed, P[prof])
            for d in episodes.shrink_spec_desc({"spec": s}):
                yield dict(desc, hash=dict(o, runs=[[seed, d["spec"]]]))


def run_batch(batch):
    res = []
    for seed, spec in batch:
        x = lifetime(spec, seed)
        r = {"error": x["error"], "draws": x["draws"]}
        for k in OUT_ROLES:
            r[k] = None if x["files"][k] is None else sha(x["files"][k])
        try:
            r["sim_s"] = span(simrun.parse_csv(x["files"]["log"]))
        except Exception:
            r["sim_s"] = 0
        res.append(r)
    return res


def worker():
    batch = json.loads(sys.stdin.buffer.read().decode("ascii"))
    print(json.dumps(run_batch(batch)))
    return 0


register(Iso())
register(Hash())
