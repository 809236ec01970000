"""Episodes in which the storage fails or the process dies (C17), and episodes that
compare one simulation under different surroundings (C18)."""
import datetime as dt
import json
import os
import pickle
import subprocess
import sys

from . import audit, episodes, gen, seam, simrun
from .episodes import Kind, Outcome, product_error, register, rng_for, sha, spec_of, tape_of

OUT_ROLES = ("log", "stat", "warnings")
FATAL = ("torn", "enospc", "eio")


def in_child(fn, *args):
    """fn(*args) in a forked child: nothing it does to module state survives."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            try:
                res = ("ok", fn(*args))
            except BaseException as e:  # noqa
                import traceback
                res = ("err", traceback.format_exc(limit=8) + repr(e)[:200])
            with os.fdopen(wr, "wb") as f:
                pickle.dump(res, f)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise seam.HarnessError("child died")
    kind, val = pickle.loads(data)
    if kind == "err":
        raise seam.HarnessError(val)
    return val


def err_name(e):
    return None if e is None else type(e).__name__


class IO(Kind):
    """Reference run, then the same run with one or two storage faults or a crash, then a restart."""
    name = "io"

    def opts(self, desc):
        if "io" in desc:
            return desc["io"]
        r = rng_for(desc, "io")
        o = {"outputs": r.choice([["stat", "log"], ["stat", "log"], ["log"], ["stat"]]),
             "buffer": r.choice([16, 64, 200, 1024, None]), "flush": r.choice([1, 2, 5, None, None]),
             "u": [r.random() for _ in range(12)],
             "what": r.choices(["write", "open", "close", "draw", "masked", "read"], [6, 2, 2, 3, 1.5, 2])[0],
             "two": r.random() < 0.2, "restart_cases": r.random() < 0.4}
        return o

    def faults(self, o, ref):
        """Where to strike, relative to what the reference run did."""
        u = o["u"]
        roles = [x for x in o["outputs"]] + ["warnings"]
        fs = []

        def one(k):
            a, b, c = u[k], u[k + 1], u[k + 2]
            w = o["what"]
            if w == "draw":
                n = max(1, ref.draws)
                kind = ["crash", "crash", "exc", "interrupt"][int(a * 4)]
                # strike early, late, or anywhere
                at = int(b * n) if c < 0.7 else (n - 1 - int(b * min(n, 5)) if c < 0.9 else int(b * min(n, 5)))
                return {"at": "draw", "nth": max(0, at), "kind": kind}
            if w == "read" and u[k + 3] < 0.5:
                return {"at": "read", "role": ["model", "params"][int(a * 2)], "nth": int(b * 3), "sticky": c < 0.8,
                        "kind": ["eio", "short"][int(u[k + 3] * 4)]}
            if w == "read":
                return {"at": "open", "role": ["model", "params"][int(a * 2)], "nth": int(b * 2),
                        "kind": ["enoent", "eio"][int(c * 2)]}
            role = roles[int(a * len(roles))]
            if w == "open":
                return {"at": "open", "role": role, "nth": 0, "kind": ["eacces", "enospc"][int(b * 2)]}
            if w == "close":
                return {"at": "close", "role": role, "nth": 0, "kind": ["eio", "crash"][int(b * 2)]}
            n = max(1, ref.io_counts.get(("write", role), 1))
            nth = int(b * n) if c < 0.6 else (n - 1 if c < 0.85 else 0)
            kind = "short" if w == "masked" else ["torn", "enospc", "eio", "crash"][int(u[k + 3] * 4)]
            f = {"at": "write", "role": role, "nth": nth, "kind": kind}
            if kind in ("enospc", "eio") and u[k + 3] * 16 % 1 < 0.5:
                f["sticky"] = True
            return f

        fs.append(one(0))
        if o["two"]:
            fs.append(one(4))
        return fs

    def run(self, desc):
        out = Outcome()
        spec = spec_of(desc)
        o = self.opts(desc)
        with simrun.scratch() as d:
            net, bpmn, js = gen.write_scenario(spec, d)
            d0, d1 = os.path.join(d, "ref"), os.path.join(d, "out")
            os.mkdir(d0)
            os.mkdir(d1)

            def go(folder, faults, cases=None, outputs=None, flush="o", buf="o"):
                return simrun.simulate(d, bpmn, js, spec, tape_of(desc), faults=faults, outputs=outputs or o["outputs"],
                                       buffer_size=o["buffer"] if buf == "o" else buf,
                                       flush_every=o["flush"] if flush == "o" else flush, outdir=folder, cases=cases)
            # what the disk shows must not depend on how the data was cut into writes
            ref = go(d0, [], flush=None, buf=None)
            if ref.error is not None:
                product_error(out, ref.error)
                out.digest = sha(repr(ref.error)[:60])
                return out
            want = {k: ref.files.get(k) for k in OUT_ROLES}
            for k in list(o["outputs"]) + ["warnings"]:
                if want[k] is None:
                    out.add("C17", "simulation reports success but leaves no %s file" % k)
            probe = go(d0, [])
            if {k: probe.files.get(k) for k in OUT_ROLES} != want:
                out.add("C17", self.diff(want, probe.files, "written in smaller pieces"))
                return out
            faults = desc.get("faults") or self.faults(o, probe)
            if o["restart_cases"]:
                # an older, larger result already lies in the folder
                go(d1, [], cases=spec["cases"] + 3)
            r = go(d1, faults)
            out.fired.update(r.fired)
            out.faults = faults
            hard = [k for k in r.fired if k.split(":")[0] in FATAL + ("eacces", "enoent") or k.startswith("exc@")
                    or k.startswith("interrupt@")]
            got = {k: r.files.get(k) for k in OUT_ROLES}
            if r.crashed:
                out.probes["crashed"] += 1
            elif r.error is not None:
                out.probes["failed:" + type(r.error).__name__] += 1
                if isinstance(r.error, (seam.StepLimit, simrun.Hang)):
                    product_error(out, r.error)
                elif not hard:
                    out.add("C17", "fails with %s: %s although nothing failed below it" % (
                        type(r.error).__name__, str(r.error)[:120]))
                elif not isinstance(r.error, (OSError, MemoryError, KeyboardInterrupt)):
                    # the cause may be wrapped; it must stay visible
                    c, seen = r.error, 0
                    while c is not None and not isinstance(c, (OSError, MemoryError, KeyboardInterrupt)) and seen < 5:
                        c, seen = c.__cause__ or c.__context__, seen + 1
                    if c is None or seen == 5:
                        out.add("C17", "injected %s surfaces as unrelated %s [%s]" % (
                            hard, type(r.error).__name__, simrun.where(r.error)))
            else:
                out.probes["succeeded"] += 1
                if hard:
                    out.add("C17", "reports success although %s failed" % ", ".join(hard))
                if got != want:
                    out.add("C17", self.diff(want, got, "after reported success"))
            if r.error is not None or r.crashed:
                for k in OUT_ROLES:
                    g, w = got[k], want[k]
                    if g is None or w is None:
                        continue
                    if o["restart_cases"] and self.untouched(r, k):
                        continue
                    if not w.startswith(g):
                        out.add("C17", "%s file left behind by the failed run is not a prefix of the complete one "
                                "(%d bytes, differs at %d)" % (k, len(g), common(g, w)))
                    elif len(g) < len(w):
                        out.probes["partial_%s" % k] += 1
            # restart: same folder, nothing fails any more
            r2 = go(d1, [])
            if r2.error is not None:
                out.add("C17", "after the failure a new run fails: %s: %s [%s]" % (
                    type(r2.error).__name__, str(r2.error)[:120], simrun.where(r2.error)))
            else:
                got2 = {k: r2.files.get(k) for k in OUT_ROLES}
                for k in OUT_ROLES:
                    if k != "warnings" and k not in o["outputs"]:
                        got2[k] = None
                if got2 != want:
                    out.add("C17", self.diff(want, got2, "in the run after the failure"))
                out.probes["restarts_checked"] += 1
            table = simrun.parse_csv(ref.files["log"]) if ref.files.get("log") else []
            out.nontrivial = bool(r.fired)
            out.sig = sha(json.dumps(faults, sort_keys=True), repr(sorted(r.fired.items())), repr(r.crashed),
                          err_name(r.error) or "", repr({k: None if v is None else len(v) for k, v in got.items()}))[:16]
            if len(table) > 2:
                out.sim_s = span(table)
            out.digest = sha(out.sig, *[v or b"" for v in want.values()])
            out.values = ref.values
        return out

    @staticmethod
    def untouched(r, role):
        return not any(n.startswith({"log": "log", "stat": "stat", "warnings": "simulation_w"}[role]) and
                       any(c in m for c in "wax+") for m, n in r.opens)

    @staticmethod
    def diff(want, got, when):
        for k in OUT_ROLES:
            w, g = want.get(k), got.get(k)
            if w != g:
                if w is None or g is None:
                    return "%s file %s %s" % (k, "missing" if g is None else "unexpected", when)
                i = common(g, w)
                return "%s file differs %s: %d instead of %d bytes, first at %d (%r, should be %r)" % (
                    k, when, len(g), len(w), i, g[i:i + 30], w[i:i + 30])
        return "same"

    def concretise(self, desc):
        d = Kind.concretise(self, desc)
        d["io"] = self.opts(desc)
        return d

    def shrinks(self, desc):
        if "faults" not in desc:
            o = self.run(desc)
            if getattr(o, "faults", None):
                yield dict(desc, faults=o.faults)
        fs = desc.get("faults") or []
        for i in range(len(fs)):
            if len(fs) > 1:
                yield dict(desc, faults=fs[:i] + fs[i + 1:])
        for i, f in enumerate(fs):
            for n in (0, f.get("nth", 0) // 2, f.get("nth", 0) - 1):
                if 0 <= n < f.get("nth", 0):
                    yield dict(desc, faults=fs[:i] + [dict(f, nth=n)] + fs[i + 1:])
        for k, v in (("restart_cases", False), ("flush", None), ("buffer", None)):
            if desc["io"].get(k) != v:
                yield dict(desc, io=dict(desc["io"], **{k: v}))
        yield from episodes.shrink_spec_desc(desc)


def common(a, b):
    n = min(len(a), len(b))
    for i in range(n):
        if a[i] != b[i]:
            return i
    return n


def span(table):
    try:
        ts = [dt.datetime.fromisoformat(r[i]) for r in table[1:] for i in (2, 4)]
        return (max(ts) - min(ts)).total_seconds()
    except Exception:
        return 0.0


class Big(Kind):
    """Real buffering: more rows than one write-out of the log holds."""
    name = "big"

    def run(self, desc):
        out = Outcome()
        spec = json.loads(json.dumps(spec_of(desc)))
        r = rng_for(desc, "big")
        with simrun.scratch() as d:
            net, bpmn, js = gen.write_scenario(spec, d)
            pilot = simrun.simulate(d, bpmn, js, spec, tape_of(desc), outputs=("log",), cases=20)
            if pilot.error is not None:
                product_error(out, pilot.error)
                return out
            rows = max(1, len(simrun.parse_csv(pilot.files["log"])) - 1)
            want_rows = r.choice([9_990, 10_050, 12_000, 20_100])
            cases = max(1, int(want_rows / (rows / 20)))
            spec["cases"] = cases
            os.mkdir(os.path.join(d, "o"))
            x = simrun.simulate(d, bpmn, js, spec, tape_of(desc), outputs=("stat", "log"), cases=cases, step_limit=5_000_000,
                                cpu=240, outdir=os.path.join(d, "o"))
            if x.error is not None:
                product_error(out, x.error)
                return out
            table = simrun.parse_csv(x.files["log"])
            os.mkdir(os.path.join(d, "p"))
            y = simrun.simulate(d, bpmn, js, spec, tape_of(desc), outputs=("log",), cases=cases, step_limit=5_000_000,
                                cpu=240, flush_every=10 ** 9, outdir=os.path.join(d, "p"))
            if y.error is None and y.files["log"] != x.files["log"]:
                out.add("C17", IO.diff({"log": y.files["log"]}, {"log": x.files["log"]},
                                       "when the log needs several write-outs"))
            ids = {row[0] for row in table[1:]}
            if spec["tree"]["c"][0]["t"] == "task" and len(ids) != cases:
                out.add("C17", "log of %d cases holds rows of %d cases" % (cases, len(ids)))
            out.probes["rows_over_10000"] += 1 if len(table) > 10_001 else 0
            out.probes["big_rows"] += len(table)
            out.sig = sha(x.files["log"])[:16]
            out.nontrivial = True
            out.sim_s = span(table)
            out.digest = out.sig
        return out


register(IO())
register(Big())
