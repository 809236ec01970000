"""Episodes that read the logs of two simulated histories back, replay and compare them (C24)."""
import contextlib
import csv
import datetime as dt
import io
import os
import random

from . import episodes, gen, seam, simrun
from .episodes import Kind, Outcome, register, rng_for, sha, spec_of, tape_of

US = dt.timedelta(microseconds=1)


def moment(text):
    return dt.datetime.fromisoformat(text)


def stamp(x):
    return x.to_pydatetime(warn=False) if hasattr(x, "to_pydatetime") else x


def emd(a, b):
    """Area between the two distribution functions."""
    if not a or not b:
        return None
    pts = sorted(set(a) | set(b))
    fa, fb, area = 0, 0, 0.0
    ca, cb = {}, {}
    for x in a:
        ca[x] = ca.get(x, 0) + 1
    for x in b:
        cb[x] = cb.get(x, 0) + 1
    for x, y in zip(pts, pts[1:]):
        fa += ca.get(x, 0)
        fb += cb.get(x, 0)
        area += abs(fa / len(a) - fb / len(b)) * (y - x)
    return area


def near(a, b):
    return abs(a - b) <= 1e-6 + 1e-9 * abs(b)


class Event:
    def __init__(self, row):
        self.task_id, self.started_at, self.completed_at = row["activity"], moment(row["start_time"]), moment(row["end_time"])


class Cmp(Kind):
    name = "cmp"

    def opts(self, desc):
        if "cmp" in desc:
            return desc["cmp"]
        r = rng_for(desc, "cmp")
        o = {"other": r.getrandbits(40), "cases": r.choice([1, 2, 3, 8]), "shift": r.choice([0, 0, 1800, 86400, -3600, 40 * 86400 + 59]),
             "bin": r.choice([1, 60, 3600, 86400]), "fault": None,
             "rewrite": [{"mix": r.choice([None, r.getrandbits(40)]), "offset": r.choice([None, None, 0, 7200, -16200, 20700]),
                          "z": r.random() < 0.3, "extra": r.random() < 0.3, "enabled": r.random() < 0.7} for _ in range(2)]}
        if r.random() < 0.15:
            o["fault"] = {"at": r.choice(["open", "read"]), "role": "first", "kind": "eio", "nth": 0}
            if o["fault"]["at"] == "read":
                o["fault"].update(nth=r.choice([0, 0, 1, 3]), kind=r.choice(["eio", "eio", "short"]), sticky=True)
        return o

    def run(self, desc):
        from bpdfr_discovery import emd_metric, log_parser
        from prosimos.fuzzy_engine.event_log_analyser import get_starting_datetimes
        from prosimos.simulation_properties_parser import parse_simulation_model
        out, spec, o = Outcome(), spec_of(desc), self.opts(desc)
        with simrun.scratch() as d:
            net, bpmn, js = gen.write_scenario(spec, d)
            logs, tables, true = [], [], []
            for k in range(2):
                sp = spec
                if k:
                    t = moment(spec["start"]) + dt.timedelta(seconds=o["shift"])
                    sp = dict(spec, cases=o["cases"], start=t.isoformat(timespec="microseconds"))
                sub = os.path.join(d, "run%d" % k)
                os.mkdir(sub)
                tape = tape_of(desc) if not k else seam.Tape(o["other"])
                r = simrun.simulate(d, bpmn, js, sp, tape, outputs=("log",), outdir=sub)
                if not k:
                    out.values = r.values
                if r.error is not None:
                    episodes.product_error(out, r.error)
                    out.digest = sha(repr(r.error)[:80])
                    return out
                p = os.path.join(d, "log%d.csv" % k)
                t = simrun.parse_csv(r.files["log"])
                true.append([dict(zip(t[0], x)) for x in t[1:]])
                t = self.rewritten(t, o["rewrite"][k])
                with open(p, "w", newline="", encoding="utf-8") as f:
                    csv.writer(f, lineterminator="\n").writerows(t)
                logs.append(p)
                tables.append([dict(zip(t[0], x)) for x in t[1:]])
            out.digest = sha(*[repr(t).encode() for t in tables])
            if not all(tables):
                return out
            w = seam.World(d, seam.Tape(o["other"]), buffer_size=64 if o["fault"] else None, faults=[o["fault"]] if o["fault"] else [])
            w.roles = {os.path.realpath(logs[0]): "first", os.path.realpath(logs[1]): "second", os.path.realpath(bpmn): "model"}
            try:
                with contextlib.redirect_stdout(io.StringIO()), simrun.cpu_limit(60):
                    with w:
                        traces = log_parser.event_list_from_csv(logs[0])
            except Exception as e:
                if simrun.from_harness(e):
                    raise
                traces = e
            out.fired.update(w.fired)
            if any(k.startswith("eio") for k in w.fired):
                out.probes["unreadable_logs"] += 1
                if not isinstance(traces, Exception) and traces:
                    out.add("C24", "reading the log failed (%s), yet %d of its cases are returned" % (sorted(w.fired), len(traces)))
                return out
            out.nontrivial = len(tables[0]) > 2
            moments = [[moment(x[k]) for x in t for k in ("start_time", "end_time")] for t in tables]
            out.sim_s = sum((max(m) - min(m)).total_seconds() for m in moments)
            out.sig = sha(repr(tables[0]).encode())[:16]
            if isinstance(traces, Exception):
                return self.error(out, traces, "reading the log")
            self.traces(out, traces, tables[0])
            try:
                times, first = get_starting_datetimes(logs[0])
                self.arrivals(out, times, first, tables[0])
                kpi = log_parser.compute_kpi_times_from_csv_log(logs[0], parse_simulation_model(bpmn))
                self.replayed(out, kpi, tables[0], self.sequential(spec))
                if self.blocks(spec):
                    self.enabled(out, kpi, true[0])
                if self.structured(spec):
                    self.conforms(out, parse_simulation_model(bpmn), tables[0], spec)
                a, b = [emd_metric.read_and_preprocess_log(p) for p in logs]
                self.frame(out, a, tables[0])
                self.distances(out, emd_metric, a, b, tables, o)
            except Exception as e:
                if simrun.from_harness(e):
                    raise
                self.error(out, e, "comparing logs")
        return out

    @staticmethod
    def rewritten(t, o):
        """The same history as another tool may have written it: other order, offset, columns."""
        head, rows = t[0], [list(x) for x in t[1:]]
        if o["mix"] is not None:
            random.Random(o["mix"]).shuffle(rows)
        if o["offset"] is not None:
            tz = dt.timezone(dt.timedelta(seconds=o["offset"]))
            for x in rows:
                for c in ("enable_time", "start_time", "end_time"):
                    k = head.index(c)
                    x[k] = moment(x[k]).astimezone(tz).isoformat(sep="T" if o["z"] else " ", timespec="microseconds")
                    if o["z"] and o["offset"] == 0:
                        x[k] = x[k][:-6] + "Z"
        if not o["enabled"]:
            k = head.index("enable_time")
            head, rows = head[:k] + head[k + 1:], [x[:k] + x[k + 1:] for x in rows]
        if o["extra"]:
            head, rows = ["note"] + head, [["row, %d" % k] + x for k, x in enumerate(rows)]
        return [head] + rows

    @staticmethod
    def error(out, err, what):
        out.add("C24", "%s fails: %s: %s [%s]" % (what, type(err).__name__, str(err)[:160], simrun.where(err)))
        return out

    @classmethod
    def sequential(cls, spec):
        return cls.structured(spec) and not any(n["t"] == "and" for n in gen.walk(spec["tree"]))

    @staticmethod
    def structured(spec):
        nodes = list(gen.walk(spec["tree"]))
        loops = [n for n in nodes if n["t"] == "loop"]
        # a loop that may pass silently can be passed any number of times; a limit leaves cases unfinished
        return (not spec.get("terminate") and not (loops and spec.get("limit")) and all(n["t"] in ("task", "seq", "xor", "loop", "and") for n in nodes)
                and not any(b["body"] is None for l in loops for n in gen.walk(l["body"]) if n["t"] == "xor" for b in n["b"]))

    @staticmethod
    def blocks(spec):
        nodes = list(gen.walk(spec["tree"]))
        return (not spec.get("terminate") and not (spec.get("limit") and any(n["t"] == "loop" for n in nodes))
                and all(n["t"] in ("task", "seq", "xor", "loop", "and", "or") for n in nodes))

    @staticmethod
    def enabled(out, kpi, rows):
        """Replayed, an activity waits since it was enabled by the completion of another."""
        per, want, skip = {}, {}, set()
        for x in rows:
            per.setdefault(x["case_id"], []).append(x)
        for xs in per.values():
            ends = [moment(x["end_time"]) for x in xs]
            ties = len(set(ends)) < len(ends) or len({x["start_time"] for x in xs}) < len(xs)
            for k, x in enumerate(xs):
                e, a = moment(x["enable_time"]), x["activity"]
                if ties or e not in ends[:k] + ends[k + 1:]:
                    skip.add(a)      # enabled by the arrival of the case, which the log does not tell
                want[a] = want.get(a, 0.0) + (moment(x["start_time"]) - e) / dt.timedelta(seconds=1)
        for a in sorted(set(want) - skip):
            out.probes["replayed_enablings"] += 1
            if a in kpi and not near(kpi[a][0], want[a]):
                out.add("C24", "activity %s replayed waits %.6f s, it waited %.6f s since it was enabled" % (a, kpi[a][0], want[a]))

    @staticmethod
    def traces(out, traces, rows):
        want = {}
        for x in rows:
            want.setdefault(x["case_id"], []).append(
                (x["activity"], x["resource"], moment(x["enable_time"]) if "enable_time" in x else None,
                 moment(x["start_time"]), moment(x["end_time"])))
        got = {}
        for t in traces:
            if t.p_case in got:
                out.add("C24", "case %s of the log is read as two" % t.p_case)
            got[t.p_case] = [(e.task_id, e.resource_id, stamp(e.enabled_at), stamp(e.started_at), stamp(e.completed_at))
                             for e in t.event_list]
        if list(got) != list(want):
            out.add("C24", "cases %s are read, the log has %s" % (list(got)[:9], list(want)[:9]))
        for c in got:
            for g, x in zip(got[c], want.get(c, [])):
                if g != x:
                    out.add("C24", "case %s: read %s, the log says %s" % (c, g, x))
                    break
            if len(got[c]) != len(want.get(c, [])):
                out.add("C24", "case %s: %d rows read of %d" % (c, len(got[c]), len(want.get(c, []))))
            out.probes["traces_read"] += 1

    @staticmethod
    def arrivals(out, times, first, rows):
        starts = {}
        for x in rows:
            t = moment(x["start_time"])
            starts[x["case_id"]] = min(t, starts.get(x["case_id"], t))
        want = sorted(starts.values())
        if stamp(first) != want[0]:
            out.add("C24", "the first case starts at %s, read as %s" % (want[0], first))
        if len(times) != len(want) or any(abs(a - (b - want[0]) / dt.timedelta(seconds=1)) > 1e-3 for a, b in zip(times, want)):
            out.add("C24", "cases start %s after the first, read as %s" % (
                [(b - want[0]) / dt.timedelta(seconds=1) for b in want][:9], times[:9]))
        out.probes["starting_times_read"] += len(want)

    @staticmethod
    def replayed(out, kpi, rows, sequential):
        """Enabling times of a process without parallel branches: the completion before."""
        want, last = {}, {}
        per = {}
        for x in rows:
            per.setdefault(x["case_id"], []).append(x)
        for xs in per.values():
            prev = None
            keys = [(moment(x["start_time"]), moment(x["end_time"])) for x in xs]
            if len({k[0] for k in keys}) < len(keys) or len({k[1] for k in keys}) < len(keys):
                sequential = False    # two activities starting together: their order in the log is all there is
            for k, x in sorted(zip(keys, xs), key=lambda y: y[0]):
                c = want.setdefault(x["activity"], [0.0, 0.0, 0])
                c[0] += ((k[0] - prev) if prev is not None else dt.timedelta()) / dt.timedelta(seconds=1)
                c[1] += (k[1] - k[0]) / dt.timedelta(seconds=1)
                c[2] += 1
                prev = k[1]
        for a in sorted(set(want) | set(kpi)):
            g, x = kpi.get(a), want.get(a)
            if g is None or x is None or g[2] != x[2] or sequential and not near(g[0], x[0]) or not near(g[1], x[1]):
                out.add("C24", "activity %s replayed: waiting, processing, count %s, the log says %s" % (a, g, x))
        out.probes["replayed_activities"] += len(want)
        out.probes["replayed_waitings"] += len(want) if sequential else 0

    @staticmethod
    def conforms(out, model, rows, spec):
        """Cases of a process are correct executions of it; without an activity before the last they are not."""
        per = {}
        for x in rows:
            per.setdefault(x["case_id"], []).append(x)
        straight = all(n["t"] in ("task", "seq") for n in gen.walk(spec["tree"]))
        for c, xs in per.items():
            if len({x["end_time"] for x in xs}) < len(xs):
                continue
            xs = sorted(xs, key=lambda x: (moment(x["end_time"]), moment(x["start_time"])))
            names = [x["activity"] for x in xs]
            events = [Event(x) for x in xs]
            ok, fired, pending, _ = model.reply_trace(names, {}, False, events)
            if not ok or not all(fired) or len(fired) != len(names) or pending:
                out.add("C24", "case %s is held for no execution of the process: %s, %s, %s" % (c, names, fired, pending))
            if straight and len(names) > 1:
                k = int(c) % (len(names) - 1)
                ok, fired, pending, _ = model.reply_trace(names[:k] + names[k + 1:], {}, False, events[:k] + events[k + 1:])
                if ok:
                    out.add("C24", "%s without %s is held for an execution of the process" % (names, names[k]))
                out.probes["deviations_judged"] += 1
            out.probes["replays_judged"] += 1

    @staticmethod
    def frame(out, df, rows):
        want = sorted((moment(x["end_time"]), moment(x["start_time"]), x["activity"], int(x["case_id"]), x["resource"]) for x in rows)
        got = [(stamp(r.end_time), stamp(r.start_time), r.activity, int(r.case_id), r.resource) for r in df.itertuples()]
        if got != want:
            bad = next((k for k, (g, x) in enumerate(zip(got, want)) if g != x), min(len(got), len(want)))
            out.add("C24", "row %d of the log in order of time: %s, should be %s" % (bad, got[bad:bad + 1], want[bad:bad + 1]))
        if list(df.index) != list(range(len(got))):
            out.add("C24", "rows are not numbered")

    def distances(self, out, em, a, b, tables, o):
        ts = [[moment(x[k]) for k in ("start_time", "end_time") for x in t] for t in tables]
        st = min(moment(x["start_time"]) for t in tables for x in t).astimezone(dt.timezone.utc)
        st = st.replace(minute=0, second=0, microsecond=0)
        hour = dt.timedelta(hours=1)
        for name, fn, unit in (("hours", None, hour), ("days", em.discretize_to_day, hour * 24), ("minutes", em.discretize_to_minutes, hour / 60)):
            bins = [[(t - st) // unit for t in x] for x in ts]
            want = emd(*bins)
            kw = {} if fn is None else {"discretize": fn}
            got = em.absolute_hour_emd(a, b, **kw)
            if not near(got, want):
                out.add("C24", "distance of the two logs in %s is %r, should be %r" % (name, got, want))
            if not near(em.absolute_hour_emd(b, a, **kw), want):
                out.add("C24", "distance in %s depends on which log comes first" % name)
            if em.absolute_hour_emd(a, a, **kw) != 0:
                out.add("C24", "distance of a log to itself in %s is not 0" % name)
        dur = []
        for t in tables:
            per = {}
            for x in t:
                per.setdefault(x["case_id"], []).append(x)
            dur.append([max(moment(x["end_time"]) for x in xs) - min(moment(x["start_time"]) for x in xs) for xs in per.values()])
        size = dt.timedelta(seconds=o["bin"])
        lo = min(dur[0] + dur[1])
        bins = [[(x - lo) // size for x in xs] for xs in dur]
        want = emd(*bins)
        edge = any((x - lo) % size < US or size - (x - lo) % size < US for xs in dur for x in xs if x != lo)
        got = em.trace_duration_emd(a, b, size)
        if not edge and not near(got, want):
            out.add("C24", "distance of the durations of cases in bins of %d s is %r, should be %r" % (o["bin"], got, want))
        if not near(em.trace_duration_emd(b, a, size), got):
            out.add("C24", "distance of the durations depends on which log comes first")
        out.probes["distances_checked"] += 1


    def concretise(self, desc):
        d = super().concretise(desc)
        d["cmp"] = self.opts(desc)
        return d

    def shrinks(self, desc):
        o = desc["cmp"]
        for k, v in (("fault", None), ("cases", 1), ("shift", 0), ("bin", 60)):
            if o[k] != v:
                yield dict(desc, cmp=dict(o, **{k: v}))
        plain = {"mix": None, "offset": None, "z": False, "extra": False, "enabled": True}
        for k in range(2):
            for f, v in plain.items():
                if o["rewrite"][k][f] != v:
                    rw = list(o["rewrite"])
                    rw[k] = dict(rw[k], **{f: v})
                    yield dict(desc, cmp=dict(o, rewrite=rw))
        yield from episodes.shrink_spec_desc(desc)


register(Cmp())
