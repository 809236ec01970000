"""Episodes that discover simulation parameters from a simulated log and simulate them again (C22)."""
import contextlib
import csv
import datetime as dt
import io
import json
import os
import random
import sys
import traceback
from collections import Counter

from . import calref, episodes, gen, seam, simrun
from .episodes import Kind, Outcome, register, rng_for, sha, spec_of, tape_of

REFUSE = [("granule", 7), ("granule", -60), ("granule", 100), ("conf", -0.1), ("conf", 1.5), ("supp", -0.25), ("supp", 1.01),
          ("part", -1), ("part", 2), ("column", "resource"), ("column", "activity"), ("column", "case_id"), ("resource", ""),
          ("start_time", "yesterday?"), ("end_time", "32:00")]
DAYS = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"]


def of_day(text):
    t = dt.time.fromisoformat(text)
    return t.hour * 3600 + t.minute * 60 + t.second + t.microsecond / 1e6


def discover(folder, log, bpmn, js, tape, args, faults=(), clock0=None):
    """One call of the discovery under a World: (error, bytes on disk or None, fired)."""
    from bpdfr_discovery.log_parser import preprocess_xes_log
    w = seam.World(folder, tape, clock0=clock0, faults=list(faults), step_limit=3_000_000)
    w.roles = {os.path.realpath(log): "events", os.path.realpath(bpmn): "model", os.path.realpath(js): "found"}
    err = None
    try:
        with contextlib.redirect_stdout(io.StringIO()), simrun.cpu_limit(60):
            with w:
                preprocess_xes_log(log, bpmn, js, args["granule"], args["conf"], args["supp"], args["part"],
                                   args["fit"], True, args["min_bin"], args["observed"])
    except (seam.StepLimit, simrun.Hang) as e:
        err = e
    except Exception as e:
        if simrun.from_harness(e):
            raise
        err = e
    data = None
    if os.path.exists(js):
        with open(js, "rb") as f:
            data = f.read()
    return err, data, w


def moments(text):
    return dt.datetime.fromisoformat(text).astimezone(dt.timezone.utc)     # discovery works in UTC


def inside(periods, t):
    """Is the moment within the weekly periods of a discovered calendar (one microsecond of slack)?"""
    us = ((t.hour * 60 + t.minute) * 60 + t.second) * 1_000_000 + t.microsecond
    for p in periods:
        a, b = DAYS.index(p["from"].upper()), DAYS.index(p["to"].upper())
        days = [d % 7 for d in range(a, (b if b >= a else b + 7) + 1)]
        if t.weekday() not in days:
            continue
        lo, hi = clock(p["beginTime"]), clock(p["endTime"])
        if hi <= lo:
            hi += 86_400_000_000
        if lo <= us <= hi:
            return True
    return False


def clock(s):
    h, m, x = s.split(":")
    return int(round((int(h) * 3600 + int(m) * 60 + float(x)) * 1e6))


def mandatory(n):
    """A task executed exactly once whenever this part of the process is executed."""
    if n is None:
        return None
    if n["t"] == "task":
        return n["id"]
    for c in n["c"] if n["t"] == "seq" else n["b"] if n["t"] == "and" else ():
        m = mandatory(c)
        if m is not None:
            return m
    return None


def described(x, data):
    """Does the distribution have the mean and limits of the data? Text of the difference, or None."""
    v = [p["value"] for p in x["distribution_params"]]
    name = x["distribution_name"]
    mean, lo, hi = sum(data) / len(data), min(data), max(data)
    got = {"fix": lambda: (None, v[0], v[0]), "expon": lambda: (v[0], v[1], v[2]), "norm": lambda: (v[0], v[2], v[3]),
           "uniform": lambda: (None, v[0], v[1]), "lognorm": lambda: (v[0], v[2], v[3])}
    if name not in got:
        return "unknown distribution %s" % name
    m, a, b = got[name]()
    tol = 1e-3 + 1e-9 * abs(hi)
    if name == "fix":
        # nearly all within five seconds
        if not any(abs(a - d) < tol for d in data) or sum(abs(a - d) < 5 for d in data) <= 0.95 * len(data) - 1e-9:
            return "discovered as fixed %.6f, observed %d times from %.6f to %.6f" % (a, len(data), lo, hi)
        return None
    if abs(a - lo) > tol or abs(b - hi) > tol or m is not None and abs(m - mean) > tol:
        return "discovered %s %s, observed %d times with mean %.6f from %.6f to %.6f" % (name, v, len(data), mean, lo, hi)
    return None


def choice_counts(tree, count, cases):
    """Number of times each branch of each exclusive split was taken: [(node, [counts])]."""
    res = []

    def visit(n, times):
        if n is None:
            return
        if n["t"] == "seq":
            for x in n["c"]:
                visit(x, times)
        elif n["t"] == "and":
            for x in n["b"]:
                visit(x, times)
        elif n["t"] == "loop":
            m = mandatory(n["body"])
            rounds = count[m] if m is not None else None
            visit(n["body"], rounds)
            again = None if rounds is None or times is None else rounds - times
            visit(n["redo"], again)
            if again is not None:
                res.append((n, [again, times]))
        elif n["t"] == "xor":
            ts = [None if b["body"] is None else (lambda m: None if m is None else count[m])(mandatory(b["body"]))
                  for b in n["b"]]
            if ts.count(None) == 1 and times is not None:
                i = ts.index(None)
                ts[i] = times - sum(x for x in ts if x is not None)
            for b, x in zip(n["b"], ts):
                visit(b["body"], x)
            if None not in ts:
                res.append((n, ts))

    visit(tree, cases)
    return res


class Disc(Kind):
    name = "disc"

    def args(self, desc):
        if "args" in desc:
            return desc["args"]
        r = rng_for(desc, "disc")
        a = {"granule": r.choice([15, 30, 60, 60, 120]), "conf": r.choice([0.0, 0.0, 0.1, 0.5]),
             "supp": r.choice([0.1, 0.5, 0.7, 1.0, 1.0]), "part": r.choice([0.0, 0.0, 0.2, 0.4]),
             "fit": r.random() < 0.6, "min_bin": r.choice([5, 50]), "observed": r.random() < 0.25, "fault": None}
        x = r.random()
        a["columns"], a["order"] = r.choice([None, None, r.random()]), r.choice([None, r.random()])
        if x < 0.12:
            a["fault"] = {"at": "write", "role": "found", "kind": r.choice(["enospc", "eio", "short"]),
                          "nth": r.choice([0, 0, 1, 2])}
        elif x < 0.18:
            a["fault"] = {"at": "read", "role": r.choice(["events", "model"]), "kind": "eio", "nth": 0}
        elif x < 0.24:
            a["fault"] = {"at": "open", "role": r.choice(["events", "model", "found"]), "kind": "eio", "nth": 0}
        # rows that are none of the process's, and input that has to be refused
        a["foreign"] = r.getrandbits(32) if r.random() < 0.3 else None
        a["refuse"] = r.choice(REFUSE) if r.random() < 0.4 else None
        return a

    def run(self, desc):
        out = Outcome()
        spec = spec_of(desc)
        args = self.args(desc)
        with simrun.scratch() as d:
            net, bpmn, js = gen.write_scenario(spec, d)
            r = simrun.simulate(d, bpmn, js, spec, tape_of(desc), outputs=("log",))
            out.values = r.values
            if r.error is not None:
                episodes.product_error(out, r.error)
                out.digest = sha(repr(r.error)[:80])
                return out
            table = simrun.parse_csv(r.files["log"])
            rows = [dict(zip(table[0], x)) for x in table[1:]]
            starts = {}
            for x in rows:
                t = moments(x["start_time"])
                starts[x["case_id"]] = min(t, starts.get(x["case_id"], t))
            if len(starts) < 2:
                out.digest = "one case"
                return out
            log = os.path.join(d, "observed.csv")
            with open(log, "w", newline="", encoding="utf-8") as f:
                csv.writer(f).writerows(self.rearranged(table, args))
            found = os.path.join(d, "found.json")
            faults = [args["fault"]] if args["fault"] else []
            err, data, w = discover(d, log, bpmn, found, seam.Tape(desc["seed"] ^ 0x5eed), args, faults)
            out.fired.update(w.fired)
            failing = any(not k.startswith(("short", "clock")) for k in w.fired)
            out.digest = sha(data or b"", repr(err)[:60].encode())
            if failing:
                out.probes["discovery_with_a_failing_file"] += 1
                if err is None:
                    out.add("C22", "discovery reports success although a file operation failed (%s)" % sorted(w.fired))
                return out
            if err is not None:
                # the library that fits distributions cannot cope with every set of durations
                rare = isinstance(err, ValueError) and any(
                    f.name == "get_best_fitting_distribution" for f in traceback.extract_tb(err.__traceback__))
                if not rare:
                    self.error(out, err, "discovery")
                else:
                    out.probes["nothing_frequent_enough"] += 1
                return out
            try:
                js2 = json.loads(data)
            except Exception as e:
                out.add("C22", "the discovered parameters cannot be read: %r" % e)
                return out
            out.sim_s = (max(moments(x["end_time"]) for x in rows) - min(moments(x["start_time"]) for x in rows)).total_seconds()
            self.judge(out, spec, net, rows, starts, js2, args)
            if desc["seed"] % 4 == 0:
                other = os.path.join(d, "again.json")
                err2, data2, _ = discover(d, log, bpmn, other, seam.Tape(desc["seed"] ^ 0x5eed), args,
                                          clock0=dt.datetime(1999 + desc["seed"] % 60, 2, 27, 23, 59, 58))
                out.probes["discovered_twice"] += 1
                if err2 is not None or data2 != data:
                    out.add("C22", "discovering the same log twice gives different parameters")
            if args.get("foreign") is not None:
                self.foreign(out, d, bpmn, table, net, args, data, desc["seed"] ^ 0x5eed)
            if args.get("refuse") is not None:
                self.refuse(out, d, bpmn, table, args)
            back = os.path.join(d, "back")
            os.mkdir(back)
            r2 = simrun.simulate(d, bpmn, found, spec, seam.Tape(desc["seed"] ^ 0xbac), outputs=("log",), outdir=back)
            if r2.error is not None:
                self.error(out, r2.error, "simulation of the discovered parameters")
                return out
            self.again(out, rows, simrun.parse_csv(r2.files["log"]), js2, spec)
            out.digest = sha(data, r2.files["log"])
            out.sig = sha(r.files["log"])[:16]
            out.nontrivial = True
        return out

    def foreign(self, out, d, bpmn, table, net, args, data, tape):
        """Rows of activities the process does not have, and of its start and end, change nothing."""
        r = random.Random(args["foreign"])
        head, rows = list(table[0]), [list(x) for x in table[1:]]
        ends = [n["name"] for n in net.nodes.values() if n["type"] in ("start", "end")]
        k = {c: head.index(c) for c in head}

        def row(case, like):
            x = list(like)
            x[k["case_id"]], x[k["activity"]] = case, r.choice(["No such activity", "no such activity, too"] + ends)
            if r.random() < 0.5:
                t = moments(like[k["start_time"]]) + dt.timedelta(seconds=r.choice([-90000, -7200, 0, 30, 86400 * 30]))
                x[k["start_time"]] = t.isoformat(sep=" ", timespec="microseconds")
                x[k["end_time"]] = (t + dt.timedelta(seconds=r.choice([0, 600]))).isoformat(sep=" ", timespec="microseconds")
            x[k["resource"]] = r.choice([x[k["resource"]], x[k["resource"]], "nobody", ""])
            return x
        new = []
        for x in rows:
            new.append(x)
            if r.random() < 0.3:
                new.append(row(x[k["case_id"]], x))
        alone = r.random() < 0.5
        if alone:
            for _ in range(r.choice([1, 1, 2])):
                new.append(row("a case of nothing", r.choice(rows)))
        log, found = os.path.join(d, "foreign.csv"), os.path.join(d, "foreign.json")
        with open(log, "w", newline="", encoding="utf-8") as f:
            csv.writer(f).writerows(self.rearranged([head] + new, dict(args, order=None)))
        base, plain = data, os.path.join(d, "plain.csv")
        if args.get("order") is not None:
            with open(plain, "w", newline="", encoding="utf-8") as f:
                csv.writer(f).writerows(self.rearranged(table, dict(args, order=None)))
            err, base, _ = discover(d, plain, bpmn, os.path.join(d, "plain.json"), seam.Tape(tape), args)
            if err is not None:
                return
        err, got, _ = discover(d, log, bpmn, found, seam.Tape(tape), args)
        out.probes["foreign_rows_judged"] += 1
        out.probes["cases_of_foreign_rows_judged"] += alone
        if err is not None:
            self.error(out, err, "discovery from a log with rows of other activities")
        elif got != base:
            a, b = json.loads(base), json.loads(got)
            out.add("C22", "rows of activities that are not in the process change the discovered parameters: %s" % [
                x for x in a if a[x] != b.get(x)])

    def refuse(self, out, d, bpmn, table, args):
        """Input that is no input is refused, and nothing is written."""
        head, rows = list(table[0]), [list(x) for x in table[1:]]
        what, value = args["refuse"]
        bad = args
        if what in args:
            bad = dict(args, **{what: value})
        elif what == "column":
            k = head.index(value)
            head, rows = head[:k] + head[k + 1:], [x[:k] + x[k + 1:] for x in rows]
        else:
            rows[len(rows) // 2][head.index(what)] = value
        log, found = os.path.join(d, "refused.csv"), os.path.join(d, "refused.json")
        with open(log, "w", newline="", encoding="utf-8") as f:
            csv.writer(f).writerows([head] + rows)
        err, got, _ = discover(d, log, bpmn, found, seam.Tape(1), bad)
        out.probes["refusals_judged"] += 1
        if err is None or got is not None or isinstance(err, (simrun.Hang, seam.StepLimit)):
            out.add("C22", "discovery with %s = %r is not refused: %r, %s" % (what, value, err, got and got[:60]))

    @staticmethod
    def rearranged(table, args):
        """The same log with its cases and columns in another order and with other titles."""
        head, rows = list(table[0]), [list(x) for x in table[1:]]
        if args.get("order") is not None:
            r = random.Random(args["order"])
            c = head.index("case_id")
            rank = {}
            for x in rows:
                rank.setdefault(x[c], r.random())
            rows.sort(key=lambda x: rank[x[c]])
        if args.get("columns") is not None:
            r = random.Random(args["columns"])
            perm = list(range(len(head)))
            r.shuffle(perm)
            titles = {"case_id": ["Case ID", "CaseID", "case"], "activity": ["Activity", "ACTIVITY NAME"],
                      "start_time": ["Start Timestamp", "start"], "end_time": ["End Timestamp", "END"],
                      "resource": ["Resource", "the_resource"]}
            head = [r.choice(titles.get(h, [h])) for h in head]
            head = [head[i] for i in perm]
            rows = [[x[i] for i in perm] for x in rows]
        return [head] + rows

    @staticmethod
    def error(out, err, what):
        if isinstance(err, (simrun.Hang, seam.StepLimit)):
            out.add("C22", "%s does not terminate" % what)
        else:
            out.add("C22", "%s fails: %s: %s [%s]" % (what, type(err).__name__, str(err)[:160], simrun.where(err)))

    def judge(self, out, spec, net, rows, starts, js, args):
        ids = {n["name"]: n["spec"]["id"] for n in net.nodes.values() if n["type"] == "task"}
        el = {n["spec"]["id"]: k for k, n in net.nodes.items() if n["type"] == "task"}
        seen, durations, events = {}, {}, {}
        for x in rows:
            t = el[ids[x["activity"]]]
            seen.setdefault(t, set()).add(x["resource"])
            durations.setdefault(t, []).append((moments(x["end_time"]) - moments(x["start_time"])).total_seconds())
            for k in ("start_time", "end_time"):
                m = moments(x[k])
                events.setdefault(x["resource"], set()).add(
                    (m.weekday(), (m.hour * 60 + m.minute) // args["granule"]))
        names = {v: k for k, v in ((n["name"], k) for k, n in net.nodes.items())}
        cals = {c["id"]: c["time_periods"] for c in js["resource_calendars"]}
        prof = {p["id"]: {x["id"]: x for x in p["resource_list"]} for p in js["resource_profiles"]}
        dist = {t["task_id"]: {x["resource_id"]: x for x in t["resources"]} for t in js["task_resource_distribution"]}
        for t in seen:
            if t not in dist or t not in prof:
                out.add("C22", "activity %s of the log is missing from the discovered parameters" % t)
                continue
            if not dist[t] or set(dist[t]) != set(prof[t]):
                out.add("C22", "the discovered performers of %s (%s) are not those with a duration (%s)" % (
                    t, sorted(prof[t]), sorted(dist[t])))
            for rid in dist[t]:
                joint = rid.startswith("Joint_%s_" % names[t])
                if rid not in seen[t] and not joint:
                    out.add("C22", "%s is discovered as a performer of %s, which it never performed" % (rid, t))
                c = cals.get(prof[t].get(rid, {}).get("calendar"))
                if not c:
                    out.add("C22", "the discovered performer %s has no calendar" % rid)
                elif not joint:
                    self.calendar(out, rid, c, events[rid], args["granule"])
                if rid in prof[t] and t not in prof[t][rid]["assigned_tasks"]:
                    out.add("C22", "performer %s of %s is not assigned to it" % (rid, t))
            ds = durations[t]
            if not args["fit"] and max(ds) - min(ds) < 1e-6:
                for rid, x in dist[t].items():
                    out.probes["fixed_duration_recovered"] += 1
                    if x["distribution_name"] != "fix" or abs(x["distribution_params"][0]["value"] - ds[0]) > 1e-3:
                        out.add("C22", "every execution of %s took %.6f s, the discovered duration is %s %s" % (
                            t, ds[0], x["distribution_name"], [p["value"] for p in x["distribution_params"]]))
            self.durations(out, t, rows, el, ids, dist[t], args,
                           {rid: cals.get(prof[t].get(rid, {}).get("calendar")) for rid in dist[t]})
        for t in dist:
            if t not in seen:
                out.add("C22", "activity %s never happened but is in the discovered parameters" % t)
        for c, t in starts.items():
            if not inside(js["arrival_time_calendar"], t):
                out.add("C22", "case %s starts %s, outside the discovered arrival calendar" % (c, t))
                break
        self.calendar(out, "the arrivals", js["arrival_time_calendar"], {(t.weekday(), t.hour) for t in starts.values()}, 60)
        self.arrivals(out, starts, js["arrival_time_distribution"], args)
        gws = {g["gateway_id"]: {p["path_id"]: p["value"] for p in g["probabilities"]}
               for g in js["gateway_branching_probabilities"]}
        for g, ps in gws.items():
            if any(ps.values()) and abs(sum(ps.values()) - 1) > 1e-6 and net.nodes[g]["type"] != "or":
                out.add("C22", "the discovered probabilities of gateway %s do not sum to 1: %s" % (g, ps))
            if any(v < 0 or v > 1 for v in ps.values()):
                out.add("C22", "a discovered probability of gateway %s is not one: %s" % (g, ps))
        if any(n["t"] == "or" for n in gen.walk(spec["tree"])):
            out.probes["branch_counts_not_judged_inclusive"] += 1
            return
        count = Counter(ids[x["activity"]] for x in rows)
        for node, ts in choice_counts(spec["tree"], count, len(starts)):
            if not sum(ts):
                continue
            cand = [k for k, v in net.nodes.items() if v["type"] == "xor" and len(v["out"]) > 1
                    and isinstance(v.get("spec"), dict) and v["spec"].get("id") == node["id"]]
            if len(cand) != 1:
                continue
            table = net.nodes[cand[0]]["table"]
            got = [gws.get(cand[0], {}).get(t["flow"]) for t in table]
            if node["t"] == "loop":
                pass
            want = [x / sum(ts) for x in ts]
            out.probes["branch_frequencies_judged"] += 1
            if any(a is None or abs(a - b) > 1e-6 for a, b in zip(got, want)):
                out.add("C22", "split %s was taken %s times, the discovered probabilities are %s" % (cand[0], ts, got))

    @staticmethod
    def durations(out, t, rows, el, ids, dist, args, cals):
        """Mean, minimum and maximum of a performer's executions, or of all if it has only few.
        Fitted to calendars, an execution is the time within the discovered calendar of its performer."""
        own = {}
        for x in rows:
            if el[ids[x["activity"]]] == t:
                a, b = moments(x["start_time"]), moments(x["end_time"])
                v = (b - a).total_seconds()
                if args["fit"] and cals.get(x["resource"]):
                    v = calref.Cal([[p["from"].upper(), p["to"].upper(), p["beginTime"], p["endTime"]] for p in cals[x["resource"]]]).work(calref.us(a.replace(tzinfo=None)), calref.us(b.replace(tzinfo=None))) / 1e6
                own.setdefault(x["resource"], []).append(v)
        if set(own) != set(dist):
            out.probes["durations_of_joint_performers_not_judged"] += 1
            return
        for rid, x in dist.items():
            data = own[rid] if len(own[rid]) >= args["min_bin"] else [v for vs in own.values() for v in vs]
            bad = described(x, data)
            out.probes["durations_judged"] += 1
            if bad:
                out.add("C22", "%s performing %s: %s" % (rid, t, bad))

    @staticmethod
    def arrivals(out, starts, x, args):
        ts = sorted(starts.values())
        gaps = [(b - a).total_seconds() for a, b in zip(ts, ts[1:])]
        if not args["observed"]:
            out.probes["arrivals_judged"] += 1
            bad = described(x, gaps)
            if bad:
                out.add("C22", "time between cases: %s" % bad)
            return
        cdf, mid = x["histogram_data"]["cdf"], x["histogram_data"]["bin_midpoints"]
        med = sorted(gaps)[len(gaps) // 2] if len(gaps) % 2 else sum(sorted(gaps)[len(gaps) // 2 - 1:][:2]) / 2
        dev = sorted(abs(g - med) for g in gaps)
        mad = dev[len(dev) // 2] if len(dev) % 2 else sum(dev[len(dev) // 2 - 1:][:2]) / 2
        if (x["distribution_name"] != "histogram_sampling" or len(cdf) != len(mid) or abs(cdf[-1] - 1) > 1e-9
                or cdf != sorted(cdf) or mid != sorted(mid) or mid[0] < min(gaps) - 1e-3 or mid[-1] > max(gaps) + 1e-3):
            out.add("C22", "the histogram of the times between cases is none of values from %s to %s: %s" % (
                min(gaps), max(gaps), x))
            return
        if mad and dev[-1] >= 5 * mad * (1 - 1e-9):
            out.probes["histogram_with_outliers_not_judged"] += 1
            return
        out.probes["histogram_judged"] += 1
        half = (max(gaps) - min(gaps)) / len(mid) / 2
        for c, m in zip(cdf, mid):
            lo = sum(g < m + half - 1e-3 for g in gaps) / len(gaps)
            hi = sum(g < m + half + 1e-3 for g in gaps) / len(gaps)
            if not lo - 1e-9 <= c <= hi + 1e-9:
                out.add("C22", "%.4f of the times between cases are said to be at most %.3f s, it was %.4f" % (c, m + half, hi))
                return

    @staticmethod
    def calendar(out, rid, periods, seen, granule):
        """Within the granules of a weekday in which the performer started or completed something."""
        for p in periods:
            d, a, b = DAYS.index(p["from"].upper()), of_day(p["beginTime"]), of_day(p["endTime"])
            wrong = p["from"] != p["to"] or a >= b
            g = int(a // (60 * granule))
            while not wrong and g * 60 * granule < b - 1e-6:
                wrong = (d, g) not in seen
                g += 1
            if wrong:
                out.add("C22", "the discovered calendar of %s contains %s, in part of which it never did anything" % (rid, p))
                return
        out.probes["calendars_judged"] += 1

    @staticmethod
    def again(out, rows, table, js, spec):
        new = [dict(zip(table[0], x)) for x in table[1:]]
        acts = {x["activity"] for x in rows}
        names = {p["name"]: {x["id"] for x in p["resource_list"]} for p in js["resource_profiles"]}
        for x in new:
            if x["activity"] not in acts:
                out.add("C22", "the discovered process executes %s, which was never observed" % x["activity"])
                break
            if x["resource"] not in names[x["activity"]]:
                out.add("C22", "%s performs %s in the discovered process without being one of its performers" % (
                    x["resource"], x["activity"]))
                break
        if len({x["case_id"] for x in new}) != spec["cases"]:
            out.add("C22", "the discovered process starts %d cases instead of %d" % (
                len({x["case_id"] for x in new}), spec["cases"]))
        out.probes["simulated_again"] += 1

    def concretise(self, desc):
        d = super().concretise(desc)
        d["args"] = self.args(desc)
        return d

    def shrinks(self, desc):
        if desc["args"]["fault"]:
            yield dict(desc, args=dict(desc["args"], fault=None))
        yield from episodes.shrink_spec_desc(desc)


register(Disc())
