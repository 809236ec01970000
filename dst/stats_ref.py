"""The statistics file recomputed from the rows of the event log."""
import datetime as dt

from . import calref, gen

BIG = 1e300


def parse(table):
    """-> dict(start, end, resources{id:row}, tasks{name:dict}, overall{kpi:[min,max,avg,total,n]}) or raises ValueError"""
    out = {"resources": {}, "tasks": {}, "overall": {}, "dup": []}
    section = None
    header = None
    for row in table:
        if not row or row == [""]:
            continue
        if row[0] == "started_at":
            out["start"] = row[1]
        elif row[0] == "completed_at":
            out["end"] = row[1]
        elif row[0] in ("Resource Utilization", "Individual Task Statistics", "Overall Scenario Statistics"):
            section, header = row[0], None
        elif header is None:
            header = row
        elif section == "Resource Utilization":
            out["resources"][row[0]] = dict(zip(header, row))
        elif section == "Individual Task Statistics":
            if row[0] in out["tasks"]:
                out["dup"].append(row[0])
            out["tasks"][row[0]] = dict(zip(header, row))
        elif section == "Overall Scenario Statistics":
            out["overall"][row[0]] = dict(zip(header, row))
        else:
            raise ValueError("unexpected row %r" % (row,))
    return out


def union(iv):
    t, last = 0, None
    for s, e in sorted(iv):
        if last is None or s >= last:
            t += e - s
            last = e
        elif e > last:
            t += e - last
            last = e
    return t


def pieces(cal, a, b):
    for s, e in cal._intervals_from(a):
        if s >= b:
            return
        lo, hi = max(s, a), min(e, b)
        if lo < hi:
            yield lo, hi


def close(got, want, n=1, extra=0.0):
    return abs(got - want) <= 2e-3 * max(1, n) + 1e-7 * abs(want) + extra


def kpi(vals):
    return min(vals), max(vals), sum(vals) / len(vals), sum(vals)


def audit_stats(a, table):
    """a: the Audit of the log of the same run."""
    try:
        st = parse(table)
    except Exception as e:
        a.v("C16", "the statistics file does not have the documented structure: %s" % e)
        return
    spec = a.spec
    soft = a.soft            # working hours drawn at random: the log does not tell the time worked
    slack = a.slack / 1e6    # granule calendars count whole seconds
    all_logged = a.events_log or not any(n["type"] == "event" for n in a.net.nodes.values())
    rows = a.rows
    # overall time frame
    if rows and all_logged:
        for key, want in (("start", min(r.st for r in rows)), ("end", max(r.end for r in rows))):
            try:
                got = dt.datetime.fromisoformat(st.get(key, ""))
            except ValueError:
                a.v("C16", "statistics carry no %s date" % key)
                continue
            if abs(calref.us(got.replace(tzinfo=None)) - want) > 5:
                a.v("C16", "statistics say the simulation %ss at %s, the log says %s" % (key, got, calref.from_us(want)))
    # resources
    if set(st["resources"]) != set(a.units):
        a.v("C16", "utilisation lists resources %s, expected %s" % (sorted(st["resources"]), sorted(a.units)))
    per = {k: [] for k in a.units}
    for r in rows:
        if r.is_task and r.res in a.unit_by_name:
            per[a.unit_by_name[r.res]].append(r)
    busy_of = a.busy_time if hasattr(a, "busy_time") else None
    for k, rs in per.items():
        g = st["resources"].get(k)
        if g is None:
            continue
        cal = a.cals[k]
        try:
            n, worked, avail = int(g["Tasks Allocated"]), float(g["Worked Time (seconds)"]), float(
                g["Available Time (seconds)"])
            util = float(g["Utilization Ratio"])
        except (KeyError, ValueError) as e:
            a.v("C16", "utilisation row of %s unreadable: %s" % (k, e))
            continue
        if g.get("Resource name") != a.units[k]["name"] or g.get("Pool ID") != a.units[k]["pool"] or \
                g.get("Pool name") != a.units[k]["pool_name"]:
            a.v("C16", "utilisation row of %s names %r in pool %r/%r" % (
                k, g.get("Resource name"), g.get("Pool ID"), g.get("Pool name")))
        if n != len(rs):
            a.v("C16", "resource %s: %d tasks allocated, the log has %d" % (k, n, len(rs)))
        want = (busy_of[k] if busy_of is not None else sum(cal.work(r.st, r.end) for r in rs)) / 1e6
        if not soft and not close(worked, want, len(rs), slack * len(rs)):
            a.v("C16", "resource %s: worked time %s s, the log says %.6f" % (k, worked, want))
        if rows and all_logged:
            w = cal.work(min(r.st for r in rows), max(r.end for r in rows)) / 1e6
            if not soft and not close(avail, w, 2, slack * 2 * (sum(len(list(pieces(cal, r.st, r.end))) for r in rs) + 2)):
                a.v("C16", "resource %s: available time %s s, its calendar says %.6f" % (k, avail, w))
        if avail == 0:
            if util != -1:
                a.v("C16", "resource %s: utilisation %s without available time" % (k, util))
        elif abs(util - worked / avail) > 1e-9 * max(1, abs(util)):
            a.v("C16", "resource %s: utilisation %s, worked/available = %s" % (k, util, worked / avail))
        elif not soft and util > 1 + 1e-6 and worked > avail + slack * 2 * (sum(len(list(pieces(cal, r.st, r.end))) for r in rs) + 2) + 2e-3 * (len(rs) + 2):
            a.v("C16", "resource %s: utilisation %s above 1" % (k, util))
        a.probes["stat_resources"] += 1
    # activities
    by = {}
    for r in rows:
        by.setdefault(r.act, []).append(r)
    names = {n["name"]: nid for nid, n in a.net.nodes.items() if n["type"] in ("task", "event")}
    want_names = {x for x in by}
    got_names = {x for x in st["tasks"] if x not in names or a.net.nodes[names[x]]["type"] == "task" or a.events_log}
    if st["dup"]:
        a.v("C16", "activities listed twice in the statistics: %s" % st["dup"])
    if got_names != want_names:
        a.v("C16", "statistics list activities %s, the log has %s" % (sorted(got_names), sorted(want_names)))
    for name, rs in by.items():
        g = st["tasks"].get(name)
        if g is None:
            continue
        vals = {"Waiting Time": [], "Processing Time": [], "Cycle Time": [], "Idle Time": [], "Idle Cycle Time": [],
                "Idle Processing Time": [], "Cost": []}
        for r in rs:
            if not r.is_task:
                for v in vals.values():
                    v.append(0.0)
                continue
            u = a.unit_by_name.get(r.res)
            if u is None:
                return
            w = a.cals[u].work(r.st, r.end) / 1e6
            ip = (r.end - r.st) / 1e6
            wt = max(0.0, (r.st - r.en) / 1e6)
            vals["Waiting Time"].append(wt)
            vals["Processing Time"].append(w)
            vals["Idle Time"].append(ip - w)
            vals["Idle Processing Time"].append(ip)
            vals["Idle Cycle Time"].append(ip + wt)
            vals["Cycle Time"].append(w + wt)
            vals["Cost"].append(w / 3600 * float(a.units[u]["cost"]))
        try:
            if int(g["Count"]) != len(rs):
                a.v("C16", "activity %s: count %s, the log has %d" % (name, g["Count"], len(rs)))
                continue
            for k, v in vals.items():
                if soft and k not in ("Waiting Time", "Idle Processing Time", "Idle Cycle Time"):
                    continue
                for lab, want in zip(("Min", "Max", "Avg", "Total"), kpi(v)):
                    got = float(g["%s %s" % (lab, k)])
                    if got > BIG and not any(x > 1e-3 + slack for x in v):
                        continue
                    if not close(got, want, len(rs) if lab == "Total" else 1,
                                 slack * (len(rs) if lab == "Total" else 1)):
                        a.v("C16", "activity %s: %s %s is %s, the log says %.6f" % (name, lab, k, got, want))
                        break
                a.probes["stat_activity_kpis"] += 1
        except (KeyError, ValueError) as e:
            a.v("C16", "activity row of %s unreadable: %s" % (name, e))
    # whole process
    if not (a.arr_visible and all_logged):
        return
    ov = {"cycle_time": [], "processing_time": [], "idle_cycle_time": [], "idle_processing_time": [],
          "waiting_time": [], "idle_time": []}
    shifts = 0
    for c in range(spec["cases"]):
        rs = a.cases.get(c, [])
        if not rs:
            for v in ov.values():
                v.append(0.0)
            continue
        ic = (max(r.end for r in rs) - a.arr[c]) / 1e6
        ip = union([(r.st, r.end) for r in rs]) / 1e6
        work = []
        for r in rs:
            if r.is_task and r.res in a.unit_by_name:
                work += pieces(a.cals[a.unit_by_name[r.res]], r.st, r.end)
        p = union(work) / 1e6
        shifts += len(work)
        w = union([(r.en, r.st) for r in rs if r.st > r.en]) / 1e6
        ov["idle_cycle_time"].append(ic)
        ov["idle_processing_time"].append(ip)
        ov["processing_time"].append(p)
        ov["waiting_time"].append(w)
        ov["idle_time"].append(ip - p)
        ov["cycle_time"].append(ic - (ip - p))
    for k, v in ov.items():
        g = st["overall"].get(k)
        if g is None:
            a.v("C16", "the process statistics have no %s" % k)
            continue
        try:
            got = [float(g[x]) for x in ("Min", "Max", "Average", "Accumulated Value")]
            n = int(g["Trace Ocurrences"])
        except (KeyError, ValueError) as e:
            a.v("C16", "process statistics row %s unreadable: %s" % (k, e))
            continue
        if n != spec["cases"]:
            a.v("C16", "process statistics count %d cases, %d were simulated" % (n, spec["cases"]))
        if soft and k not in ("waiting_time", "idle_cycle_time", "idle_processing_time"):
            continue
        for lab, x, want in zip(("min", "max", "average", "total"), got, kpi(v)):
            if not close(x, want, 5 * max(1, len(rows)) if lab == "total" else 10, slack * shifts):
                a.v("C16", "process %s %s is %s, the log says %.6f" % (lab, k, x, want))
                break
        a.probes["stat_process_kpis"] += 1


KPIS = ("Duration", "Waiting Time", "Processing Time", "Cycle Time", "Idle Time", "Idle Cycle Time", "Idle Processing Time", "Cost")


def audit_readback(a, data, folder):
    """The statistics file read by the loader that comes with the simulator."""
    import os
    try:
        from prosimos.simulation_stats import load_diff_simulation_results
    except ImportError:
        return
    path = os.path.join(folder, "readback.csv")
    with open(path, "wb") as f:
        f.write(data)
    try:
        got = load_diff_simulation_results(path)
    except Exception as e:
        a.v("C16", "the statistics file cannot be read back: %r" % e)
        return
    import csv
    import io
    try:
        want = parse(list(csv.reader(io.StringIO(data.decode("utf-8"), newline=""))))
    except Exception:
        return      # reported elsewhere

    def same(what, x, y):
        if float(x) != float(y):
            a.v("C16", "%s is %s in the statistics file, read back as %s" % (what, y, x))

    names = [r["Resource name"] for r in want["resources"].values()]
    if len(set(names)) == len(names) and not want["dup"]:
        for r in want["resources"].values():
            n = r["Resource name"]
            if n not in got.resource_utilization:
                a.v("C16", "resource %s is not read back" % n)
                continue
            same("utilisation of %s" % n, got.resource_utilization[n], r["Utilization Ratio"])
            for x, k in zip(got.resource_info[n], ("Tasks Allocated", "Worked Time (seconds)", "Available Time (seconds)")):
                same("%s of %s" % (k, n), x, r[k])
        if len(got.resource_utilization) != len(names):
            a.v("C16", "%d resources are read back, %d are in the statistics file" % (len(got.resource_utilization), len(names)))
        if set(got.tasks_kpi_map) != set(want["tasks"]):
            a.v("C16", "activities %s are read back, the statistics file has %s" % (sorted(got.tasks_kpi_map), sorted(want["tasks"])))
        for n, m in got.tasks_kpi_map.items():
            for k in KPIS:
                x = getattr(m, k.lower().replace(" ", "_"))
                for f, y in (("Min", x.min), ("Max", x.max), ("Avg", x.avg), ("Total", x.total)):
                    same("%s %s of %s" % (f, k, n), y, want["tasks"].get(n, {}).get("%s %s" % (f, k), y))
                same("Count of %s" % n, x.count, want["tasks"].get(n, {}).get("Count", x.count))
    for k, r in want["overall"].items():
        x = getattr(got.process_kpi_map, k)
        for f, y in (("Min", x.min), ("Max", x.max), ("Average", x.avg), ("Accumulated Value", x.total),
                     ("Trace Ocurrences", x.count)):
            same("%s of %s" % (f, k), y, r[f])
    day = [s[:19] for s in (want["start"], want["end"])]
    if [t.isoformat(" ")[:19] for t in (got.started_at, got.ended_at)] != day:
        a.v("C16", "the simulation took from %s to %s, read back as %s to %s" % (*day, got.started_at, got.ended_at))
    a.probes["statistics_read_back"] += 1
