"""Checks over the recorded history of one simulated run.

The history is the event log in the order the simulator processed the work items.
It is replayed against the reference net (gen.compile_tree), the reference calendar
(calref) and small executable models of the resource pool and the work queue.
Every disagreement is a violation of exactly one property id.
"""
import csv
import datetime as dt
import math
import re
import sys
from collections import Counter

from . import calref, gen

TOL = 5            # microseconds: float seconds -> datetime rounding in the log
UNK = object()
INF = 1 << 62
NO_RES = "No assigned resource"


class Row:
    __slots__ = ("i", "case", "act", "nid", "en", "st", "end", "res", "attrs", "batch", "is_task", "q", "off", "node")


def parse_time(s):
    d = dt.datetime.fromisoformat(s)
    return calref.us(d.replace(tzinfo=None)), d.utcoffset()


def read_log(path):
    with open(path, newline="", encoding="utf-8") as f:
        rd = list(csv.reader(f))
    return rd


class Viol(Exception):
    pass


def match_rule(r, attrs):
    """One simple condition, three-valued."""
    v = attrs.get(r["attribute"], UNK)
    if v is UNK or v in ("", None):
        return None
    op, want = r["comparison"], r["value"]
    if isinstance(want, list):
        lo, hi = float(want[0]), float(want[1])
        return lo <= float(v) <= hi
    if op in ("=", "!="):
        return (str(v) == want) == (op == "=")
    x, y = float(v), float(want)
    return {">": x > y, ">=": x >= y, "<": x < y, "<=": x <= y}[op]


def match_cond(rules, attrs):
    """OR of ANDs, three-valued."""
    out = False
    for conj in rules:
        vals = [match_rule(r, attrs) for r in conj]
        if all(v is True for v in vals):
            return True
        if not any(v is False for v in vals):
            out = None
    return out


def _subsets(xs):
    res = [[]]
    for x in xs:
        res += [r + [x] for r in res]
    return [r for r in res if r]


def _completions(node, attrs):
    """All possible lists of condition outcomes given partly known attributes."""
    conds = [(t["flow"], match_cond(t["cond"], attrs)) for t in node["table"] if t["cond"] is not None]
    outs = [[]]
    for f, v in conds:
        outs = [o + [(f, x)] for o in outs for x in ((True, False) if v is None else (v,))]
    return outs


def xor_choices(node, attrs):
    tab = node["table"]
    pos = [t["flow"] for t in tab if t["p"] > 0]
    p = {t["flow"]: t["p"] for t in tab}
    if all(t["cond"] is None for t in tab):
        return set(pos)
    res = set()
    for comp in _completions(node, attrs):
        true = [f for f, v in comp if v]
        if len(true) == 1:
            res.add(true[0])
        elif len(true) > 1:
            res |= {f for f in true if p[f] > 0} or set(true)
        elif node["default"]:
            res.add(node["default"])
        else:
            res |= set(pos)
    return res


def or_choices(node, attrs):
    tab = node["table"]
    pos = [t["flow"] for t in tab if t["p"] > 0]
    sure = [t["flow"] for t in tab if t["p"] >= 1]
    free = [s for s in _subsets(pos) if all(f in s for f in sure)]
    if all(t["cond"] is None for t in tab):
        return free
    res = []
    for comp in _completions(node, attrs):
        true = [f for f, v in comp if v]
        if true:
            cand = [true]
        elif node["default"]:
            cand = [[node["default"]]]
        else:
            cand = free
        for c in cand:
            if c not in res:
                res.append(c)
    return res


def fallbacks(nid, node, attrs):
    """What the user has to be warned of when the gateway chooses: no condition holds, or several at an exclusive one."""
    if all(t["cond"] is None for t in node["table"]):
        return []
    kinds = set()
    for comp in _completions(node, attrs):
        true = sum(1 for _, v in comp if v)
        kinds.add("none" if not true else "several" if true > 1 and node["type"] == "xor" else "")
    if len(kinds) > 1:
        return [("open", nid)]
    return [(k, nid) for k in kinds if k]


class State:
    __slots__ = ("tok", "orexp", "stopped", "term", "gw", "cnt")

    def __init__(self, tok=None, orexp=None, stopped=(), term=None, gw=None, cnt=None):
        self.cnt = cnt          # how often each element, flow and fallback was used; None if the log leaves it open
        self.tok = tok or {}
        self.orexp = orexp or {}
        self.stopped = stopped
        self.term = term
        self.gw = gw or {}

    def copy(self):
        return State(dict(self.tok), dict(self.orexp), self.stopped, self.term, dict(self.gw),
                     None if self.cnt is None else dict(self.cnt))

    def count(self, *keys):
        if self.cnt is not None:
            for k in keys:
                self.cnt[k] = self.cnt.get(k, 0) + 1

    def key(self):
        return (tuple(sorted(self.tok.items(), key=lambda x: x[0])), tuple(sorted(self.orexp.items())),
                self.stopped, self.term, tuple(sorted(self.gw.items())))


class Overflow(Exception):
    pass


class Machine:
    """Token game of one case, with the set of all markings the log still allows."""
    CAP = 1500

    def __init__(self, aud, case, relax_choice=False, relax_time=False, no_limit=False, no_term=False):
        self.term_hi = -1       # latest moment at which the case may have come to a terminate end event
        self.no_term = no_term
        self.a, self.net = aud, aud.net
        self.limit = None if no_limit else aud.limit
        self.case = case
        self.relax_choice, self.relax_time = relax_choice, relax_time
        self.states = []

    def start(self, lo, hi, attrs):
        s = State(cnt=None if self.a.silent else {})
        out = self.net.nodes["start"]["out"]
        s.count(("n", "start"), *[("f", f) for f in out])
        self.states = self._close([(s, [(f, (lo, hi, -1)) for f in out])], attrs, -1)

    def _close(self, work, attrs, row):
        done = {}
        seen = set() if self.a.silent else None
        while work:
            s, pend = work.pop()
            if seen is not None:
                key = (s.key(), tuple(pend))
                if key in seen:
                    continue
                seen.add(key)
            if not pend:
                if done.setdefault(s.key(), s).cnt != s.cnt:
                    done[s.key()].cnt = None
                if len(done) > self.CAP:
                    raise Overflow()
                continue
            pend = list(pend)
            flow, tok = pend.pop()
            nid = self.net.flows[flow][1]
            n = self.net.nodes[nid]
            t = n["type"]
            if t == "task" or (t == "event" and self.a.events_log):
                s.tok[flow] = tok
                work.append((s, pend))
                continue
            if t == "event":
                lo, hi = gen.d_bounds(n["spec"]["dist"])
                nt = (tok[0] + int(lo * 1e6) - TOL, tok[1] + int(hi * 1e6) + TOL, None)
                s.count(("n", nid), *[("f", f) for f in n["out"]])
                work.append((s, pend + [(f, nt) for f in n["out"]]))
                continue
            if t == "end":
                s.count(("n", nid))
                if n.get("terminate") and not self.no_term:
                    s.tok, s.orexp, s.term = {}, {}, row
                    self.term_hi = max(self.term_hi, tok[1])
                    pend = []
                work.append((s, pend))
                continue
            if len(n["in"]) > 1 and t in ("and", "or"):
                s.tok[flow] = tok
                have = [f for f in n["in"] if f in s.tok]
                need = len(n["in"]) if t == "and" else s.orexp.get(nid, len(n["in"]))
                if len(have) < need:
                    work.append((s, pend))
                    continue
                tok = (max(s.tok[f][0] for f in have), max(s.tok[f][1] for f in have), tok[2])
                for f in have:
                    del s.tok[f]
                s.orexp.pop(nid, None)
            if len(n["out"]) > 1:
                if self.limit is not None:
                    k = s.gw.get(nid, 0)
                    if k >= self.limit:
                        s.stopped = tuple(sorted(set(s.stopped) | {nid}))
                        work.append((s, []))
                        continue
                    s.gw[nid] = k + 1
            s.count(("n", nid))
            if len(n["out"]) > 1 and n.get("table") and s.cnt is not None:
                s.count(*fallbacks(nid, n, attrs))
            if t in ("and",) or len(n["out"]) <= 1:
                alts = [n["out"]]
            elif t == "xor":
                alts = [[f] for f in (n["out"] if self.relax_choice else sorted(xor_choices(n, attrs)))]
            elif t == "or":
                alts = _subsets(n["out"]) if self.relax_choice else or_choices(n, attrs)
            elif t == "ebg":
                alts = [[f] for f in n["out"]]
            else:
                raise AssertionError(t)
            for i, alt in enumerate(alts):
                s2 = s.copy() if i < len(alts) - 1 else s
                if t == "or" and n.get("orjoin") and len(n["out"]) > 1:
                    s2.orexp[n["orjoin"]] = len(alt)
                s2.count(*[("f", f) for f in alt])
                work.append((s2, pend + [(f, tok) for f in alt]))
        return list(done.values())

    def step(self, row, attrs):
        """Consume the row; returns None or the reason."""
        work, tokened, seen_term = [], False, None
        for s in self.states:
            if s.stopped and not s.tok:
                continue
            if s.term is not None:
                seen_term = s.term
            f = self.net.nodes[row.nid]["in"][0]
            if f not in s.tok:
                continue
            tokened = True
            lo, hi, q = s.tok[f]
            if not self.relax_time and not (lo - TOL <= row.en <= hi + TOL):
                continue
            s2 = s.copy()
            del s2.tok[f]
            s2.count(("n", row.nid), *[("f", g) for g in self.net.nodes[row.nid]["out"]])
            work.append((s2, [(g, (row.end, row.end, row.i)) for g in self.net.nodes[row.nid]["out"]], q))
        if not work:
            return "no-token" if not tokened else "time"
        qs = {q for _, _, q in work}
        row.q = qs.pop() if len(qs) == 1 else None
        self.states = self._close([(s, p) for s, p, _ in work], attrs, row.i)
        return None

    def complete(self):
        return any(not s.tok or s.stopped for s in self.states)

    def term_only(self):
        return bool(self.states) and all(s.term is not None for s in self.states)


UNKNOWN = object()
MATH = {n: getattr(math, n) for n in ("sqrt", "fabs", "floor", "ceil", "sin", "log", "pow")}


def typed(x):
    try:
        return float(x)
    except ValueError:
        return {"True": True, "False": False}.get(x, x)


def formula(text, env, top):
    """Value of a formula; `top` chooses the upper end of its random parts.  UNKNOWN where an operation has no value
    (what the log then holds is not specified)."""
    try:
        return eval(text, {"__builtins__": {}}, dict(MATH, fix=lambda x: x, uniform=lambda a, b: b if top else a, **env))
    except Exception:
        return UNKNOWN


def same_value(v, lo, hi):
    if lo is UNKNOWN or hi is UNKNOWN:
        return True
    if isinstance(lo, (bool, str)):
        return str(lo) == str(v) or (isinstance(lo, bool) and typed(v) == float(lo))
    tol = 1e-6 * max(1, abs(lo), abs(hi))
    x = typed(v)
    return not isinstance(x, str) and lo - tol <= x <= hi + tol


class Audit:
    def __init__(self, spec, net, table, warnings=None, start_exact=True):
        self.spec, self.net = spec, net
        self.soft = bool(spec.get("fuzzy") and spec["fuzzy"]["soft"])
        self.slack = 1_000_000 if spec.get("fuzzy") else 0     # granules count whole seconds
        self.viol = []
        self.probes = Counter()
        self.events_log = spec["events_log"]
        self.limit = spec.get("limit")
        self.silent = any(n["t"] == "loop" and n["body"]["c"][0]["t"] == "xor" and len(n["body"]["c"]) == 1
                          for n in gen.walk(spec["tree"]))     # rounds of a loop that perform nothing
        self.warnings = warnings
        self.rows = []
        self.overflow = set()
        self._parse(table)

    def v(self, prop, msg, row=None):
        if self.slack and prop in ("C05", "C06", "C16"):
            prop = "C21"    # calendars of granules
        if len(self.viol) < 60:
            self.viol.append((prop, msg + (" [row %d: %s]" % (row.i, self.show(row)) if row is not None else "")))

    def show(self, r):
        return "case %d %s en=%s st=%s end=%s res=%s" % (
            r.case, r.nid, calref.from_us(r.en), calref.from_us(r.st), calref.from_us(r.end), r.res)

    # ------------------------------------------------------------------ input
    def _parse(self, table):
        spec, net = self.spec, self.net
        self.by_name = {}
        for nid, n in net.nodes.items():
            if n["type"] in ("task", "event"):
                self.by_name[n["name"]] = nid
        self.units = gen.resource_units(spec)
        self.unit_by_name = {u["name"]: k for k, u in self.units.items()}
        base = ["case_id", "activity", "enable_time", "start_time", "end_time", "resource"]
        self.header = table[0]
        if self.header[:6] != base:
            self.v("C17", "log header is %r" % (self.header,))
        has_batch = any(n["type"] == "task" and n["spec"].get("batch") for n in net.nodes.values())
        want = set()
        for a in spec.get("case_attrs", []):
            want.add(a["name"])
        for a in spec.get("global_attrs", []):
            want.add(a["name"])
        for n in net.nodes.values():
            if n["type"] == "task":
                want |= {a["name"] for a in n["spec"].get("attrs", [])}
        if has_batch:
            want.add("batch_id")
        self.want_cols = want
        if set(self.header[6:]) != want or len(self.header[6:]) != len(want):
            self.v("C10", "log columns %r, expected %r" % (self.header[6:], sorted(want)))
        off0 = dt.datetime.fromisoformat(spec["start"]).utcoffset()
        for i, rec in enumerate(table[1:]):
            if len(rec) != len(self.header):
                self.v("C17", "log row %d has %d fields, header %d" % (i, len(rec), len(self.header)))
                continue
            r = Row()
            r.i = len(self.rows)
            r.q = None
            try:
                r.case = int(rec[0])
                r.en, o1 = parse_time(rec[2])
                r.st, o2 = parse_time(rec[3])
                r.end, o3 = parse_time(rec[4])
            except ValueError as e:
                self.v("C17", "log row %d does not parse: %s" % (i, e))
                continue
            if not (o1 == o2 == o3 == off0):
                self.v("C03", "log row %d mixes time zones %s %s %s, start %s" % (i, o1, o2, o3, off0))
            r.act = rec[1]
            r.nid = self.by_name.get(rec[1])
            if r.nid is None:
                self.v("C02", "log row %d names unknown activity %r" % (i, rec[1]))
                continue
            r.node = net.nodes[r.nid]
            r.is_task = r.node["type"] == "task"
            r.res = rec[5]
            r.attrs = dict(zip(self.header[6:], rec[6:]))
            r.batch = r.attrs.pop("batch_id", None)
            if r.batch in ("None", ""):
                r.batch = None
            self.rows.append(r)
            if not r.is_task and not self.events_log:
                self.v("C02", "event in a log that excludes events", r)
            if r.case < 0 or r.case >= spec["cases"]:
                self.v("C01", "case id outside 0..%d" % (spec["cases"] - 1), r)
        self.cases = {}
        for r in self.rows:
            self.cases.setdefault(r.case, []).append(r)

    # ------------------------------------------------------------------ all checks
    def run(self):
        self.basic()
        self.start_info()
        self.arrivals()
        self.control_flow()
        self.resources()
        self.durations()
        self.batches()
        if self.exact_weeks():
            # pix_framework's calendar (not part of the repository) takes a whole interval too much for a duration that is
            # an exact multiple of the weekly working time
            self.viol = []
            self.probes["runs_not_judged_exact_weeks"] += 1
            return self
        self.events()
        self.priorities()
        self.queue_order()
        self.attributes()
        return self

    def basic(self):
        for r in self.rows:
            if not (r.en - TOL <= r.st <= r.end):
                self.v("C03", "enabled/started/completed out of order", r)
            if r.is_task and r.res not in self.unit_by_name:
                self.v("C04", "task performed by unknown resource %r" % r.res, r)
            if not r.is_task and r.res != NO_RES:
                self.v("C04", "event carries resource %r" % r.res, r)

    # ------------------------------------------------------------------ start and arrivals
    def start_info(self):
        """Which elements can be first, and is the arrival instant visible in the log?"""
        net = self.net
        st = set()
        hidden = False
        work = list(net.nodes["start"]["out"])
        seen = set()
        while work:
            f = work.pop()
            if f in seen:
                continue
            seen.add(f)
            n = net.nodes[net.flows[f][1]]
            if n["type"] == "task" or (n["type"] == "event" and self.events_log):
                st.add(net.flows[f][1])
            else:
                if n["type"] == "event":
                    hidden = True
                work += n["out"]
        self.arr_visible = not hidden
        self.arr = {}
        if not hidden:
            for c, rs in self.cases.items():
                self.arr[c] = min(r.en for r in rs)

    def arrivals(self):
        spec = self.spec
        cal = calref.Cal(gen.CALS[spec["arrival_cal"]])
        s0 = calref.us(dt.datetime.fromisoformat(spec["start"]).replace(tzinfo=None))
        d = spec["arrival"]
        lo, hi = gen.d_bounds(d)
        lo, hi = int(round(lo * 1e6)), int(round(hi * 1e6))
        # simulation start
        if cal.is_working(s0):
            self.start_lo = self.start_hi = s0
        else:
            self.start_lo, self.start_hi = self.snap(cal, s0 + lo - 1), self.snap(cal, s0 + hi + 1)
        if not self.arr_visible:
            return
        if spec.get("fixed"):
            self.fixed_arrivals([int(round(x * 1e6)) for x in spec["fixed"]])
            return
        if 0 in self.arr:
            if not self.start_lo - TOL <= self.arr[0] <= self.start_hi + TOL:
                self.v("C13", "first case arrives at %s, simulation starts in [%s, %s]" % (
                    calref.from_us(self.arr[0]), calref.from_us(self.start_lo), calref.from_us(self.start_hi)))
            self.start_lo = self.start_hi = self.arr[0]
        for c, t in self.arr.items():
            if not (cal.is_working(t) or cal.is_working(t - TOL) or cal.is_working(t + TOL)):
                self.v("C13", "case %d arrives at %s, outside the arrival calendar" % (c, calref.from_us(t)))
            if c + 1 in self.arr:
                n = self.arr[c + 1]
                ok = False
                if d["n"] == "hist":
                    cand = [self.snap(cal, t + int(round(x * 1e6)) + e) for x in d["p"] for e in (-1, 0, 1)]
                    ok = any(abs(n - x) <= TOL for x in cand)
                elif d["n"] == "fix":
                    ok = any(abs(n - self.snap(cal, t + lo + e)) <= TOL for e in (-1, 0, 1))
                else:
                    ok = self.snap(cal, t + lo - 2) - TOL <= n <= self.snap(cal, t + hi + 2) + TOL
                    ok = ok and (cal.is_working(n) or cal.is_working(n + TOL))
                if not ok:
                    self.v("C13", "case %d arrives at %s after case %d at %s, inter-arrival %s" % (
                        c + 1, calref.from_us(n), c, calref.from_us(t), d))
                self.probes["arrivals_checked"] += 1
                if n - t > hi + TOL:
                    self.probes["arrival_snapped"] += 1

    def fixed_arrivals(self, given):
        """Each case arrives the given time after the start of the simulation."""
        for c, t in self.arr.items():
            if not self.start_lo - TOL <= t - given[c] <= self.start_hi + TOL:
                self.v("C13", "case %d arrives at %s, %s s after the start were given, simulation starts in [%s, %s]" % (
                    c, calref.from_us(t), given[c] / 1e6, calref.from_us(self.start_lo), calref.from_us(self.start_hi)))
            self.probes["fixed_arrivals_checked"] += 1
        base = [t - given[c] for c, t in self.arr.items()]
        if base and max(base) - min(base) > 2 * TOL:
            self.v("C13", "given arrival times are not kept: the cases are shifted by %s" % sorted(
                (b - min(base)) / 1e6 for b in base)[-3:])
        if base and max(base) - min(base) <= 2 * TOL:
            self.start_lo = self.start_hi = base[0]

    @staticmethod
    def snap(cal, t):
        """An arrival falling outside the calendar moves to the next opening."""
        return cal.next_closed(t)

    # ------------------------------------------------------------------ control flow
    def attrs_at(self, r):
        return r.attrs

    def initial_attrs(self, c):
        rs = self.cases.get(c)
        if not rs:
            return {}
        gl = {a["name"] for a in self.spec.get("global_attrs", [])}
        ev = {a["name"] for n in self.net.nodes.values() if n["type"] == "task" for a in n["spec"].get("attrs", [])}
        return {a["name"]: rs[0].attrs.get(a["name"]) for a in self.spec.get("case_attrs", [])
                if a["name"] not in gl and a["name"] not in ev}

    def play(self, c, **relax):
        m = Machine(self, c, **relax)
        if self.arr_visible and c in self.arr:
            m.start(self.arr[c], self.arr[c], self.initial_attrs(c))
        else:
            m.start(-INF, INF, self.initial_attrs(c))
        for r in self.cases.get(c, []):
            term = m.term_only()
            why = m.step(r, r.attrs)
            if why:
                return m, r, ("term" if term else why)
        return m, None, None

    STOP = re.compile(r"[Ll]oop.*case #?(\d+) on element (\S+?)[.,]?(?:\s|$)")

    def read_warnings(self):
        self.stop_warned = {}
        for line in (self.warnings or "").splitlines():
            m = self.STOP.search(line)
            if m:
                self.stop_warned.setdefault(int(m.group(1)), set()).add(m.group(2))

    def limit_warnings(self, c, m):
        if self.warnings is None:
            return
        done = [s for s in m.states if not s.tok or s.stopped]
        must = set(done[0].stopped)
        may = set()
        for s in done:
            must &= set(s.stopped)
            may |= set(s.stopped)
        # an implicit split has no identity of its own in the model
        anon = {x for x in may if x.startswith("virt_")}
        got = {x if x in self.net.nodes else None for x in self.stop_warned.get(c, set())}
        if None in got and anon:
            got = (got - {None}) | anon
        if must - got:
            self.v("C12", "case %d was stopped at %s without a warning" % (c, sorted(must - got)))
        if got - may:
            self.v("C12", "warning says case %d was stopped at %s, but it was not" % (c, sorted(map(str, got - may))))
        for _ in may:
            self.probes["limit_warnings_checked"] += 1

    def batch_of(self, nid):
        n = self.net.nodes.get(nid)
        return n["spec"].get("batch") if n is not None and n["type"] == "task" else None

    USES = re.compile(r"^(?:Flow (\S+) from )?.* \(ID: (\S+)\) is used (less|more) frequently.* in (\d+) out of (\d+) cases")
    FALLBACK = re.compile(r"^(?:\[X?OR\] )?(\S+) (all conditions evaluated to false|more than 1 XOR gateway conditions)(.*)$")
    MISSING = re.compile(r"^Gateway (\S+) is using conditions, but some are missing\. Flows without conditions: (.*)$")
    SHARES = re.compile(r"^Gateway (\S+) has auto-assigned probabilities for flows: (.*)$")

    def count_uses(self, m):
        """Add up how often the elements and flows were used, while every case leaves no doubt about it."""
        done = [s for s in m.states if not s.tok or s.stopped]
        if self.uses is None or not done or any(s.cnt is None or s.cnt != done[0].cnt for s in done):
            self.uses = None
            return
        self.counted += 1
        for k, n in done[0].cnt.items():
            self.uses[k] = self.uses.get(k, 0) + n

    def use_warnings(self):
        if self.warnings is None or self.spec.get("silent"):
            return
        lines = self.warnings.splitlines()
        self.share_warnings(lines)
        if self.uses is None or self.counted != self.spec["cases"] or self.spec.get("terminate"):
            # a terminate end event stops whatever was not executed yet at that moment, which the log does not show
            return
        total = self.spec["cases"]
        nodes = {x[1] for x in self.net.xml_nodes if x[0] != "endEvent"}
        flows = {x[0] for x in self.net.xml_flows}
        want, got = {}, {}
        for k in [("n", x) for x in nodes] + [("f", x) for x in flows]:
            n = self.uses.get(k, 0)
            if n > total or n * 100 < total and (n or k[0] == "n"):
                want[k] = ("more" if n > total else "less", n, total)
        for line in lines:
            x = self.USES.match(line)
            if x:
                k = ("f", x.group(1)) if x.group(1) else ("n", x.group(2))
                if k[1] not in nodes | flows:
                    continue
                if k in got:
                    self.v("C23", "two warnings about how often %s is used" % k[1])
                got[k] = (x.group(3), int(x.group(4)), int(x.group(5)))
        for k in sorted(set(want) | set(got)):
            if want.get(k) != got.get(k):
                self.v("C23", "%s was used %d times in %d cases, the warnings say %s" % (
                    k[1], self.uses.get(k, 0), total, got.get(k, "nothing")))
            self.probes["use_warnings_checked"] += 1
        self.fallback_warnings(lines)

    def fallback_warnings(self, lines):
        got = {}
        for line in lines:
            x = self.FALLBACK.match(line)
            if x:
                k = ("none" if x.group(2).startswith("all") else "several", x.group(1))
                got[k] = got.get(k, 0) + 1
                d = self.net.nodes[k[1]].get("default") if k[1] in self.net.nodes else None
                if k[0] == "none" and ("Using default path %s" % d if d else "no default path") not in x.group(3):
                    self.v("C23", "gateway %s has default flow %s, the warning says: %s" % (k[1], d, line))
        for nid in self.net.nodes:
            if self.uses.get(("open", nid)):
                continue
            for kind, what in (("none", "no condition held"), ("several", "several conditions held")):
                k = (kind, nid)
                if got.get(k, 0) != self.uses.get(k, 0):
                    self.v("C23", "%s %d times at %s, there are %d warnings of it" % (
                        what, self.uses.get(k, 0), nid, got.get(k, 0)))
                if k in self.uses:
                    self.probes["fallback_warnings_checked"] += self.uses[k]

    def share_warnings(self, lines):
        """Shares given to branches without a probability are reported."""
        got = {}
        for line in lines:
            x = self.SHARES.match(line)
            if x:
                got.setdefault(x.group(1), []).append(dict(y.rsplit(": ", 1) for y in x.group(2).split(", ")))
        for nid, n in self.net.nodes.items():
            conds = [t["cond"] is None for t in n.get("table") or []]
            some = [x.group(2).split(", ") for x in map(self.MISSING.match, lines) if x and x.group(1) == nid]
            want = [sorted(t["flow"] for t in n["table"] if t["cond"] is None)] if any(conds) and not all(conds) else []
            if [sorted(x) for x in some] != want:
                self.v("C23", "flows %s of %s have no condition while others have, the warnings say %s" % (want, nid, some))
        for nid, n in self.net.nodes.items():
            want = {t["flow"]: t["p"] for t in n.get("table") or [] if t["nop"]}
            if not want:
                if nid in got:
                    self.v("C23", "warning of assigned probabilities at %s, all of them were given" % nid)
                continue
            self.probes["share_warnings_checked"] += 1
            x = got.get(nid, [])
            if len(x) != 1 or set(x[0]) != set(want) or any(abs(float(x[0][f]) - p) > 1e-6 for f, p in want.items()):
                self.v("C23", "flows of %s without a probability get %s, the warnings say %s" % (nid, want, x))

    def control_flow(self):
        self.read_warnings()
        self.uses, self.counted = {}, 0
        self.term_at = dict.fromkeys(range(self.spec["cases"]), INF)   # latest moment at which a case may have been terminated
        try:
            self.play_cases()
        finally:
            self.use_warnings()

    def play_cases(self):
        for c in range(self.spec["cases"]):
            try:
                m, r, why = self.play(c)
                if why is None:
                    if not m.complete():
                        m2, r2, why2 = self.play(c, relax_choice=True)
                        if c in self.stop_warned:
                            self.v("C12", "case %d was stopped although no gateway was executed more than %s times" % (
                                c, self.limit if self.limit is not None else "1000"))
                        elif why2 is None and m2.complete() and not m.complete():
                            self.v("C11", "case %d: only an impossible branch choice explains the recorded rows" % c)
                        elif self.spec.get("terminate") and self.survives(c):
                            self.v("C15", "case %d went on after its terminate end event" % c)
                        else:
                            left = sorted({self.net.flows[f][1] for s in m.states for f in s.tok})
                            lost = left and all(self.batch_of(x) for x in left)
                            self.v("C08" if lost else "C01", "case %d never completes: tokens left at %s" % (c, left))
                            if self.spec.get("terminate") and self.spec["tree"]["c"][-1]["t"] == "race":
                                self.v("C15", "neither the terminate end event nor its absence explains what case %d "
                                              "performed: tokens left at %s" % (c, left))
                    else:
                        self.probes["cases_completed"] += 1
                        if any(s.stopped for s in m.states):
                            self.probes["cases_stopped_by_limit"] += 1
                        self.limit_warnings(c, m)
                        self.count_uses(m)
                        self.term_at[c] = m.term_hi
                        if any(s.term is not None for s in m.states):
                            self.probes["cases_terminated"] += 1
                    continue
                if why == "term":
                    self.v("C15", "activity after the case reached its terminate end", r)
                    continue
                if self.limit is not None:
                    if any(s.stopped for s in m.states) and any(
                            n["type"] == "or" and len(n["in"]) > 1 for n in self.net.nodes.values()):
                        # an inclusive join does not wait for a branch that was stopped
                        self.probes["stopped_before_inclusive_join"] += 1
                        continue
                    m2, r2, why2 = self.play(c, no_limit=True)
                    if why2 is None and m2.complete():
                        self.v("C12", "case went on beyond %d executions of a gateway" % self.limit, r)
                        continue
                m2, r2, why2 = self.play(c, relax_choice=True)
                if why2 is None and m2.complete():
                    self.v("C11", "branch not allowed by probabilities/conditions; attributes %s" % (r.attrs,), r)
                    continue
                m3, r3, why3 = self.play(c, relax_choice=True, relax_time=True)
                if why3 is None:
                    self.v("C03", "enabled at a time no predecessor's completion explains", r)
                elif why3 == "term":
                    self.v("C15", "activity after the case reached its terminate end", r3)
                elif self.batch_of(r3.nid):
                    self.v("C08", "batched activity performed although it was not waiting at this point", r3)
                else:
                    self.v("C02", "activity not enabled by the process model at this point", r3)
            except Overflow:
                self.overflow.add(c)
                self.probes["audit_overflow"] += 1

    def survives(self, c):
        m, _, why = self.play(c, no_term=True)
        return why is None and m.complete()

    # ------------------------------------------------------------------ resources
    def resources(self):
        spec = self.spec
        cals = {k: gen.calendar(spec, u["cal"]) for k, u in self.units.items()}
        self.sure = {k: gen.calendar(spec, u["cal"], True) for k, u in self.units.items()}
        self.cals = cals
        avail = {}
        fuzzy0 = self.start_lo != self.start_hi
        for k in self.units:
            avail[k] = None if fuzzy0 or self.soft else cals[k].next_open(self.start_lo)
        self.avail0 = dict(avail)
        self.free_at = {}
        profs = {}
        for k, u in self.units.items():
            profs.setdefault(u["prof"], []).append(k)
        self.busy_time = {k: 0 for k in self.units}
        self.groups = []
        i = 0
        rows = [r for r in self.rows if r.is_task and r.res in self.unit_by_name]
        while i < len(rows):
            r = rows[i]
            chunk = [r]
            if r.batch is not None and r.node["spec"].get("batch"):
                while i + len(chunk) < len(rows):
                    x = rows[i + len(chunk)]
                    if x.batch == r.batch and x.res == r.res and x.nid == r.nid and x.i == r.i + len(chunk):
                        if r.node["spec"]["batch"]["type"] == "Parallel" and x.st != r.st:
                            break
                        chunk.append(x)
                    else:
                        break
                self.groups.append(chunk)
            i += len(chunk)
            self.alloc(chunk, avail, profs, cals)

    def alloc(self, chunk, avail, profs, cals):
        r = chunk[0]
        u = self.unit_by_name[r.res]
        elig = [k for rid, _ in r.node["spec"]["res"] for k in profs[rid]]
        if u not in elig:
            self.v("C04", "performed by %s, who is not assigned to this activity" % r.res, r)
            return
        cal = cals[u]
        batch = r.node["spec"].get("batch")
        par = r.batch is not None and batch is not None and batch["type"] == "Parallel"
        work = [cal.work(x.st, x.end) for x in chunk]
        self.busy_time[u] += max(work) if par else sum(work)
        if avail[u] is not None:
            others = [avail[k] for k in elig if avail[k] is not None]
            best = min(others)
            if len(others) == len(elig) and avail[u] > best + TOL + self.slack:
                who = [k for k in elig if avail[k] == best][0]
                self.v("C06", "%s takes it (free %s) although %s is free from %s" % (
                    r.res, calref.from_us(avail[u]), self.units[who]["name"], calref.from_us(best)), r)
            if len(elig) > 1:
                self.probes["alloc_with_choice"] += 1
                if best > r.en:
                    self.probes["alloc_all_busy"] += 1
        ready = max(x.en for x in chunk) if r.batch is not None else r.en
        prev_end = avail[u]
        if r.batch is not None and prev_end is not None:
            self.free_at[r.i] = prev_end
        for k, x in enumerate(chunk):
            if prev_end is not None and x.st < prev_end - TOL:
                self.v("C04" if k == 0 else "C09", "%s is still busy until %s" % (x.res, calref.from_us(prev_end)), x)
            if not any(cal.is_working(x.st + d) for d in (0, -TOL, TOL, -self.slack)):
                self.v("C05", "starts outside the working calendar of %s" % x.res, x)
            if r.batch is None and prev_end is not None and self.soft:
                self.soft_start(x, max(ready, prev_end), u)
            elif r.batch is None and prev_end is not None:
                want = cal.next_closed(max(ready, prev_end))
                wants = {want, cal.next_closed(max(ready, prev_end) + TOL), cal.next_closed(max(ready, prev_end) - TOL)}
                if not any(-TOL <= x.st - w <= TOL + self.slack for w in wants):
                    self.v("C06", "starts at %s; resource free and open at %s" % (
                        calref.from_us(x.st), calref.from_us(want)), x)
                self.probes["starts_checked"] += 1
                if want > max(ready, prev_end):
                    self.probes["start_waits_for_calendar"] += 1
                if prev_end > ready:
                    self.probes["start_waits_for_resource"] += 1
            elif r.batch is not None and x.st < ready - TOL and par:
                self.v("C09", "batch starts before all of its members are enabled", x)
            if not par:
                prev_end = x.end
                avail[u] = x.end
        if par:
            avail[u] = max(x.end for x in chunk)

    def soft_start(self, x, base, u):
        """Start of work when the calendar is drawn: between the free moment and the first hour that is surely worked."""
        sure = self.sure[u]
        if x.st < base - TOL:
            self.v("C06", "starts before the resource is free", x)
        elif sure.weekly and x.st > sure.next_closed(base) + TOL + self.slack:
            self.v("C06", "starts at %s; resource free and surely available at %s" % (
                calref.from_us(x.st), calref.from_us(sure.next_closed(base))), x)
        self.probes["soft_starts_checked"] += 1
        if x.st > base + self.slack:
            self.probes["soft_start_waits"] += 1

    # ------------------------------------------------------------------ durations
    def soft_span(self, r, u, lo, hi):
        """Work is done within hours of positive probability, and every sure hour within the span is worked."""
        cal, sure = self.cals[u], self.sure[u]
        lo, hi = lo * 1e6 - 1000 - TOL, hi * 1e6 + 1000 + TOL
        if r.batch is not None:     # see batches()
            lo, hi = 0, 1e18
        if cal.work(r.st, r.end) < lo - self.slack:
            self.v("C05", "only %.6f s of possible working time, shortest duration %.6f" % (cal.work(r.st, r.end) / 1e6, lo / 1e6), r)
        if sure.weekly and sure.work(r.st, r.end) > hi + self.slack:
            self.v("C05", "%.6f s of sure working time, longest duration %.6f" % (sure.work(r.st, r.end) / 1e6, hi / 1e6), r)
        if r.end > r.st and not any(cal.is_working(r.end + d) for d in (-1, -TOL - 1, -self.slack - TOL)):
            self.v("C05", "completes when %s is never available" % r.res, r)
        self.probes["soft_spans_checked"] += 1
        if sure.weekly and cal.work(r.st, r.end) > hi + self.slack:
            self.probes["soft_span_skips_possible_hours"] += 1

    def coef(self, batch, n):
        """Acceptable multipliers for a chunk of n (several keys may be equally near)."""
        if n == 1:
            return [1.0]
        d = dict((int(k), v) for k, v in batch["dur"])
        d.setdefault(1, 1.0)
        mult = n if batch["type"] == "Parallel" else 1
        if n in d:
            return [d[n] * mult]
        near = min(abs(n - k) for k in d)
        out = {d[k] * mult for k in d if abs(n - k) == near}
        return list(out)

    def spans(self, chunk, n):
        """Can these rows be n members of one chunk of size n, as far as their durations tell?"""
        for r in chunk:
            if not self.duration_ok(r, self.coef(r.node["spec"]["batch"], n)):
                return False
        return True

    def partitions(self, group):
        """The sets of chunk sizes a run of batch rows of one resource may consist of."""
        n = len(group)
        ok = {}
        ways = [set() for _ in range(n + 1)]
        ways[0].add(frozenset())
        for i in range(n):
            if not ways[i]:
                continue
            for j in range(i + 1, n + 1):
                if (i, j) not in ok:
                    ok[i, j] = self.spans(group[i:j], j - i)
                if ok[i, j]:
                    for w in ways[i]:
                        ways[j].add(w | {j - i})
        return ways[n]

    def duration_ok(self, r, coefs):
        u = self.unit_by_name[r.res]
        ds = [d for rid, d in r.node["spec"]["res"] if rid == self.units[u]["prof"]]
        if not ds:
            return True
        lo, hi = gen.d_bounds(ds[0])
        w = self.cals[u].work(r.st, r.end)
        least = w
        if self.soft:
            least = self.sure[u].work(r.st, r.end) if self.sure[u].weekly else 0
        s = TOL + self.slack
        return any(lo * c * 1e6 - 1000 - s <= w and least <= hi * c * 1e6 + 1000 + s for c in coefs)

    def durations(self):
        for r in self.rows:
            if not r.is_task or r.res not in self.unit_by_name:
                continue
            u = self.unit_by_name[r.res]
            ds = [d for rid, d in r.node["spec"]["res"] if rid == self.units[u]["prof"]]
            if not ds:
                continue
            lo, hi = gen.d_bounds(ds[0])
            cal = self.cals[u]
            if self.soft:
                self.soft_span(r, u, lo, hi)
                continue
            if self.slack:
                self.sharp_span(r, u, lo, hi)
                continue
            w = cal.work(r.st, r.end)
            # members of a batch: see batches()
            if r.batch is None and not lo * 1e6 - 1000 - TOL <= w <= hi * 1e6 + 1000 + TOL:
                self.v("C05", "worked %.6f s, allowed durations %s" % (w / 1e6, (lo, hi)), r)
                continue
            e = cal.earliest_end(r.st, max(0, w - 1000))
            e2 = cal.earliest_end(r.st, w)
            # the remaining stretch up to the end may hold no idle gap, except padding at an interval's end
            if w > 0 and r.end - e2 > 0:
                nxt = cal.next_open(e2)
                mid = (e2 // calref.DAY + 1) * calref.DAY
                if not (r.end <= max(nxt, mid) + TOL):
                    self.v("C05", "completion %s, all work done by %s" % (
                        calref.from_us(r.end), calref.from_us(e2)), r)
            if w == 0 and hi == 0 and r.end != r.st:
                self.v("C05", "zero work takes time", r)
            self.probes["durations_checked"] += 1
            if r.end - r.st > w + 1000:
                self.probes["task_spans_closing_time"] += 1
            if r.end // calref.DAY != r.st // calref.DAY:
                self.probes["task_spans_midnight"] += 1

    def sharp_span(self, r, u, lo, hi):
        """As durations(), to the second."""
        cal = self.cals[u]
        w = cal.work(r.st, r.end)
        if r.batch is None and not lo * 1e6 - 1000 - TOL - self.slack <= w <= hi * 1e6 + 1000 + TOL + self.slack:
            self.v("C05", "worked %.6f s, allowed durations %s" % (w / 1e6, (lo, hi)), r)
        elif r.end > r.st and not any(cal.is_working(r.end + d) for d in (-1, -TOL - 1, -self.slack - TOL)):
            self.v("C05", "completes outside the working calendar of %s" % r.res, r)
        self.probes["granule_durations_checked"] += 1
        if r.end - r.st > w + self.slack + 1000:
            self.probes["granule_task_spans_closing_time"] += 1

    def exact_weeks(self):
        if self.slack:
            return False
        hit = {}
        for r in self.rows:
            if not r.is_task or r.res not in self.unit_by_name:
                continue
            u = self.unit_by_name[r.res]
            week = self.cals[u].weekly
            key = (r.nid, u)
            if r.end - r.st < 2 * calref.WEEK - calref.DAY:
                continue
            for rid, d in r.node["spec"]["res"]:
                lo, hi = gen.d_bounds(d)
                if rid != self.units[u]["prof"] or lo != hi:
                    continue
                b = r.node["spec"].get("batch")
                cs = [1.0] if not b else [c for n in range(1, self.spec["cases"] + 1) for c in self.coef(b, n)]
                for c in cs:
                    x = round(lo * c * 1e6)
                    if x >= 2 * week and x % week < 2000:
                        hit[key] = True
        return bool(hit)

    # ------------------------------------------------------------------ batches
    def empty_cuts(self):
        """Positions p of the log such that no activity outside batches was waiting when row p was handled."""
        n = len(self.rows)
        pend = [0] * (n + 2)
        for r in self.rows:
            if r.batch is None and r.q is not None:
                # waiting at every position in (q, i]
                pend[r.q + 1] += 1
                pend[r.i + 1] -= 1
        cuts, cur = [], 0
        for p in range(n + 1):
            cur += pend[p]
            if cur == 0:
                cuts.append(p)
        return cuts

    def sizes_allowed(self, b):
        """-> test of the size of one batch fired by the rules of b, or None if any size can be"""
        if not b["rules"]:
            ok = {int(k) for k, p in b["size"] if p > 0}
            return lambda n: n in ok
        tests = []
        for conj in b["rules"]:
            sizes = [c for c in conj if c[0] == "size"]
            if not sizes or any(c[0] == "large_wt" for c in conj):
                return None     # with the first one waiting for too long, all are fired whatever their number
            tests.append([{"=": lambda n, k=int(k): n == k, ">=": lambda n, k=int(k): n >= max(2, k),
                           ">": lambda n, k=int(k): n > k, "<=": lambda n, k=int(k): 2 <= n <= k,
                           "<": lambda n, k=int(k): 2 <= n < k}[op] for _, op, k in sizes])
        return lambda n: any(all(t(n) for t in ts) for ts in tests)

    def batches(self):
        fir = {}
        for r in self.rows:
            b = r.node["spec"].get("batch") if r.is_task else None
            if b is None:
                if r.batch is not None:
                    self.v("C09", "activity without batch processing belongs to a batch", r)
                continue
            if r.batch is None:
                if not any(int(k) == 1 and p > 0 for k, p in b["size"]):
                    self.v("C19", "performed outside of a batch", r)
                self.probes["batched_activity_alone"] += 1
                continue
            fir.setdefault(r.batch, []).append(r)
        if not fir:
            return
        cuts = self.empty_cuts()
        by_batch = {}
        for g in self.groups:
            by_batch.setdefault(g[0].batch, []).append(g)
        for bid, rs in fir.items():
            if len({r.nid for r in rs}) > 1:
                self.v("C09", "one batch with activities %s" % sorted({r.nid for r in rs}), rs[0])
                continue
            if len({r.case for r in rs}) != len(rs):
                self.v("C09", "a case is twice in one batch", rs[0])
            b = rs[0].node["spec"]["batch"]
            self.probes["batches_" + b["type"].lower()] += 1
            if len(rs) > 1:
                self.probes["batches_of_several"] += 1
            parts = []
            for g in by_batch.get(bid, []):
                ps = self.partitions(g)
                if not ps:
                    self.v("C09", "no way to split these %d rows of a batch into chunks explains the working times %s" % (
                        len(g), ["%.3f" % (self.cals[self.unit_by_name[x.res]].work(x.st, x.end) / 1e6) for x in g]),
                        g[0])
                    parts = None
                    break
                parts.append(ps)
            if parts is None or not parts:
                continue
            # could this be what is left when nothing can join any more?
            last_q = max((r.q if r.q is not None else -1) for r in rs)
            final = any(last_q < p <= rs[0].i for p in cuts) or any(r.q is None for r in rs)
            test = self.sizes_allowed(b)
            term = any(n.get("terminate") for n in self.net.nodes.values())
            if test is not None and term:
                # members terminated between firing and execution drop out
                last, inside = max(self.joined_at(r, fir) for r in rs), {r.case for r in rs}
                lost = sum(t >= last - TOL for c, t in self.term_at.items() if c not in inside)
                full = test
                test = lambda n: any(full(k) for k in range(n, n + lost + 1))
                self.probes["batch_sizes_exact_although_terminated"] += not lost
            if not term:    # with members dropped, who made the batch fire is not to be seen in the log
                self.firing_time(b, rs, by_batch[bid], final)
            if final:
                self.probes["batches_at_the_end"] += 1
            elif test is not None:
                bad = [k for k, ps in enumerate(parts) if not any(all(test(n) for n in p) for p in ps)]
                if bad:
                    self.v("C19", "fired in chunks of %s, rules %s" % (
                        [sorted(map(sorted, ps))[0] for ps in parts], b["rules"] or b["size"]), rs[0])
                    if term:
                        self.v("C15", "activities of terminated cases counted for a batch of %s, rules %s" % (
                            [sorted(map(sorted, ps))[0] for ps in parts], b["rules"] or b["size"]), rs[0])
                self.probes["batch_sizes_checked"] += 1

    def joined_at(self, r, fir):
        """Earliest moment at which the engine, which is ahead of what it performs, can have let a row wait for a batch."""
        before = max((x for x in self.rows if x.is_task and x.case == r.case and x.end <= r.en + TOL), key=lambda x: x.end, default=None)
        if before is None:
            return r.en
        return min(x.en for x in fir.get(before.batch, [before]))

    def earliest_firing(self, conj, rs):
        """Moment before which this rule does not fire a batch of these rows, or None if not modelled"""
        en = sorted(r.en for r in rs)
        kinds = {c[0] for c in conj}
        lo = en[0]
        for what in ("ready_wt", "large_wt"):
            vs = [c for c in conj if c[0] == what]
            low = max([int(v) * 1_000_000 for _, op, v in vs if op in ("=", ">", ">=")], default=0)
            if what == "large_wt":
                lo = max(lo, en[0] + low)
            elif vs:
                k = next((i for i, (x, y) in enumerate(zip(en, en[1:])) if y - x >= low - TOL), len(en) - 1)
                lo = max(lo, en[k] + low)
        moments = [c for c in conj if c[0] in ("week_day", "daily_hour")]
        return self.next_moment(moments, lo) if moments and not kinds & {"ready_wt", "large_wt"} else lo

    def firing_time(self, b, rs, groups, final):
        """Moments at which batches of tasks performed in parallel start, and who is taken along, by the firing rule."""
        if b["rules"] and not (final and any(c[0] == "size" for conj in b["rules"] for c in conj)):
            lo = min(self.earliest_firing(conj, rs) for conj in b["rules"])
            st = min(r.st for r in rs)
            if st < lo - TOL:
                self.v("C19", "batch starts before %s, rules %s, enabled %s" % (
                    calref.from_us(lo), b["rules"], [str(calref.from_us(r.en)) for r in rs]), rs[0])
            else:
                self.probes["not_fired_too_early"] += 1
        if len(b["rules"]) != 1 or b["type"] != "Parallel":
            return
        conj = b["rules"][0]
        kinds = {c[0] for c in conj}
        if final and not kinds <= {"large_wt", "ready_wt"}:
            return
        what = "+".join(sorted(kinds))
        for g in groups:
            if self.spec.get("prio") and len(groups) > 1:
                break   # who is fired together is arranged by priority before it is split
            bad = self.too_late_to_join(conj, kinds, g)
            if bad:
                self.v("C19", "%s, rules %s, enabled %s" % (
                    bad, b["rules"], [str(calref.from_us(r.en)) for r in g]), g[0])
            elif kinds in ({"large_wt"}, {"ready_wt"}) and len(g) > 1:
                self.probes["batch_members_ok_" + what] += 1
        g = groups[0]
        if len(groups) != 1 or g[0].i not in self.free_at or len(g) < 2:
            return
        ft = self.fire_time(conj, rs)
        if ft is None or self.soft:
            return
        cal = self.cals[self.unit_by_name[g[0].res]]
        lo, hi = ft[0], INF if ft[1] == INF else cal.next_closed(max(ft[1], self.free_at[g[0].i]) + TOL)
        if g[0].st < lo - TOL or g[0].st > hi + TOL + self.slack:
            self.v("C19", "batch starts %s %s, rules %s, enabled %s" % (
                *(("before", calref.from_us(lo)) if g[0].st < lo - TOL else ("after", calref.from_us(hi))),
                b["rules"], [str(calref.from_us(r.en)) for r in rs]), g[0])
        else:
            self.probes["firing_ok_" + what] += 1

    @staticmethod
    def too_late_to_join(conj, kinds, g):
        if len(kinds) > 1 or not kinds <= {"large_wt", "ready_wt"} or len({r.st for r in g}) > 1:
            return None
        lo, hi = 0, None
        for _, op, v in conj:
            v = int(v) * 1_000_000
            if op in ("=", ">", ">="):
                lo = v
            if op in ("=", "<", "<="):
                hi = v
        S = 1_000_000 + TOL
        en = sorted(r.en for r in g)
        if kinds == {"large_wt"}:
            if len(en) > 1 and en[-1] - en[0] > hi + S:
                return "member enabled %.0f s after the first one" % ((en[-1] - en[0]) / 1e6)
            return None
        for k, (x, y) in enumerate(zip(en, en[1:])):
            if y - x > (lo if k else hi) + S:
                return "member enabled %.0f s after the one before" % ((y - x) / 1e6)
        return None

    @staticmethod
    def first_match(rule, t):
        """First moment >= t that satisfies a week_day/daily_hour rule."""
        what, op, val = rule
        day, off = divmod(t, calref.DAY)
        if what == "week_day":
            want = calref.DAYS.index(val.upper())
            d = (want - day) % 7
            return t if d == 0 else (day + d) * calref.DAY
        h = int(val) * 3600_000_000
        if op == "=":
            return day * calref.DAY + h if off <= h else (day + 1) * calref.DAY + h
        if op == ">=":
            return t if off >= h else day * calref.DAY + h
        if op == ">":
            return t if off > h else day * calref.DAY + h + 1
        if op == "<=":
            return t if off <= h else (day + 1) * calref.DAY
        return t if off < h else (day + 1) * calref.DAY

    def next_moment(self, conj, t):
        """First moment >= t that satisfies all these week_day/daily_hour rules."""
        for _ in range(20):
            n = t
            for c in conj:
                n = self.first_match(c, n)
            if n == t:
                break
            t = n
        return t

    def fire_time(self, conj, rs):
        """(earliest, latest) moment at which this rule fires a batch of exactly these rows, or None if not modelled"""
        en = sorted(r.en for r in rs)
        kinds = {c[0] for c in conj}
        if kinds == {"size"}:
            return en[-1], en[-1]
        if "size" in kinds and kinds <= {"week_day", "daily_hour", "size"}:
            return self.next_moment([c for c in conj if c[0] != "size"], en[0]), INF
        if kinds <= {"week_day", "daily_hour"}:
            # which of several waiting members a weekday or hour takes along is left open; the rules are evaluated when
            # anything happens, so a moment at which nothing happens may pass unnoticed
            hi = self.next_moment(conj, en[-1]) + (7 if "week_day" in kinds else 1) * calref.DAY
            return self.next_moment(conj, en[0]), INF if len(kinds) > 1 else min(
                [r.en for r in self.rows if r.en >= hi], default=hi)
        if kinds == {"large_wt"} or kinds == {"ready_wt"}:
            lo, hi = 0, None
            for _, op, v in conj:
                v = int(v) * 1_000_000
                if op == "=":
                    lo = hi = v
                elif op in (">", ">="):
                    lo = v
                else:
                    hi = v
            S = 1_000_000
            if len(en) == 1:
                return en[0] + lo, en[0] + hi + S
            if kinds == {"ready_wt"}:
                return en[-1] + lo, en[-1] + lo + S
            return max(en[0] + lo, en[-1]), max(en[0] + lo + S, en[-1])
        return None

    # ------------------------------------------------------------------ intermediate events
    def events(self):
        for r in self.rows:
            if r.is_task:
                continue
            lo, hi = gen.d_bounds(r.node["spec"]["dist"])
            if r.st != r.en:
                self.v("C14", "event does not start when enabled", r)
            d = r.end - r.st
            if not lo * 1e6 - TOL <= d <= hi * 1e6 + TOL:
                self.v("C14", "event takes %.6f s, allowed [%s, %s]" % (d / 1e6, lo, hi), r)
            src = self.net.nodes[self.net.flows[r.node["in"][0]][0]]
            if src["type"] == "ebg":
                self.probes["event_gateway_choices"] += 1
                for f in src["out"]:
                    o = self.net.flows[f][1]
                    if o != r.nid:
                        h = gen.d_bounds(self.net.nodes[o]["spec"]["dist"])[1]
                        if d > h * 1e6 + TOL:
                            self.v("C14", "occurs after %.6f s although the competing event %s occurs within %s s" % (
                                d / 1e6, o, h), r)

    # ------------------------------------------------------------------ queue order
    def priorities(self):
        self.prio = {}
        rules = self.spec.get("prio")
        for c, rs in self.cases.items():
            p = sys.maxsize
            if rules:
                ev = {a["name"] for n in self.net.nodes.values() if n["type"] == "task"
                      for a in n["spec"].get("attrs", [])}
                attrs = {k: v for k, v in rs[0].attrs.items() if k not in ev}
                for x in sorted(rules, key=lambda x: x["level"]):
                    if match_cond(x["rules"], attrs):
                        p = x["level"]
                        self.probes["case_with_priority"] += 1
                        break
            self.prio[c] = p

    def queue_order(self):
        rows = self.rows[:260]
        keys = []
        for r in rows:
            keys.append((self.prio[r.case] if r.is_task else 0, r.en))
        for j, rj in enumerate(rows):
            if rj.q is None or rj.batch is not None:
                continue
            for i in range(rj.q + 1, j):
                ri = rows[i]
                if ri.batch is not None:
                    continue
                if not (rj.is_task and rj.node["spec"].get("batch")) and keys[i] > keys[j] and not (
                        keys[i][0] == keys[j][0] and keys[i][1] <= keys[j][1] + TOL):
                    self.v("C07", "handled before waiting row %d (%s): keys %s > %s" % (
                        j, self.show(rj), keys[i], keys[j]), ri)
                    return
                self.probes["queue_pairs"] += 1

    # ------------------------------------------------------------------ attributes
    def dom(self, a, v):
        if v == "" or v is None:
            return False
        if a["kind"] == "discrete":
            return any(str(o) == v and p > 0 for o, p in a["opts"])
        if a["kind"] == "continuous":
            lo, hi = gen.d_bounds(a["dist"])
            return lo - 1e-9 <= float(v) <= hi + 1e-9
        if a["kind"] == "markov":
            return v in a["trans"]
        return True

    def next_ok(self, a, prev, v, snapshot):
        k = a["kind"]
        if k in ("discrete", "continuous"):
            return self.dom(a, v)
        if k == "markov":
            cur = snapshot.get(a["name"])
            if cur in (None, ""):
                return True
            row = a["trans"].get(cur)
            if row is None:
                return True
            return row.get(v, 0) > 0
        if v in (None, ""):
            return True
        env = {n: typed(x) for n, x in snapshot.items() if x not in (None, "")}
        if k == "expression":
            return same_value(v, formula(a["expr"], env, 0), formula(a["expr"], env, 1))
        if k == "dtree":
            for conds, res in a["tree"]:
                held = [formula(x, env, 0) for x in conds]
                if any(h is UNKNOWN for h in held):
                    return True
                if all(held):
                    return same_value(v, formula(res, env, 0), formula(res, env, 1))
            return float(v) == 0
        return True

    def attributes(self):
        spec = self.spec
        gl = {a["name"]: a for a in spec.get("global_attrs", [])}
        ca = {a["name"]: a for a in spec.get("case_attrs", [])}
        if not self.want_cols - {"batch_id"}:
            return
        gcur = {}
        ccur = {}
        has_batch = "batch_id" in self.want_cols
        started = set()
        for r in self.rows:
            first = r.case not in started
            started.add(r.case)
            prev = ccur.get(r.case, {})
            tattrs = {a["name"]: a for a in (r.node["spec"].get("attrs", []) if r.is_task else [])}
            refreshed = {n for n in gl if n in ca} if first else set()
            snap = dict(prev)
            snap.update(gcur)
            for n in r.attrs:
                v = r.attrs[n]
                if n in gl:
                    if n in tattrs:
                        if not self.next_ok(tattrs[n], gcur.get(n), v, snap if not refreshed else {}):
                            self.v("C10", "global attribute %s becomes %r" % (n, v), r)
                        self.probes["global_attr_updates"] += 1
                    elif n in refreshed or n not in gcur:
                        if has_batch and n in gcur and gcur[n] == v:
                            pass    # which of its members a batch counts as the start of a case is not specified
                        elif not (self.dom(gl[n], v) or (n in ca and self.dom(ca[n], v))):
                            self.v("C10", "global attribute %s starts as %r" % (n, v), r)
                    elif n in ca and has_batch and gcur[n] != v:
                        # not specified, as above
                        if not (self.dom(gl[n], v) or self.dom(ca[n], v)):
                            self.v("C10", "global attribute %s becomes %r" % (n, v), r)
                    elif gcur[n] != v and self.events_log:
                        self.v("C10", "global attribute %s changes from %r to %r without an update" % (
                            n, gcur[n], v), r)
                    gcur[n] = v
                elif n in ca and n not in {a["name"] for x in self.net.nodes.values() if x["type"] == "task"
                                           for a in x["spec"].get("attrs", [])}:
                    if first:
                        if not self.dom(ca[n], v):
                            self.v("C10", "case attribute %s is %r" % (n, v), r)
                    elif prev.get(n) != v:
                        self.v("C10", "case attribute %s changes from %r to %r within the case" % (
                            n, prev.get(n), v), r)
                    self.probes["case_attr_rows"] += 1
                elif n in tattrs:
                    if not self.next_ok(tattrs[n], prev.get(n), v, snap):
                        self.v("C10", "event attribute %s becomes %r from %r" % (n, v, prev.get(n)), r)
                    self.probes["event_attr_updates"] += 1
                else:
                    old = prev.get(n, "")
                    if v != old and self.events_log is not None:
                        self.v("C10", "event attribute %s changes from %r to %r at an activity that does not set it" % (
                            n, old, v), r)
            ccur[r.case] = {n: v for n, v in r.attrs.items() if n not in gl}

    def signature(self):
        import hashlib
        h = hashlib.sha1()
        for r in self.rows:
            h.update(("%d|%s|%s;" % (r.case, r.nid, r.res)).encode())
        return h.hexdigest()[:16]
