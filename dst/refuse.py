"""Episodes with scenarios that cannot be simulated (C25) and scenarios that are only written differently (C26)."""
import json
import os
import re

from . import audit, gen, simrun
from .episodes import Kind, Outcome, product_error, register, rng_for, sha, spec_of, tape_of
from .iofault import span
from .simrun import Hang
from . import seam

# ------------------------------------------------------------------ contradictions
EARLY, LATE = "before anything is simulated", "when it is reached"


def _pick(r, xs):
    return r.choice(xs) if xs else None


def _attrs(j, kind):
    out = []
    for a in j.get("case_attributes", []) if kind == "case" else j.get("global_attributes", []) if kind == "global" else ():
        out.append(a)
    if kind == "event":
        for e in j.get("event_attributes", []):
            out += e["attributes"]
    return out


def _sum(kind):
    def f(r, j, x):
        a = _pick(r, [a for a in _attrs(j, kind) if a["type"] == "discrete" and isinstance(a["values"], list)])
        if a is None:
            return None
        v = r.choice(a["values"])
        by = r.choice([0.001, 0.05, 0.5, -0.001, -0.05, -0.5])
        v["value"] = round(max(0, v["value"] + by), 9)
        if abs(sum(o["value"] for o in a["values"]) - 1) < 5e-4:
            return None
        return "the probabilities of the %s attribute %s do not sum to 1" % (kind, a["name"])
    return f


def markov_sum(r, j, x):
    a = _pick(r, [a for a in _attrs(j, "event") if a["type"] == "discrete" and isinstance(a["values"], dict)])
    if a is None:
        return None
    row = a["values"][r.choice(sorted(a["values"]))]
    k = r.choice(sorted(row))
    row[k] = round(row[k] + r.choice([0.001, 0.3, -0.001, -0.3]), 9)
    return "a row of the Markov chain %s does not sum to 1" % a["name"]


def attr_type(r, j, x):
    a = _pick(r, _attrs(j, "case") + _attrs(j, "global") + _attrs(j, "event"))
    if a is None:
        return None
    a["type"] = r.choice(["discreet", "", "number"])
    return "attribute %s has the unknown type %r" % (a["name"], a["type"])


def name_clash(r, j, x):
    glob = {a["name"] for a in _attrs(j, "global")}
    case = [a["name"] for a in _attrs(j, "case") if a["name"] not in glob]
    if not case or not x["tasks"]:
        return None
    n = r.choice(case)
    j.setdefault("event_attributes", []).append(
        {"event_id": r.choice(x["tasks"]), "attributes": [{"name": n, "type": "discrete", "values": [{"key": "a", "value": 1}]}]})
    return "case attribute %s is also an attribute of an activity" % n


def _ands(j):
    return [(b, g) for b in j.get("batch_processing", []) for g in b["firing_rules"]]


def _a_rule(r, j, x):
    """Some batch rule to spoil; one is added where there is none."""
    got = _ands(j)
    if got:
        return r.choice(got)
    if not x["tasks"]:
        return None, None
    b = {"task_id": r.choice(x["tasks"]), "type": "Parallel", "size_distrib": [{"key": "1", "value": 0}, {"key": "3", "value": 1}],
         "duration_distrib": [{"key": "1", "value": 1}], "firing_rules": [[{"attribute": "size", "comparison": "=", "value": 2}]]}
    j["batch_processing"] = j.get("batch_processing", []) + [b]
    return b, b["firing_rules"][0]


def day_operator(r, j, x):
    b, g = _a_rule(r, j, x)
    if g is None:
        return None
    for s in g:
        if s["attribute"] == "week_day":
            s["comparison"] = r.choice([">", "<", ">=", "<="])
            break
    else:
        g.insert(r.randrange(len(g) + 1), {"attribute": "week_day", "comparison": r.choice([">", "<", ">=", "<="]), "value": "Monday"})
    return "the weekday of a batch rule is compared by order"


def two_days(r, j, x):
    b, g = _a_rule(r, j, x)
    if g is None:
        return None
    have = sum(s["attribute"] == "week_day" for s in g)
    for d in ("Monday", "Friday")[have:]:
        g.insert(r.randrange(len(g) + 1), {"attribute": "week_day", "comparison": "=", "value": d})
    return "a batch rule wants two weekdays at once"


def three_hours(r, j, x):
    b, g = _a_rule(r, j, x)
    if g is None:
        return None
    have = sum(s["attribute"] == "daily_hour" for s in g)
    for c, v in ((">", "3"), ("<", "20"), (">=", "5"))[have:]:
        g.insert(r.randrange(len(g) + 1), {"attribute": "daily_hour", "comparison": c, "value": v})
    return "a batch rule has three hours"


def open_range(r, j, x):
    b, g = _a_rule(r, j, x)
    if g is None or any(s["attribute"] in ("large_wt", "ready_wt") for s in g):
        return None
    g.append({"attribute": r.choice(["large_wt", "ready_wt"]), "comparison": r.choice([">", ">="]), "value": r.choice([0, 60, 3600])})
    return "a waiting time of a batch rule has no upper limit"


def batch_type(r, j, x):
    b, g = _a_rule(r, j, x)
    if g is None:
        return None
    b["type"] = r.choice(["Both", "parallel", ""])
    return "a batch has the unknown type %r" % b["type"]


def batch_operator(r, j, x):
    b, g = _a_rule(r, j, x)
    if g is None:
        return None
    r.choice(g)["attribute"] = "colour"
    return "a batch rule of activity %s is on an unknown attribute" % b["task_id"]


def section(r, j, x):
    k = r.choice(["resource_profiles", "arrival_time_distribution", "resource_calendars", "task_resource_distribution",
                  "gateway_branching_probabilities"])
    del j[k]
    return "section %s is missing" % k


def unknown_resource(r, j, x):
    t = _pick(r, j["task_resource_distribution"])
    if t is None:
        return None
    r.choice(t["resources"])["resource_id"] = "nobody"
    return "activity %s is given to an unknown resource" % t["task_id"]


def unknown_calendar(r, j, x):
    p = r.choice(j["resource_profiles"])
    q = _pick(r, p["resource_list"])
    if q is None:
        return None
    used = {e["resource_id"] for t in j["task_resource_distribution"] for e in t["resources"]}
    if q["id"] not in used:
        return None
    q["calendar"] = "no such calendar"
    return "resource %s works by an unknown calendar" % q["id"]


def no_distribution(r, j, x):
    ds = [e for t in j["task_resource_distribution"] for e in t["resources"]] + j.get("event_distribution", [])
    if j["arrival_time_distribution"]["distribution_name"] != "histogram_sampling":
        ds.append(j["arrival_time_distribution"])
    r.choice(ds)["distribution_name"] = r.choice(["weird", "", "normall"])
    return "an unknown distribution"


def few_params(r, j, x):
    ds = [e for t in j["task_resource_distribution"] for e in t["resources"]] + j.get("event_distribution", [])
    ds = [d for d in ds if d["distribution_name"] != "fix"]
    d = _pick(r, ds)
    if d is None:
        return None
    d["distribution_params"] = d["distribution_params"][:1]
    return "a %s distribution with one parameter" % d["distribution_name"]


def condition_id(r, j, x):
    ps = [p for g in j["gateway_branching_probabilities"] for p in g["probabilities"] if "condition_id" in p]
    p = _pick(r, ps)
    if p is None:
        return None
    p["condition_id"] = "no such rule"
    return "a branch refers to an unknown condition"


JSON_BAD = [(f, EARLY) for f in (_sum("case"), _sum("event"), _sum("global"), markov_sum, attr_type, name_clash, day_operator, two_days,
                                 three_hours, open_range, batch_type, section, unknown_resource, unknown_calendar,
                                 no_distribution, few_params)]


def no_performer(r, j, x):
    t = _pick(r, j["task_resource_distribution"])
    if t is None:
        return None
    j["task_resource_distribution"].remove(t)
    return "activity %s has no resource" % t["task_id"]


def no_probability(r, j, x):
    g = _pick(r, j["gateway_branching_probabilities"])
    if g is None:
        return None
    j["gateway_branching_probabilities"].remove(g)
    return "gateway %s has no probabilities" % g["gateway_id"]


def no_event(r, j, x):
    e = _pick(r, j.get("event_distribution", []))
    if e is None:
        return None
    j["event_distribution"].remove(e)
    return "event %s has no distribution" % e["event_id"]


JSON_LATE = [(f, LATE) for f in (no_performer, no_probability, no_event, batch_operator, condition_id)]


def no_end(r, xml, x):
    return re.sub(r"<(\w*:?)endEvent\b.*?(/>|</\1endEvent>)", "", xml, flags=re.S), "the process has no end event"


def two_ends(r, xml, x):
    m = re.search(r"<(\w*:?)process\b[^>]*>", xml)
    return xml[:m.end()] + '<%sendEvent id="another_end" name="another end"/>' % m.group(1) + xml[m.end():], "the process has two end events"


def cut_xml(r, xml, x):
    body = xml.rstrip()
    return body[:r.randrange(1, len(body) - 1)], "the process model is cut off"


XML_BAD = [no_end, two_ends, cut_xml]


class Refuse(Kind):
    """One contradiction is put into a scenario: the simulation has to fail, with its cause, and to give no results."""
    name = "bad"

    def plan(self, desc, spec, files):
        """What is written instead of the scenario; None where the contradiction does not apply."""
        r = rng_for(desc, "bad")
        xml, text = files
        if "bad" in desc:
            i = desc["bad"]
        else:
            i = r.randrange(len(JSON_BAD) + len(JSON_LATE) + len(XML_BAD) + 3)
        n, m = len(JSON_BAD), len(JSON_LATE)
        x = {"tasks": [t["task_id"] for t in json.loads(text)["task_resource_distribution"]]}
        if i < n + m:
            f, when = (JSON_BAD + JSON_LATE)[i]
            j = json.loads(text)
            what = f(r, j, x)
            return None if what is None else (xml, json.dumps(j), {}, what, when)
        i -= n + m
        if i < len(XML_BAD):
            xml, what = XML_BAD[i](r, xml, x)
            return xml, text, {}, what, EARLY
        i -= len(XML_BAD)
        if i == 0:
            return xml, text[:r.randrange(len(text) - 1)], {}, "the parameters are cut off", EARLY
        if i == 1:
            return xml, text, {"starting_at": r.choice(["yesterday", "2024-13-01T00:00:00+00:00", "2024-02-30 10:00:00.000000+00:00", "25:00"])}, \
                "the start is no moment", EARLY
        e = r.choice(["model", "params"])
        return (None, text, {}, "the process model does not exist", EARLY) if e == "model" else (xml, None, {}, "the parameters do not exist", EARLY)

    def run(self, desc):
        out = Outcome()
        spec = spec_of(desc)
        with simrun.scratch() as d:
            net, bpmn, js = gen.write_scenario(spec, d)
            files = []
            for p in (bpmn, js):
                with open(p, encoding="utf-8") as f:
                    files.append(f.read())
            got = self.plan(desc, spec, files)
            if got is None:
                out.probes["contradiction_not_applicable"] += 1
                out.digest = "none"
                return out
            xml, text, kw, what, when = got
            for p, t in ((bpmn, xml), (js, text)):
                if t is None:
                    os.remove(p)
                else:
                    with open(p, "w", encoding="utf-8") as f:
                        f.write(t)
            r = simrun.simulate(d, bpmn, js, spec, tape_of(desc), outputs=("stat", "log"), **kw)
        out.values = r.values
        out.note = what
        out.probes[re.sub(r" (\S*\d\S*|'.*?'|R\d+)( |$)", r" _\2", what).replace(" ", "_")] += 1
        out.fired["contradiction"] += 1
        rows = max(0, len(simrun.parse_csv(r.files.get("log", b""))) - 1) if r.files.get("log") else 0
        if isinstance(r.error, (Hang, seam.StepLimit)):
            product_error(out, r.error)
        elif r.error is None:
            if when is EARLY:
                out.add("C25", "%s, and the simulation gives %d rows of results" % (what, rows))
            else:
                self.unreached(out, spec, net, r, what)
        else:
            if when is EARLY and rows:
                out.add("C25", "%s, and the simulation gives %d rows of results before it fails: %s" % (what, rows, type(r.error).__name__))
            if not str(r.error).strip():
                out.add("C25", "%s, and the failure says nothing (%s)" % (what, type(r.error).__name__))
            if r.files.get("stat") and len(r.files["stat"].splitlines()) > 3:
                out.add("C25", "%s, the simulation fails, and there are statistics" % what)
        out.sig = out.digest = sha(what, repr(type(r.error)), str(rows))
        out.nontrivial = True
        return out

    def unreached(self, out, spec, net, r, what):
        """Nothing failed: then no case came to what cannot be simulated."""
        out.probes["never_reached"] += 1
        table = simrun.parse_csv(r.files["log"])
        out.sim_s = span(table) if len(table) > 1 else 0
        m = re.match(r".*(?:activity|event) (\S+) ", what)
        if m:
            name = net.nodes[m.group(1)]["name"]
            # (an activity performed alone does not ask the rules of its batches)
            if any(x[1] == name and ("batch" not in what or x[-1] not in ("", "None")) for x in table[1:]):
                out.add("C25", "%s, and yet it is performed" % what)
        if "batch" not in what:
            a = audit.Audit(spec, net, table, warnings=r.files.get("warnings", b"").decode("utf-8", "replace"))
            a.run()
            for p, msg in a.viol:
                if p in ("C01", "C02", "C03"):
                    out.add("C25", "%s, nothing fails, and: %s" % (what, msg))

register(Refuse())
