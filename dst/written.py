"""Episodes with one scenario written in two ways (C26): the results are byte-equal."""
import datetime as dt
import json
import os
import re
import xml.etree.ElementTree as ET

from . import gen, simrun
from .iofault import span
from .episodes import Kind, Outcome, product_error, register, rng_for, sha, spec_of, tape_of

NS = "http://www.omg.org/spec/BPMN/20100524/MODEL"
FORMS = ["keys", "lists", "split", "days", "indent", "escapes", "floats", "strangers", "prefix", "attributes", "comments", "documentation", "artifacts", "diagram",
         "entities", "lanes", "pools", "ids", "weeks"]


# ------------------------------------------------------------------ parameters
def reorder(r, x, chain=False):
    if isinstance(x, dict):
        ks = list(x)
        if not chain:
            r.shuffle(ks)
        return {k: reorder(r, x[k], chain or (k == "values" and isinstance(x[k], dict) and "distribution_name" not in x[k])) for k in ks}
    return [reorder(r, v, chain) for v in x] if isinstance(x, list) else x


def floats(x, key=None):
    """Whole numbers written with a decimal point."""
    if isinstance(x, dict):
        return {k: floats(v, k) for k, v in x.items()}
    if isinstance(x, list):
        return [floats(v, key) for v in x]
    return float(x) if key in ("value", "bin_midpoints", "cdf") and type(x) is int else x


def strangers(r, x):
    """Keys nobody asks for."""
    if "distribution_params" in x or "firing_rules" in x or "time_periods" in x or "resource_list" in x:
        x["comment"] = r.choice(["", "checked by J. M\u00fcller", None, {"by": ["x"]}])
    for v in x.values():
        for w in v if isinstance(v, list) else [v]:
            if isinstance(w, dict):
                strangers(r, w)


DAYS = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"]


def single_days(x):
    """A period of several days, as as many periods."""
    a, b = DAYS.index(x["from"].upper()), DAYS.index(x["to"].upper())
    return [dict(x, **{"from": d, "to": d}) for d in DAYS[a:b + 1]] if a < b else [x]


def rewrite_json(r, text, forms):
    j = json.loads(text)
    if "strangers" in forms:
        strangers(r, j)
        j["process_model_version"] = 3
        j["notes"] = ["not for", {"the": "simulator"}]
    if "floats" in forms:
        lim, gran = j.get("gateway_execution_limit"), j.get("granule_size")
        bat = j.get("batch_processing")
        j = floats(j)
        for k, v in (("gateway_execution_limit", lim), ("granule_size", gran), ("batch_processing", bat)):
            if v is not None:
                j[k] = v
    if "lists" in forms:
        for k in ("gateway_branching_probabilities", "resource_calendars", "event_distribution", "branch_rules", "event_attributes",
                  "arrival_time_calendar"):
            r.shuffle(j.get(k, []))
        for c in j["resource_calendars"]:
            for k in ("time_periods", "workload_ratio"):
                r.shuffle(c.get(k, []))
    if "split" in forms:
        j["task_resource_distribution"] = [dict(t, resources=[x]) for t in j["task_resource_distribution"] for x in t["resources"]]
        if "event_attributes" in j:
            j["event_attributes"] = [dict(e, attributes=[a]) for e in j["event_attributes"] for a in e["attributes"]]
    if "days" in forms:
        for c in j["resource_calendars"]:
            for k in ("time_periods", "workload_ratio"):
                if k in c:
                    c[k] = [y for x in c[k] for y in single_days(x)]
        if "arrival_time_calendar" in j:
            j["arrival_time_calendar"] = [y for x in j["arrival_time_calendar"] for y in single_days(x)]
    if "keys" in forms:
        j = reorder(r, j)
    t = json.dumps(j, ensure_ascii="escapes" in forms, indent=r.choice([1, 2, 4, "\t"]) if "indent" in forms else None)
    return t + ("\n\n" if "indent" in forms else "")


# ------------------------------------------------------------------ process model
def q(tag):
    return "{%s}%s" % (NS, tag)


def rewrite_xml(r, text, forms):
    root = ET.fromstring(text)
    proc = root.find(q("process"))
    nodes = [e for e in proc if e.get("id")]
    if "documentation" in forms:
        for e in r.sample(nodes, max(1, len(nodes) // 2)):
            d = ET.Element(q("documentation"))
            d.text = r.choice(["Done by hand.", "<b>incoming</b> & outgoing", "T1"])
            e.insert(0, d)
            if r.random() < 0.5:
                x = ET.Element(q("extensionElements"))
                ET.SubElement(x, "{http://example.org/tool}task", {"id": "T1", "name": "T1"})
                e.insert(1, x)
    if "artifacts" in forms:
        for k in range(r.choice([1, 2])):
            a = ET.Element(q("textAnnotation"), {"id": "Note_%d" % k})
            ET.SubElement(a, q("text")).text = "a note"
            b = ET.Element(q("association"), {"id": "Assoc_%d" % k, "sourceRef": r.choice(nodes).get("id"), "targetRef": "Note_%d" % k})
            for e in (a, b, ET.Element(q("dataObjectReference"), {"id": "Data_%d" % k, "name": "Form"})):
                proc.insert(r.randrange(len(proc) + 1), e)
    if "lanes" in forms:
        s = ET.Element(q("laneSet"), {"id": "lanes"})
        lane = ET.SubElement(s, q("lane"), {"id": "lane1", "name": "Office"})
        for e in nodes:
            if e.tag != q("sequenceFlow"):
                ET.SubElement(lane, q("flowNodeRef")).text = e.get("id")
        proc.insert(0, s)
    if "pools" in forms:
        c = ET.Element(q("collaboration"), {"id": "Collab"})
        ET.SubElement(c, q("participant"), {"id": "Pool_1", "name": "Company", "processRef": proc.get("id")})
        ET.SubElement(c, q("participant"), {"id": "Pool_2", "name": "Customer", "processRef": "Customers"})
        ET.SubElement(c, q("messageFlow"), {"id": "Msg_1", "sourceRef": r.choice(nodes).get("id"), "targetRef": "Pool_2"})
        root.insert(0, c)
        root.insert(r.choice([1, 2]), ET.Element(q("process"), {"id": "Customers", "isExecutable": "false"}))
    if "diagram" in forms:
        di = "http://www.omg.org/spec/BPMN/20100524/DI"
        d = ET.SubElement(root, "{%s}BPMNDiagram" % di, {"id": "diagram"})
        pl = ET.SubElement(d, "{%s}BPMNPlane" % di, {"id": "plane", "bpmnElement": proc.get("id")})
        for e in nodes:
            ET.SubElement(pl, "{%s}BPMNShape" % di, {"id": e.get("id") + "_di", "bpmnElement": e.get("id")})
    if "attributes" in forms:
        for e in root.iter():
            ks = list(e.attrib.items())
            r.shuffle(ks)
            e.attrib.clear()
            e.attrib.update(ks)
            if e.tag == q("task") and r.random() < 0.3:
                e.set("startQuantity", "1")
    if "comments" in forms:
        for e in [proc] + nodes:
            if r.random() < 0.5:
                e.insert(r.randrange(len(e) + 1), ET.Comment(r.choice([" here ", "<task id='T1' name='T1'/>", " sequenceFlow "])))
    if "prefix" in forms:
        ET.register_namespace(r.choice(["bpmn", "bpmn2", "semantic"]), NS)
    else:
        ET.register_namespace("", NS)
    if "indent" in forms:
        ET.indent(root, space=r.choice(["  ", "\t"]))
    return ET.tostring(root, encoding="us-ascii" if "entities" in forms else "utf-8", xml_declaration="entities" in forms or r.random() < 0.5,
                       short_empty_elements=r.random() < 0.5)


def rename(r, xml, text):
    """Other identifiers for the elements of the process; the names stay."""
    root = ET.fromstring(xml)
    proc = next(p for p in root.findall(q("process")) if len(p))
    new = {e.get("id"): "sid-%08X-%s" % (r.getrandbits(32), r.choice(["A1", "b", "_"])) for e in proc.iter() if e.get("id")}
    for e in root.iter():
        for k in ("id", "sourceRef", "targetRef", "default"):
            if e.get(k) in new:
                e.set(k, new[e.get(k)])

    def walk(x):
        if isinstance(x, dict):
            return {k: new.get(v, v) if k in ("task_id", "gateway_id", "path_id", "event_id") else walk(v) for k, v in x.items()}
        return [walk(v) for v in x] if isinstance(x, list) else x

    return ET.tostring(root, encoding="unicode"), json.dumps(walk(json.loads(text))), {v: k for k, v in new.items()}


def earlier(day, days):
    if day[:4] in (b"0001", b"9999"):       # of a simulation without anything performed
        return day
    return (dt.date.fromisoformat(day.decode()) - dt.timedelta(days=days)).isoformat().encode()


def comparable(name, data, old, days=0):
    if name != "warnings":
        if days:
            data = re.sub(rb"\b\d{4}-\d\d-\d\d(?=[ T]\d\d:)", lambda m: earlier(m.group(), days), data)
        return data.splitlines()
    t = data.decode("utf-8", "replace")
    for a, b in old.items():
        t = t.replace(a, b)
    return sorted(t.encode().splitlines())      # the order of gateways in the file is the order of their warnings


class Written(Kind):
    name = "form"

    def forms(self, desc):
        if "forms" in desc:
            return desc["forms"]
        r = rng_for(desc, "forms")
        return sorted(r.sample(FORMS, r.choice([1, 2, 4, len(FORMS)])))

    def run(self, desc):
        out = Outcome()
        spec, forms = spec_of(desc), self.forms(desc)
        outputs = ("stat", "log") if spec["stat"] else ("log",)
        runs = []
        with simrun.scratch() as d:
            net, bpmn, js = gen.write_scenario(spec, d)
            tape = tape_of(desc)
            runs.append(simrun.simulate(d, bpmn, js, spec, tape, outputs=outputs))
            with open(bpmn, encoding="utf-8") as f:
                xml = f.read()
            with open(js, encoding="utf-8") as f:
                text = f.read()
        out.values = runs[0].values
        if runs[0].error is not None:
            product_error(out, runs[0].error)
            out.digest = sha(repr(runs[0].error)[:80])
            return out
        old, days = {}, 0
        if "weeks" in forms:
            # another week is the same to every weekly calendar
            days = 7 * rng_for(desc, "weeks").choice([1, 3, 30, 43, 51, 52, 103, 208, -9, -300, 900])
            t = dt.datetime.fromisoformat(spec["start"])
            timespec = "microseconds" if "." in spec["start"] else "seconds"
            later = dict(spec, start=(t + dt.timedelta(days=days)).isoformat(timespec=timespec))
        if "ids" in forms:
            xml, text, old = rename(rng_for(desc, "ids"), xml, text)
        with simrun.scratch() as d:
            bpmn, js = os.path.join(d, "model.bpmn"), os.path.join(d, "params.json")
            with open(bpmn, "wb") as f:
                f.write(rewrite_xml(rng_for(desc, "xml"), xml, forms))
            with open(js, "w", encoding="utf-8") as f:
                f.write(rewrite_json(rng_for(desc, "json"), text, forms))
            runs.append(simrun.simulate(d, bpmn, js, later if days else spec, tape_of(desc), outputs=outputs))
        for f in forms:
            out.fired["written_differently_" + f] += 1
        a, b = runs
        if b.error is not None:
            out.add("C26", "written differently (%s), the scenario fails: %s: %s [%s]" % (
                ", ".join(forms), type(b.error).__name__, str(b.error)[:160], simrun.where(b.error)))
        else:
            for k in sorted(set(a.files) | set(b.files)):
                x, y = comparable(k, a.files.get(k, b""), old), comparable(k, b.files.get(k, b""), old, days)
                if x != y:
                    i = next((i for i, (p, s) in enumerate(zip(x, y)) if p != s), min(len(x), len(y)))
                    out.add("C26", "written differently (%s), the %s differs at line %d: %s / %s" % (
                        ", ".join(forms), k, i, x[i][:100] if i < len(x) else "(end)", y[i][:100] if i < len(y) else "(end)"))
                    break
        out.probes["scenarios_written_twice"] += 1
        out.sig = out.digest = sha(a.files.get("log", b""), b.files.get("log", b""))
        table = simrun.parse_csv(a.files.get("log", b""))
        out.nontrivial = len(table) > 2
        out.sim_s = 2 * span(table) if len(table) > 1 else 0
        return out

    def concretise(self, desc):
        return dict(Kind.concretise(self, desc), forms=self.forms(desc))

    def shrinks(self, desc):
        for i in range(len(desc["forms"])):
            if len(desc["forms"]) > 1:
                yield dict(desc, forms=desc["forms"][:i] + desc["forms"][i + 1:])


register(Written())
