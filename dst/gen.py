"""Random scenarios: a process tree with its parameters inline, compiled to BPMN XML,
the simulation-parameter JSON, and an independent reference net for the auditor."""
import datetime as dt
import json
import os
import random
from xml.sax.saxutils import quoteattr

from . import calref

MON = dt.datetime(2024, 3, 4)

# ------------------------------------------------------------------ distributions
def d_fix(v):
    return {"n": "fix", "p": [v]}


def d_rand(rng, scale, allow_zero=False):
    """A distribution with mean roughly `scale` seconds and sure acceptance."""
    k = rng.random()
    if k < 0.45:
        v = rng.choice([1.0, 1.0, 0.5, 2.0, 0.25, 1.5]) * scale
        if rng.random() < 0.15:
            v += rng.choice([0.001, 0.123456, 13.7])
        if allow_zero and rng.random() < 0.2:
            v = 0
        return d_fix(v)
    if k < 0.75:
        lo = scale * rng.choice([0.1, 0.5, 1.0])
        return {"n": "uniform", "p": [lo, lo + scale * rng.choice([0.2, 1.0, 2.0])]}
    if k < 0.85:
        return {"n": "expon", "p": [scale, 0, scale * 6]}
    if k < 0.93:
        return {"n": "norm", "p": [scale, scale / 4, scale * 0.1, scale * 2.5]}
    if k < 0.97:
        return {"n": "gamma", "p": [scale, (scale / 3) ** 2, scale * 0.05, scale * 5]}
    return {"n": "lognorm", "p": [scale, (scale / 3) ** 2, scale * 0.05, scale * 5]}


def d_json(d):
    return {"distribution_name": d["n"], "distribution_params": [{"value": x} for x in d["p"]]}


def d_bounds(d):
    n, p = d["n"], d["p"]
    if n == "fix":
        return p[0], p[0]
    if n == "uniform":
        return p[0], p[1]
    if n == "expon":
        return p[1], p[2]
    if n == "hist":
        return min(p), max(p)
    return p[2], p[3]


# ------------------------------------------------------------------ calendars
CALS = {
    "full": [["MONDAY", "SUNDAY", "00:00:00", "23:59:59"]],
    "office": [["MONDAY", "FRIDAY", "09:00:00", "17:00:00"]],
    "split": [["MONDAY", "FRIDAY", "09:00:00", "12:00:00"], ["MONDAY", "FRIDAY", "13:00:00", "17:30:00"]],
    "week7": [["MONDAY", "SUNDAY", "08:00:00", "20:00:00"]],
    "weekend": [["SATURDAY", "SUNDAY", "10:00:00", "16:00:00"], ["WEDNESDAY", "WEDNESDAY", "06:00:00", "09:30:00"]],
    "night": [["MONDAY", "FRIDAY", "00:00:00", "05:00:00"], ["MONDAY", "FRIDAY", "20:00:00", "23:59:59"]],
    "odd": [["TUESDAY", "THURSDAY", "07:15:30", "11:45:45"], ["TUESDAY", "SATURDAY", "14:00:01", "18:59:59"]],
    "wrap": [["FRIDAY", "TUESDAY", "10:00:00", "15:00:00"]],
    "tri": [["MONDAY", "SATURDAY", "08:00:00", "10:00:00"], ["MONDAY", "SATURDAY", "11:00:00", "13:00:00"],
            ["MONDAY", "FRIDAY", "14:00:00", "19:00:00"]],
}


# intervals of fuzzy calendars: from, to, first hour, last hour (of the day, exclusive)
FCALS = {
    "full": [["MONDAY", "SUNDAY", 0, 24]],
    "office": [["MONDAY", "FRIDAY", 9, 17]],
    "split": [["MONDAY", "FRIDAY", 9, 12], ["MONDAY", "FRIDAY", 13, 17]],
    "week7": [["MONDAY", "SUNDAY", 8, 20]],
    "weekend": [["SATURDAY", "SUNDAY", 10, 16], ["WEDNESDAY", "WEDNESDAY", 6, 9]],
    "night": [["MONDAY", "FRIDAY", 0, 5], ["MONDAY", "FRIDAY", 20, 24]],
    "odd": [["TUESDAY", "THURSDAY", 7, 12], ["TUESDAY", "SATURDAY", 14, 19]],
    "wrap": [["FRIDAY", "SUNDAY", 10, 15], ["MONDAY", "TUESDAY", 10, 15]],
    "tri": [["MONDAY", "SATURDAY", 8, 10], ["MONDAY", "SATURDAY", 11, 13], ["MONDAY", "FRIDAY", 14, 19]],
}


def rand_fuzzy(rng, names):
    """Probabilities (of being available, of working) per interval; sharp calendars know only 0 and 1."""
    soft = rng.random() < 0.5
    cals = {}
    for c in sorted(names):
        ps = []
        for _ in FCALS[c]:
            ps.append([rng.choice([0, 0.3, 0.6, 1]), rng.choice([0, 0, 0.5, 1])] if soft
                      else rng.choice([[1, 0], [1, 0], [1, 0], [0, 1], [1, 1]]))
        if not any(max(x) > 0 for x in ps):
            ps[0] = [1, 0]
        cals[c] = ps
    unit = rng.choice(["MINUTES", "MINUTES", "HOURS", "SECONDS"])
    minutes = rng.choice([60, 60, 30, 15, 20]) if unit != "HOURS" else 60
    return {"granule": {"MINUTES": minutes, "HOURS": 1, "SECONDS": minutes * 60}[unit], "unit": unit, "soft": soft, "cals": cals}


def fuzzy_json(spec, c):
    out = []
    for k in (0, 1):
        out.append([{"from": f, "to": t, "beginTime": "%02d:00:00" % b, "endTime": "%02d:00:00" % (e % 24),
                     "probability": ps[k]} for (f, t, b, e), ps in zip(FCALS[c], spec["fuzzy"]["cals"][c])])
    return {"id": "cal_" + c, "name": c, "time_periods": out[0], "workload_ratio": out[1]}


def calendar(spec, c, sure=False):
    """The calendar c of the scenario for the reference model; sure: only the hours that are certain to be worked."""
    fz = spec.get("fuzzy")
    if not fz:
        return calref.Cal(CALS[c])
    return calref.OpenCal([[f, t, b, e] for (f, t, b, e), ps in zip(FCALS[c], fz["cals"][c])
                           if (max(ps) == 1 if sure else max(ps) > 0)])


def rand_cal(rng, prof):
    if rng.random() < prof.get("full_cal", 0.3):
        return "full"
    return rng.choice([c for c in CALS if c != "full"])


# ------------------------------------------------------------------ the tree
class TreeGen:
    def __init__(self, rng, prof, res_ids):
        self.rng, self.prof, self.res_ids = rng, prof, res_ids
        self.n = 0
        self.tasks = 0
        self.scale = rng.choice(prof.get("scales", [60, 600, 1800, 3600, 7200, 20000]))

    def nid(self):
        self.n += 1
        return self.n

    def task(self):
        rng = self.rng
        self.tasks += 1
        k = min(len(self.res_ids), rng.choice([1, 1, 2, 2, 3]))
        rs = rng.sample(self.res_ids, k)
        if self.prof.get("same_dist") or rng.random() < 0.3:
            d = d_rand(rng, self.scale, self.prof.get("zero", False))
            res = [[r, d] for r in rs]
        else:
            res = [[r, d_rand(rng, self.scale, self.prof.get("zero", False))] for r in rs]
        return {"t": "task", "id": self.nid(), "res": res}

    def event(self):
        sc = self.rng.choice([0.1, 1, 1, 5]) * self.scale
        return {"t": "event", "id": self.nid(), "kind": self.rng.choice(["timer", "message", "signal", "plain"]),
                "dist": d_rand(self.rng, sc, True)}

    def probs(self, n):
        rng = self.rng
        k = rng.random()
        if k < 0.15 and n >= 2 and self.prof.get("extreme_p", True):
            p = [0.0] * n
            p[rng.randrange(n)] = 1.0
            return p
        if k < 0.3 and n == 3:
            p = [0.5, 0.5, 0.0]
            rng.shuffle(p)
            return p
        if k < 0.5:
            return [1.0 / n] * n
        w = [rng.randint(1, 9) for _ in range(n)]
        return [x / sum(w) for x in w]

    def leaf(self):
        if self.rng.random() < self.prof.get("event", 0):
            return self.event()
        return self.task()

    def node(self, depth):
        rng, prof = self.rng, self.prof
        if depth <= 0:
            return self.leaf()
        opts = [("leaf", prof.get("leaf", 3))] + [(k, prof.get(k, 0)) for k in
                                                  ("xor", "and", "or", "loop", "ebg", "seq")]
        k = rng.choices([o[0] for o in opts], [o[1] for o in opts])[0]
        if k == "leaf":
            return self.leaf()
        if k == "seq":
            return {"t": "seq", "c": [self.node(depth - 1) for _ in range(rng.randint(1, 3))]}
        if k == "loop":
            body = {"t": "seq", "c": [self.task()]}
            if rng.random() < 0.5:
                body["c"].insert(rng.randint(0, 1), self.node(depth - 1))
            redo = self.node(depth - 1) if rng.random() < 0.35 else None
            if rng.random() < prof.get("silent", 0):
                # a round in which nothing is performed
                body = {"t": "seq", "c": [{"t": "xor", "id": self.nid(), "imerge": False, "b": [
                    {"p": 0.5, "body": self.task()}, {"p": 0.5, "body": None}]}]}
                redo = None
            return {"t": "loop", "id": self.nid(), "body": body, "redo": redo,
                    "p": rng.choice(prof.get("loop_p", [0.2, 0.3, 0.5, 0.0])),
                    "implicit": rng.random() < prof.get("implicit", 0.2)}
        n = rng.choice([2, 2, 3])
        if k == "ebg":
            return {"t": "ebg", "id": self.nid(),
                    "b": [{"event": self.event(), "body": self.node(depth - 1) if rng.random() < 0.7 else None}
                          for _ in range(n)]}
        bodies = [self.node(depth - 1) for _ in range(n)]
        if k == "and":
            return {"t": "and", "id": self.nid(), "b": bodies, "implicit": rng.random() < prof.get("implicit", 0.2),
                    "imerge": rng.random() < prof.get("implicit", 0.2)}
        if rng.random() < prof.get("skip", 0.3):
            bodies[rng.randrange(n)] = None
        ps = self.probs(n)
        out = {"t": k, "id": self.nid(), "b": [{"p": ps[i], "body": bodies[i]} for i in range(n)],
               "imerge": rng.random() < prof.get("implicit", 0.2)}
        return out

    def tree(self):
        rng, prof = self.rng, self.prof
        n = rng.choice(prof.get("len", [1, 2, 2, 3, 4]))
        kids = [self.node(prof.get("depth", 2)) for _ in range(n)]
        if prof.get("first_task") or rng.random() < 0.4:
            kids.insert(0, self.task())
        if self.tasks == 0:
            kids.append(self.task())
        if rng.random() < prof.get("tail", 0.3):
            kids.append(self.task())
        root = {"t": "seq", "c": kids}
        if rng.random() < prof.get("race", 0):
            bs = [self.node(1) for _ in range(rng.choice([2, 2, 3]))]
            if rng.random() < prof.get("instant", 0):
                # a branch that may reach the end at once, while others are still at their gateways
                bs[0] = {"t": "xor", "id": self.nid(), "imerge": False, "b": [
                    {"p": 0.5, "body": self.task()}, {"p": 0.5, "body": None}]}
                bs[1] = self.node(3)
            root["c"].append({"t": "race", "id": self.nid(), "b": bs, "dead": rng.random() < 0.5})
        return root


def walk(node):
    if node is None:
        return
    yield node
    t = node["t"]
    if t == "seq":
        for c in node["c"]:
            yield from walk(c)
    elif t in ("and", "race"):
        for c in node["b"]:
            yield from walk(c)
    elif t in ("xor", "or"):
        for b in node["b"]:
            yield from walk(b["body"])
    elif t == "ebg":
        for b in node["b"]:
            yield from walk(b["event"])
            yield from walk(b["body"])
    elif t == "loop":
        yield from walk(node["body"])
        yield from walk(node["redo"])


# ------------------------------------------------------------------ compile
class Src:
    def __init__(self, node, tag=None):
        self.node, self.tag = node, tag


class Net:
    """Reference net.  Flow ids present in the XML keep their name."""

    def __init__(self):
        self.nodes = {}   # id -> dict(type, in, out, name, spec)
        self.flows = {}   # fid -> (src, dst)
        self.xml_nodes = []
        self.xml_flows = []
        self.tagged = {}

    def add(self, nid, typ, name=None, spec=None, xml=None, **kw):
        self.nodes[nid] = dict(type=typ, name=name or nid, spec=spec, out=[], **{"in": []}, **kw)
        if xml:
            self.xml_nodes.append((xml, nid, name, kw))
        return nid

    def flow(self, src, dst, xml=True, fid=None):
        fid = fid or ("Flow_%d" % (len(self.flows) + 1) if xml else "v_%s_%s" % (src, dst))
        self.flows[fid] = (src, dst)
        self.nodes[src]["out"].append(fid)
        self.nodes[dst]["in"].append(fid)
        return fid


NAMES = ["Check credit", "Review, urgent", "Pr\u00fcfen", 'Say "yes"', "Notify client", "Pack goods", "Ship",
         "Invoice; send", "Close file", "Assess risk"]


def compile_tree(spec):
    net = Net()
    net.add("start", "start", "Start", xml="startEvent")

    def name_of(k, n):
        return "%s %d" % (NAMES[n % len(NAMES)], n) if k == "task" else "Event %d" % n

    def xflow(src, dst):
        fid = net.flow(src.node, dst)
        net.xml_flows.append((fid, src.node, dst))
        if src.tag is not None:
            net.tagged[src.tag] = fid
        return fid

    def join_into(srcs, target, merge):
        """Flow every source into target.  merge: how several tokens combine."""
        if len(srcs) == 1:
            xflow(srcs[0], target)
            return
        # implicit merge in the XML, explicit virtual node in the reference
        v = "virt_%s_%s" % (merge, target)
        net.add(v, merge)
        if merge == "or":
            net.nodes[srcs[0].orsplit]["orjoin"] = v
        for s in srcs:
            fid = "Flow_%d" % (len(net.flows) + 1)
            net.flow(s.node, v, fid=fid)
            net.xml_flows.append((fid, s.node, target))
            if s.tag is not None:
                net.tagged[s.tag] = fid
        net.flow(v, target, xml=False)

    def gw(kind, nid, suffix, spec=None):
        xml = {"xor": "exclusiveGateway", "and": "parallelGateway", "or": "inclusiveGateway",
               "ebg": "eventBasedGateway"}[kind]
        return net.add("G%d_%s" % (nid, suffix), kind, spec=spec, xml=xml)

    def accepts(nxt, merge):
        """May several flows lead straight into this next node?"""
        if nxt is None:
            return False
        if isinstance(nxt, str):
            return nxt == "end" and not (merge in ("and", "or") and spec["terminate"])
        t = nxt["t"]
        if t == "seq":
            return accepts(nxt["c"][0], merge) if nxt["c"] else False
        if merge == "xor":
            return t in ("task", "xor", "event")
        if merge == "and":
            return t == "and" and not nxt.get("implicit")
        if merge == "or":
            return t == "or"
        return False

    def comp(node, srcs, nxt):
        t = node["t"]
        merge = srcs[0].merge if hasattr(srcs[0], "merge") else "xor"
        if t == "seq":
            for i, c in enumerate(node["c"]):
                n2 = node["c"][i + 1] if i + 1 < len(node["c"]) else nxt
                srcs = comp(c, srcs, n2)
            return srcs
        if t == "task":
            nid = net.add("T%d" % node["id"], "task", name_of("task", node["id"]), spec=node, xml="task")
            join_into(srcs, nid, merge)
            return [Src(nid)]
        if t == "event":
            nid = net.add("E%d" % node["id"], "event", name_of("event", node["id"]), spec=node,
                          xml="intermediateCatchEvent", kind=node["kind"])
            join_into(srcs, nid, merge)
            return [Src(nid)]
        if t in ("and", "race"):
            single_task = len(srcs) == 1 and net.nodes[srcs[0].node]["type"] in ("task", "event", "start") and srcs[0].tag is None
            if node.get("implicit") and single_task:
                s = srcs[0].node
                v = net.add("virt_split_%s" % s, "and")
                net.flow(s, v, xml=False)
                real = s
                heads = []
                for i, b in enumerate(node["b"]):
                    heads.append(Src(v, ("isplit", node["id"], i)))
                split, is_virtual = v, True
            else:
                split, is_virtual = gw("and", node["id"], "s"), False
                join_into(srcs, split, merge)
                heads = [Src(split) for _ in node["b"]]
            outs = []
            for i, b in enumerate(node["b"]):
                n0 = len(net.xml_flows)
                outs.append(comp(b, [heads[i]], "branch"))
                if is_virtual:  # in the XML the flow leaves the task itself
                    fid, s_, d_ = net.xml_flows[n0]
                    for k in range(n0, len(net.xml_flows)):
                        f_, a_, b_ = net.xml_flows[k]
                        if a_ == split:
                            net.xml_flows[k] = (f_, real, b_)
            flat = [s for o in outs for s in o]
            if t == "race":
                if node["dead"]:
                    return outs[0]
                j = gw("xor", node["id"], "j")
                for s in flat:
                    xflow(s, j)
                return [Src(j)]
            if node.get("imerge") and accepts(nxt, "and") and len(flat) == len(node["b"]):
                for s in flat:
                    s.merge = "and"
                return flat
            j = gw("and", node["id"], "j")
            for s in flat:
                xflow(s, j)
            return [Src(j)]
        if t in ("xor", "or"):
            split = gw(t, node["id"], "s", spec=node)
            join_into(srcs, split, merge)
            flat = []
            for i, b in enumerate(node["b"]):
                s = Src(split, (node["id"], i))
                flat += comp(b["body"], [s], "branch") if b["body"] is not None else [s]
            node_flows = None
            if t == "xor" and node.get("imerge") and accepts(nxt, "xor"):
                for s in flat:
                    s.merge = "xor"
                net.nodes[split]["branches"] = node["id"]
                return flat
            if t == "or" and node.get("imerge") and accepts(nxt, "or"):
                # the next inclusive gateway both joins and splits
                for s in flat:
                    s.merge = "or"
                    s.orsplit = split
                return flat
            j = gw(t, node["id"], "j")
            if t == "or":
                net.nodes[split]["orjoin"] = j
            for s in flat:
                xflow(s, j)
            return [Src(j)]
        if t == "ebg":
            split = gw("ebg", node["id"], "s", spec=node)
            join_into(srcs, split, merge)
            flat = []
            for b in node["b"]:
                o = comp(b["event"], [Src(split)], "branch")
                flat += comp(b["body"], o, "branch") if b["body"] is not None else o
            j = gw("xor", node["id"], "j")
            for s in flat:
                xflow(s, j)
            return [Src(j)]
        if t == "loop":
            first = node["body"]["c"][0]
            implicit = node["implicit"] and first["t"] == "task" and merge == "xor"
            if implicit:
                v = "virt_xor_T%d" % first["id"]
                net.add(v, "xor")
                tid = "T%d" % first["id"]
                net.add(tid, "task", name_of("task", first["id"]), spec=first, xml="task")
                for s in srcs:
                    fid = "Flow_%d" % (len(net.flows) + 1)
                    net.flow(s.node, v, fid=fid)
                    net.xml_flows.append((fid, s.node, tid))
                    if s.tag is not None:
                        net.tagged[s.tag] = fid
                net.flow(v, tid, xml=False)
                rest = {"t": "seq", "c": node["body"]["c"][1:]}
                out = comp(rest, [Src(tid)], "branch") if rest["c"] else [Src(tid)]
            else:
                j = gw("xor", node["id"], "j")
                join_into(srcs, j, "xor") if len(srcs) == 1 else [xflow(s, j) for s in srcs]
                out = comp(node["body"], [Src(j)], "branch")
            split = gw("xor", node["id"], "s", spec=node)
            join_into(out, split, "xor")
            back = [Src(split, (node["id"], 0))]
            exit_ = Src(split, (node["id"], 1))
            if node["redo"] is not None:
                back = comp(node["redo"], back, "branch")
            for s in back:
                if implicit:
                    fid = "Flow_%d" % (len(net.flows) + 1)
                    net.flow(s.node, v, fid=fid)
                    net.xml_flows.append((fid, s.node, tid))
                    if s.tag is not None:
                        net.tagged[s.tag] = fid
                else:
                    xflow(s, j)
            return [exit_]
        raise ValueError(t)

    outs = comp(spec["tree"], [Src("start")], "end")
    term = bool(spec.get("terminate"))
    net.add("end", "end", "End", xml="endEvent", terminate=term)
    merge = getattr(outs[0], "merge", "xor")
    if len(outs) > 1:
        # BPMN: every token is consumed by the end event; the simulator waits for all of them
        for s in outs:
            xflow(s, "end")
    else:
        xflow(outs[0], "end")
    # branch tables
    net.branch = {}
    for nid, n in net.nodes.items():
        sp = n["spec"]
        if n["type"] in ("xor", "or") and sp is not None and len(n["out"]) > 1:
            if sp["t"] == "loop":
                bl = [{"p": sp["p"], "cond": sp.get("cond")}, {"p": 1 - sp["p"], "cond": sp.get("cond_exit")}]
            else:
                bl = sp["b"]
            tab = []
            for i, b in enumerate(bl):
                tab.append({"flow": net.tagged[(sp["id"], i)], "p": b["p"], "cond": b.get("cond"),
                            "nop": b.get("nop", False)})
            n["table"] = tab
            n["default"] = net.tagged[(sp["id"], sp["default"])] if sp.get("default") is not None else None
    return net


def to_xml(spec, net):
    out = ['<?xml version="1.0" encoding="UTF-8"?>',
           '<definitions xmlns="http://www.omg.org/spec/BPMN/20100524/MODEL" '
           'xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" id="defs" targetNamespace="http://t">',
           '<process id="proc" isExecutable="false">']
    rng = random.Random(spec.get("xml_order", 0))
    nodes = list(net.xml_nodes)
    flows = list(net.xml_flows)
    if spec.get("xml_order"):
        rng.shuffle(nodes)
        rng.shuffle(flows)
    for xml, nid, name, kw in nodes:
        extra = ""
        n = net.nodes[nid]
        if n.get("default"):
            extra = " default=%s" % quoteattr(n["default"])
        nm = " name=%s" % quoteattr(name) if name else ""
        body = ""
        if xml == "intermediateCatchEvent":
            k = kw.get("kind")
            body = "" if k == "plain" else "<%sEventDefinition id=\"ed_%s\"/>" % (k, nid)
        if xml == "endEvent" and kw.get("terminate"):
            body = '<terminateEventDefinition id="ted"/>'
        out.append("<%s id=%s%s%s>%s</%s>" % (xml, quoteattr(nid), nm, extra, body, xml))
    for fid, s, d in flows:
        out.append("<sequenceFlow id=%s sourceRef=%s targetRef=%s/>" % (quoteattr(fid), quoteattr(s), quoteattr(d)))
    out.append("</process></definitions>")
    return "\n".join(out)


def cal_json(items):
    return [{"from": f, "to": t, "beginTime": b, "endTime": e} for f, t, b, e in items]


def resource_units(spec):
    """unit id -> (name, calendar items, cost, pool id, profile id)"""
    out = {}
    for pool in spec["pools"]:
        for r in pool["res"]:
            for i in range(r["amount"]):
                uid = "%s_%d" % (r["id"], i) if r["amount"] > 1 else r["id"]
                nm = "%s_%d" % (r["name"], i) if r["amount"] > 1 else r["name"]
                out[uid] = dict(name=nm, cal=r["cal"], cost=r["cost"], pool=pool["id"], pool_name=pool["name"],
                                prof=r["id"])
    return out


def to_json(spec, net):
    cals = sorted({r["cal"] for p in spec["pools"] for r in p["res"]})
    j = {
        "resource_profiles": [
            {"id": p["id"], "name": p["name"],
             "resource_list": [{"id": r["id"], "name": r["name"], "cost_per_hour": str(r["cost"]),
                                "amount": r["amount"], "calendar": "cal_" + r["cal"],
                                "assignedTasks": []} for r in p["res"]]} for p in spec["pools"]],
        "arrival_time_distribution": arrival_json(spec["arrival"]),
        "arrival_time_calendar": cal_json(CALS[spec["arrival_cal"]]),
        "resource_calendars": [fuzzy_json(spec, c) if spec.get("fuzzy") else
                               {"id": "cal_" + c, "name": c, "time_periods": cal_json(CALS[c])} for c in cals],
        "task_resource_distribution": [], "gateway_branching_probabilities": [],
    }
    if spec.get("fuzzy"):
        j["model_type"] = "FUZZY"
        j["granule_size"] = {"value": spec["fuzzy"]["granule"], "time_unit": spec["fuzzy"]["unit"]}
    events, batch, eattrs = [], [], []
    conds = []

    def cond_id(c):
        cid = "c%d" % (len(conds) + 1)
        conds.append({"id": cid, "rules": c})
        return cid

    for nid, n in net.nodes.items():
        sp = n["spec"]
        if n["type"] == "task":
            j["task_resource_distribution"].append({"task_id": nid, "resources": [
                dict(resource_id=r, **d_json(d)) for r, d in sp["res"]]})
            if sp.get("batch"):
                b = sp["batch"]
                batch.append({"task_id": nid, "type": b["type"],
                              "size_distrib": [{"key": str(k), "value": v} for k, v in b["size"]],
                              "duration_distrib": [{"key": str(k), "value": v} for k, v in b["dur"]],
                              "firing_rules": [[{"attribute": a, "comparison": c, "value": v} for a, c, v in r]
                                               for r in b["rules"]]})
            if sp.get("attrs"):
                eattrs.append({"event_id": nid, "attributes": [attr_json(a) for a in sp["attrs"]]})
        elif n["type"] == "event":
            events.append(dict(event_id=nid, **d_json(sp["dist"])))
        elif n.get("table"):
            g = {"gateway_id": nid, "probabilities": []}
            for b in n["table"]:
                e = {"path_id": b["flow"], "value": b["p"]}
                if b["nop"]:
                    del e["value"]
                if b["cond"] is not None:
                    e["condition_id"] = cond_id(b["cond"])
                g["probabilities"].append(e)
            j["gateway_branching_probabilities"].append(g)
    j["event_distribution"] = events
    if batch:
        j["batch_processing"] = batch
    if conds:
        j["branch_rules"] = conds
    if eattrs:
        j["event_attributes"] = eattrs
    if spec.get("case_attrs"):
        j["case_attributes"] = [attr_json(a) for a in spec["case_attrs"]]
    if spec.get("global_attrs"):
        j["global_attributes"] = [attr_json(a) for a in spec["global_attrs"]]
    if spec.get("prio"):
        j["prioritisation_rules"] = [{"priority_level": p["level"], "rules": p["rules"]} for p in spec["prio"]]
    if spec.get("limit") is not None:
        j["gateway_execution_limit"] = spec["limit"]
    return j


def attr_json(a):
    k = a["kind"]
    if k == "discrete":
        return {"name": a["name"], "type": "discrete", "values": [{"key": x, "value": p} for x, p in a["opts"]]}
    if k == "continuous":
        return {"name": a["name"], "type": "continuous", "values": d_json(a["dist"])}
    if k == "markov":
        return {"name": a["name"], "type": "discrete", "values": a["trans"]}
    if k == "expression":
        return {"name": a["name"], "type": "expression", "values": a["expr"]}
    if k == "dtree":
        return {"name": a["name"], "type": "dtree", "values": a["tree"]}
    raise ValueError(k)


def arrival_json(d):
    if d["n"] == "hist":
        return {"distribution_name": "histogram_sampling",
                "histogram_data": {"cdf": d.get("cdf") or [(i + 1) / len(d["p"]) for i in range(len(d["p"]))],
                                   "bin_midpoints": d["p"]}}
    return d_json(d)


# ------------------------------------------------------------------ whole scenarios
def rand_batch(rng, prof):
    kinds = prof.get("batch_rules", ["size"])
    kind = rng.choice(kinds)
    typ = rng.choice(["Sequential", "Parallel"])
    dur = [[1, 1.0]] if rng.random() < 0.3 else []
    for k in sorted(rng.sample(range(2, 8) if rng.random() < 0.6 else range(2, 13), rng.randint(1, 4))):
        dur.append([k, rng.choice([0.8, 0.5, 0.5, 0.25, 0.9])])
    if kind == "none":
        n = rng.sample(range(2, 5), rng.randint(1, 2))
        w = [rng.choice([0, 0.2, 0.5])]
        w += [(1 - w[0]) / len(n)] * len(n)
        return {"type": typ, "dur": dur, "rules": [], "size": [[1, w[0]]] + [[k, v] for k, v in zip(sorted(n), w[1:])]}
    alone = rng.choice([0, 0, 0.3])
    size = [[1, alone], [3, 1 - alone]]

    def size_rule():
        op = rng.choice(["=", ">=", ">", "<=", "<"])
        return ["size", op, rng.choice([2, 3, 4, 5] if op != "<" else [3, 4, 5])]

    def wt(which):
        lo = rng.choice([600, 3600, 7200, 1800])
        hi = lo * rng.choice([2, 3, 10])
        if rng.random() < 0.3:
            return [[which, "=", lo]]
        return [[which, rng.choice([">", ">="]), lo], [which, rng.choice(["<", "<="]), hi]]

    def one(kind):
        if kind == "size":
            return [size_rule()]
        if kind == "daily_hour":
            return [["daily_hour", rng.choice(["=", ">", ">=", "<", "<="]), str(rng.choice([8, 12, 15, 19]))]]
        if kind == "week_day":
            return [["week_day", "=", rng.choice(["Monday", "Tuesday", "Wednesday", "Friday", "Sunday"])]]
        if kind in ("large_wt", "ready_wt"):
            return wt(kind)
        if kind == "wd_hour":
            return one("week_day") + [["daily_hour", rng.choice(["=", ">", ">="]), str(rng.choice([8, 12, 15]))]]
        if kind == "size_wt":
            return one(rng.choice(["large_wt", "ready_wt"])) + [["size", rng.choice([">=", "="]), rng.choice([2, 3])]]
        if kind == "both_wt":
            return wt("ready_wt") + wt("large_wt")
        if kind == "hours":
            a, b = sorted(rng.sample([2, 8, 12, 15, 19], 2))
            return [["daily_hour", rng.choice([">", ">="]), str(a)], ["daily_hour", rng.choice(["<", "<="]), str(b)]]
        if kind == "wd_hours":
            return one("week_day") + one("hours")
        if kind == "sizes":
            return [["size", rng.choice([">", ">="]), rng.choice([2, 3])], ["size", rng.choice(["<", "<="]), rng.choice([4, 5])]]
        if kind == "wd_size":
            return one(rng.choice(["week_day", "daily_hour", "wd_hour", "hours", "wd_hours"])) + \
                rng.choice([[size_rule()], one("sizes")])
        raise ValueError(kind)

    if kind == "or":
        subs = [k for k in kinds if k not in ("or", "none")]
        rules = [one(rng.choice(subs)) for _ in range(2)]
    else:
        rules = [one(kind)]
    for r in rules:
        if rng.random() < 0.3:
            rng.shuffle(r)      # the order of the parts of a rule means nothing
    if alone == 0 and rng.random() < 0.3:
        size = [[3, 1]] if rng.random() < 0.8 else []
    elif rng.random() < 0.2:
        size.reverse()
    return {"type": typ, "dur": dur, "rules": rules, "size": size}


def rand_cond(rng, names):
    a = rng.choice(names)
    if a[1] == "num":
        v = rng.choice([10, 25, 50, 75, 90])
        k = rng.choice([">", ">=", "<", "<=", "in", "in"])
        if k == "in":
            v = rng.choice([[0, 50], [25, 75], [50, "inf"], [0, 100]])
            return {"attribute": a[0], "comparison": "in", "value": [str(x) for x in v]}
        return {"attribute": a[0], "comparison": k, "value": str(v)}
    v = rng.choice(a[2])
    return {"attribute": a[0], "comparison": rng.choice(["=", "=", "!="]), "value": v}


def rand_rules(rng, names):
    return [[rand_cond(rng, names) for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([1, 1, 2]))]


def rand_attr(rng, name, event=False, known=()):
    k = rng.random()
    opts = ["red", "blue", "gr\u00fcn, x"][: rng.choice([2, 3])]
    if k < 0.45:
        ps = [1 / len(opts)] * len(opts) if rng.random() < 0.3 else [0.5, 0.5] if len(opts) == 2 else [0.7, 0.2, 0.1]
        if rng.random() < 0.1:
            ps = [0] * len(opts)
            ps[rng.randrange(len(opts))] = 1
        return {"name": name, "kind": "discrete", "opts": [[o, p] for o, p in zip(opts, ps)]}
    return {"name": name, "kind": "continuous", "dist": {"n": "uniform", "p": [0, 100]}}


def rand_expr(rng, nums, cats):
    """A formula over the attributes that have a value from the first activity on (and what it may use twice)."""
    def num(d=0):
        k = rng.random()
        if d > 1 or k < 0.35:
            return rng.choice(nums)
        if k < 0.5:
            return str(rng.choice([0, 1, 2, 3, 7, 0.5, 100]))
        if k < 0.8:
            return "(%s %s %s)" % (num(d + 1), rng.choice(["+", "-", "*", "+", "-", "*", "/", "%", "//"]), num(d + 1))
        if k < 0.86:
            return "-" + num(d + 1)
        return rng.choice(["sqrt(fabs(%s))", "floor(%s)", "ceil(%s)", "fabs(%s)", "sin(%s)", "log(fabs(%s) + 1)",
                           "fix(fabs(%s))", "pow(%s, 2)"]) % num(d + 1)

    def cond(d=0):
        k = rng.random()
        if d < 2 and k < 0.25:
            return "(%s %s %s)" % (cond(d + 1), rng.choice(["and", "or"]), cond(d + 1))
        if k < 0.35:
            return "(not %s)" % cond(d + 1)
        if cats and k < 0.6:
            n, vs = rng.choice(cats)
            return "(%s %s '%s')" % (n, rng.choice(["==", "!="]), rng.choice(vs))
        return "(%s %s %s)" % (num(1), rng.choice(["<", "<=", ">", ">=", "==", "!="]), num(1))

    k = rng.random()
    if k < 0.6:
        return {"kind": "expression", "expr": num()}
    if k < 0.7:
        return {"kind": "expression", "expr": cond()}
    if k < 0.8:
        lo = rng.choice([0, 1, 10])
        return {"kind": "expression", "expr": "%s + uniform(%d, %d)" % (num(1), lo, lo + rng.choice([1, 5, 50]))}
    tree = [[[cond(1) for _ in range(rng.choice([1, 1, 2]))], num(1)] for _ in range(rng.choice([1, 2, 3]))]
    return {"kind": "dtree", "tree": tree}


def attr_range(a):
    if a["kind"] == "discrete":
        return [a["name"], "cat", [o for o, p in a["opts"]]]
    if a["kind"] == "markov":
        return [a["name"], "cat", sorted(a["trans"])]
    return [a["name"], "num"]


def gen_spec(seed, prof):
    rng = random.Random("spec:%d" % seed)
    # swarm: each feature of the profile may be switched off for this run
    prof = dict(prof)
    for k in ("xor", "and", "or", "loop", "ebg", "event", "skip", "implicit", "batch", "prio", "cattr", "eattr",
              "gattr", "cond", "race"):
        if k in prof and k not in prof.get("keep", ()) and rng.random() < prof.get("swarm", 0.35):
            prof[k] = 0
    npool = rng.choice([1, 1, 2])
    pools, rid = [], 0
    units = rng.choice(prof.get("units", [1, 2, 2, 3, 4]))
    one_cal = rand_cal(rng, prof) if rng.random() < 0.4 else None
    for p in range(npool):
        pool = {"id": "pool%d" % p, "name": "Pool %d" % p, "res": []}
        for _ in range(max(1, units // npool)):
            rid += 1
            pool["res"].append({"id": "R%d" % rid, "name": "Res %d" % rid, "amount": rng.choice(prof.get("amount", [1, 1, 1, 2])),
                                "cal": one_cal or rand_cal(rng, prof), "cost": rng.choice([0, 10, 25.5, 100])})
        pools.append(pool)
    res_ids = [r["id"] for p in pools for r in p["res"]]
    tg = TreeGen(rng, prof, res_ids)
    tree = tg.tree()
    for n in walk(tree):
        for a, b in zip(n["c"], n["c"][1:]) if n["t"] == "seq" else ():
            # branches that merge at a node which is rarely drawn for it
            if (a["t"], b["t"]) in (("or", "or"), ("xor", "event")) and rng.random() < prof.get("implicit", 0.2) * 2:
                a["imerge"] = True
    used = {r for n in walk(tree) if n["t"] == "task" for r, _ in n["res"]}
    spec = {"tree": tree, "pools": pools, "scale": tg.scale}
    # arrivals
    sc = tg.scale * rng.choice(prof.get("arr_scale", [0.2, 0.5, 1, 3]))
    spec["arrival"] = d_fix(0) if not sc else {"n": "hist", "p": [round(sc * x, 3) for x in (0.2, 0.6, 1.1, 2.5)]} if rng.random() < 0.1 \
        else d_rand(rng, sc, prof.get("zero_arr", True))
    spec["arrival_cal"] = rand_cal(rng, prof)
    start = MON + dt.timedelta(days=rng.choice([0, 0, 1, 4, 5, 6]),
                               seconds=rng.choice([0, 9 * 3600, 9 * 3600, 17 * 3600, 12 * 3600 + 1830, 43200 - 1, 86399, 61234]))
    if rng.random() < 0.2:
        start += dt.timedelta(microseconds=rng.choice([250000, 1, 999999]))
    spec["start"] = start.isoformat(timespec="microseconds" if start.microsecond or rng.random() < 0.5 else "seconds") \
        + rng.choice(["+00:00", "+00:00", "+00:00", "+03:00", "-05:30"])
    spec["cases"] = rng.choice(prof.get("cases", [1, 2, 3, 5, 8, 12]))
    spec["events_log"] = rng.random() < prof.get("events_log", 0.6)
    spec["terminate"] = rng.random() < prof.get("terminate", 0.1)
    if tree["c"][-1]["t"] == "race":
        spec["terminate"] = rng.random() < 0.8
    if rng.random() < prof.get("fixed", 0):
        # the arrival of each case is given, in seconds from the start of the simulation
        t, spec["fixed"] = rng.choice([0, 0, sc * 0.5]), []
        for _ in range(spec["cases"]):
            spec["fixed"].append(round(t, 3))
            t += rng.choice([0, sc * rng.random(), sc * 3 * rng.random(), rng.choice([1, 3600, 86400])])
        if rng.random() < 0.3:
            rng.shuffle(spec["fixed"])
    spec["xml_order"] = rng.choice([0, 0, 1, 2, 3])
    spec["stat"] = rng.random() < prof.get("stat", 0.5)
    if prof.get("fuzzy") and rng.random() < prof["fuzzy"]:
        spec["fuzzy"] = rand_fuzzy(rng, {r["cal"] for p in pools for r in p["res"]})
    # attributes
    names = []
    if rng.random() < prof.get("cattr", 0):
        spec["case_attrs"] = [rand_attr(rng, "ca%d" % i) for i in range(rng.choice([1, 2]))]
        names += [attr_range(a) for a in spec["case_attrs"]]
    if rng.random() < prof.get("gattr", 0):
        spec["global_attrs"] = [rand_attr(rng, "ga%d" % i) for i in range(rng.choice([1, 2]))]
        spec["events_log"] = True
        names += [attr_range(a) for a in spec["global_attrs"]]
        if rng.random() < 0.3:
            # the first global attribute is refreshed whenever a case begins
            a = dict(spec["global_attrs"][0])
            spec.setdefault("case_attrs", []).append(a)
    tasks = [n for n in walk(tree) if n["t"] == "task"]
    if prof.get("eattr", 0):
        for t in tasks:
            if rng.random() < prof["eattr"]:
                t["attrs"] = []
                for i in range(rng.choice([1, 1, 2])):
                    nm = "ea%d" % rng.randint(0, 2)
                    if any(a["name"] == nm for a in t["attrs"]):
                        continue
                    k = rng.random()
                    if k < 0.5:
                        t["attrs"].append(rand_attr(rng, nm + ("n" if False else ""), True))
                    elif k < 0.65:
                        t["attrs"].append({"name": "mk", "kind": "markov", "trans": {
                            "s0": {"s1": 1.0}, "s1": {"s0": 0.5, "s2": 0.5}, "s2": {"s2": 1.0}}})
                    elif k < 0.8:
                        t["attrs"].append({"name": "cnt", "kind": "expression", "expr": rng.choice(
                            ["cnt + 1", "cnt * 2 + 1", "cnt - 3", "(cnt + 5) % 7"])})
                    elif k < 0.9:
                        t["attrs"].append({"name": "dt", "kind": "dtree", "tree": [
                            [["cnt > 3"], "100"], [["cnt > 0", "cnt <= 3"], "cnt * 10"], [["cnt == 0"], "7"]]})
                    elif spec.get("global_attrs"):
                        t["attrs"].append(rand_attr(rng, spec["global_attrs"][-1]["name"], True))
                # one entry per name
                seen = {}
                for a in t["attrs"]:
                    seen.setdefault(a["name"], a)
                t["attrs"] = list(seen.values())
                if not t["attrs"]:
                    del t["attrs"]
        have = {a["name"] for t in tasks for a in t.get("attrs", [])}
        if have & {"cnt", "dt"}:
            # numbers need a start: give the first task of the tree a constant initialiser
            for t in tasks[:1]:
                al = [a for a in t.get("attrs", []) if a["name"] not in ("cnt",)]
                al.append({"name": "cnt", "kind": "continuous", "dist": d_fix(rng.choice([0, 2, 4]))})
                t["attrs"] = al
        if "mk" in have:
            t = tasks[0]
            al = [a for a in t.get("attrs", []) if a["name"] != "mk"]
            al.append({"name": "mk", "kind": "discrete", "opts": [["s0", 1.0]]})
            t["attrs"] = al
        glob = {a["name"] for a in spec.get("global_attrs", [])}
        nums = [a["name"] for a in spec.get("case_attrs", []) if a["kind"] == "continuous" and a["name"] not in glob]
        cats = [(a["name"], [o for o, _ in a["opts"]]) for a in spec.get("case_attrs", [])
                if a["kind"] == "discrete" and a["name"] not in glob]
        if any(a["name"] == "cnt" and a["kind"] == "continuous" for t in tasks[:1] for a in t.get("attrs", [])):
            nums += ["cnt", "cnt"]
        if nums and rng.random() < 0.5:
            for t in tasks:
                if rng.random() < 0.5:
                    t.setdefault("attrs", []).append(dict(rand_expr(rng, nums, cats), name="x%d" % rng.randint(0, 1)))
        consistent_types(tasks, spec)
        if rng.random() < 0.5:
            for t in tasks:
                for a in t.get("attrs", []):
                    if a["name"].startswith("ea"):
                        names.append(attr_range(a))
    if names and rng.random() < prof.get("cond", 0):
        spec["events_log"] = True
        for n in walk(tree):
            if n["t"] in ("xor", "or") and rng.random() < 0.8:
                miss = rng.random() < 0.35
                for i, b in enumerate(n["b"]):
                    b["cond"] = rand_rules(rng, names)
                if miss:
                    i = rng.randrange(len(n["b"]))
                    n["b"][i]["cond"] = None
                    n["default"] = i
                elif rng.random() < 0.4:
                    n["default"] = rng.randrange(len(n["b"]))
                fix_probs(rng, n)
    if spec.get("case_attrs") and rng.random() < prof.get("prio", 0):
        loc = [attr_range(a) for a in spec["case_attrs"] if a["name"].startswith("ca")]
        if loc:
            spec["prio"] = []
            def prio_rule():
                a = rng.choice(loc)
                if a[1] == "num":
                    lo = rng.choice([0, 20, 50])
                    hi = rng.choice([lo + 30, lo + 50, "inf"])
                    return {"attribute": a[0], "comparison": "in", "value": [str(lo), str(hi)]}
                return {"attribute": a[0], "comparison": "=", "value": rng.choice(a[2])}

            for lv in rng.sample([1, 2, 3, 5, 9, 10, 12, 100], rng.choice([1, 2, 3, 4])):
                shape = rng.choice([(1,), (1,), (1,), (2,), (1, 1), (2, 1)])
                spec["prio"].append({"level": lv, "rules": [[prio_rule() for _ in range(k)] for k in shape]})
    if prof.get("batch", 0):
        cand = [t for t in tasks]
        for t in cand:
            if rng.random() < prof["batch"]:
                t["batch"] = rand_batch(rng, prof)
    if rng.random() < prof.get("nop", 0):
        for n in walk(tree):
            if n["t"] == "xor" and rng.random() < 0.5:
                # no value for these branches: they share equally what the others leave
                out = rng.sample(n["b"], rng.choice([1, 1, 2, len(n["b"])]))
                p = sum(b["p"] for b in out) / len(out)
                if p > 0 or not any(b.get("cond") for b in n["b"]):
                    for b in out:
                        b["nop"], b["p"] = True, p
    if prof.get("limit"):
        spec["limit"] = rng.choice(prof["limit"])
    return spec


def fix_probs(rng, n):
    if any(b["p"] == 0 for b in n["b"]):
        for b in n["b"]:
            b["p"] = 1.0 / len(n["b"])


def consistent_types(tasks, spec):
    """An attribute name keeps one kind of value (number or category) across the process."""
    kind = {}
    for a in spec.get("global_attrs", []):
        kind[a["name"]] = "cat" if a["kind"] in ("discrete", "markov") else "num"
    for t in tasks:
        keep = []
        for a in t.get("attrs", []):
            k = "cat" if a["kind"] in ("discrete", "markov") else "num"
            if kind.setdefault(a["name"], k) == k:
                keep.append(a)
        if "attrs" in t:
            t["attrs"] = keep
            if not keep:
                del t["attrs"]


def write_scenario(spec, folder):
    net = compile_tree(spec)
    bpmn = os.path.join(folder, "model.bpmn")
    js = os.path.join(folder, "params.json")
    with open(bpmn, "w", encoding="utf-8") as f:
        f.write(to_xml(spec, net))
    with open(js, "w", encoding="utf-8") as f:
        json.dump(to_json(spec, net), f, ensure_ascii=not spec.get("raw_json"))
    return net, bpmn, js
