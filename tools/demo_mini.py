"""Tiny scenario builder for the demonstrations."""
import csv, json, os, shutil, sys, tempfile, datetime as dt
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())

ALWAYS = [{"from": "MONDAY", "to": "SUNDAY", "beginTime": "00:00:00", "endTime": "23:59:59.999999"}]
FULL = [{"from": "MONDAY", "to": "SUNDAY", "beginTime": "00:00:00", "endTime": "23:59:59"}]
OFFICE = [{"from": "MONDAY", "to": "FRIDAY", "beginTime": "09:00:00", "endTime": "17:00:00"}]
KINDS = {"start": "startEvent", "end": "endEvent", "task": "task", "xor": "exclusiveGateway",
         "and": "parallelGateway", "or": "inclusiveGateway", "ebg": "eventBasedGateway", "event": "intermediateCatchEvent"}


def dist(x):
    if isinstance(x, dict):
        return x
    if isinstance(x, (int, float)):
        return {"distribution_name": "fix", "distribution_params": [{"value": x}]}
    return {"distribution_name": x[0], "distribution_params": [{"value": v} for v in x[1:]]}


def cal(name, periods):
    return {"id": name, "name": name, "time_periods": periods}


class Sc:
    """nodes: {id: kind}; flows: [(id, src, dst)]; tasks: {task: {resource: duration}}"""
    def __init__(self, nodes, flows, tasks, resources=None, arrival=0, arrival_cal=None, probs=None, **extra):
        self.dir = tempfile.mkdtemp(prefix="demo-")
        self.bpmn, self.json = os.path.join(self.dir, "m.bpmn"), os.path.join(self.dir, "m.json")
        self.log, self.stat = os.path.join(self.dir, "log.csv"), os.path.join(self.dir, "stat.csv")
        terminate = extra.pop("terminate", ())
        names = extra.pop("names", {})
        defaults = extra.pop("defaults", {})
        x = ['<?xml version="1.0" encoding="UTF-8"?>',
             '<bpmn:definitions xmlns:bpmn="http://www.omg.org/spec/BPMN/20100524/MODEL" id="D" targetNamespace="x">',
             '<bpmn:process id="P" isExecutable="true">']
        for n, k in nodes.items():
            inner = ""
            if n in terminate:
                inner = "<bpmn:terminateEventDefinition id='t_%s' />" % n
            if k == "event":
                inner = "<bpmn:timerEventDefinition id='t_%s' />" % n
            d = ' default="%s"' % defaults[n] if n in defaults else ""
            x.append('<bpmn:%s id="%s" name="%s"%s>%s</bpmn:%s>' % (KINDS[k], n, names.get(n, n), d, inner, KINDS[k]))
        for f, s, t in flows:
            x.append('<bpmn:sequenceFlow id="%s" sourceRef="%s" targetRef="%s" />' % (f, s, t))
        x += ["</bpmn:process>", "</bpmn:definitions>"]
        open(self.bpmn, "w", encoding="utf-8").write("\n".join(x))
        rs = {}
        for t, m in tasks.items():
            for r in m:
                rs.setdefault(r, []).append(t)
        resources = resources or {}
        cals = [cal("full", FULL)]
        plist = []
        for r in rs:
            o = resources.get(r, {})
            cid = "full"
            if "cal" in o:
                cid = "cal_" + r
                cals.append(cal(cid, o["cal"]))
            plist.append({"id": r, "name": r, "cost_per_hour": o.get("cost", 1), "amount": o.get("amount", 1),
                          "calendar": cid, "assignedTasks": rs[r]})
        js = {"resource_profiles": [{"id": "pool", "name": "pool", "resource_list": plist}],
              "arrival_time_distribution": dist(arrival),
              "arrival_time_calendar": arrival_cal or FULL,
              "gateway_branching_probabilities": [
                  {"gateway_id": g, "probabilities": [{"path_id": p, "value": v} for p, v in ps.items()]}
                  for g, ps in (probs or {}).items()],
              "task_resource_distribution": [
                  {"task_id": t, "resources": [dict(resource_id=r, **dist(d)) for r, d in m.items()]}
                  for t, m in tasks.items()],
              "resource_calendars": cals,
              "event_distribution": [dict(event_id=e, **dist(d)) for e, d in extra.pop("events", {}).items()]}
        js.update(extra)
        json.dump(js, open(self.json, "w"))

    def run(self, cases, start="2024-03-04T09:00:00+00:00", log=True, stat=False, events=False, seed=1, **kw):
        import random
        import numpy as np
        random.seed(seed)
        np.random.seed(seed)
        from prosimos.simulation_engine import run_simulation
        self.result = run_simulation(self.bpmn, self.json, cases, stat_out_path=self.stat if stat else None,
                                     log_out_path=self.log if log else None, starting_at=start,
                                     is_event_added_to_log=events, **kw)
        return self.rows() if log else None

    def rows(self):
        with open(self.log, newline="", encoding="utf-8") as f:
            rs = list(csv.DictReader(f))
        for r in rs:
            for k in ("enable_time", "start_time", "end_time"):
                r[k] = dt.datetime.fromisoformat(r[k])
            r["case_id"] = int(r["case_id"])
        return rs

    def warnings(self):
        return open(os.path.join(self.dir, "simulation_warnings.txt"), encoding="utf-8").read()

    def done(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def seqflows(*ids):
    return [("f%d" % i, a, b) for i, (a, b) in enumerate(zip(ids, ids[1:]))]


def check(cond, msg):
    if not cond:
        print("FAIL:", msg)
        sys.exit(1)
