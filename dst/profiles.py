"""Scenario profiles: which features a family of runs mixes (each run then switches some off again)."""
RULES = ["size", "size", "none", "large_wt", "ready_wt", "size_wt", "week_day", "daily_hour", "wd_hour", "wd_size", "or",
         "hours", "wd_hours", "sizes"]

P = {
    "base": dict(nop=0.2, fixed=0.12, xor=2, **{"and": 2, "or": 1}, loop=1, ebg=1, seq=1, event=0.2, skip=0.3),
    "busy": dict(fixed=0.12, xor=1, **{"and": 2}, loop=0.5, seq=1, event=0.1, units=[1, 2, 2, 3], arr_scale=[0, 0.05, 0.2],
                 cases=[5, 8, 12, 16], zero=True, same_dist=True),
    "cal": dict(xor=1, **{"and": 1}, seq=1, full_cal=0.05, scales=[1800, 3600, 7200, 20000, 60000], cases=[2, 3, 5],
                arr_scale=[0.5, 1, 3]),
    "flow": dict(nop=0.2, xor=2, **{"and": 3, "or": 3}, loop=2, ebg=1, seq=1, event=0.3, skip=0.4, depth=3, len=[1, 1, 2],
                 cases=[1, 2, 3, 5], implicit=0.35, tail=0.5, silent=0.15),
    "one": dict(nop=0.2, fixed=0.12, xor=2, **{"and": 2, "or": 2}, loop=2, ebg=1, seq=1, event=0.3, skip=0.4, depth=3, len=[1, 1, 2],
                cases=[1], implicit=0.3, tail=0.3),
    "attr": dict(fixed=0.12, xor=2, **{"and": 1, "or": 1}, loop=0.5, seq=1, event=0.2, cattr=1, eattr=0.5, gattr=0.5, cond=0.7,
                 prio=0.7, skip=0.3, depth=2),
    "cond": dict(nop=0.2, xor=3, **{"or": 3}, seq=1, cattr=1, eattr=0.4, gattr=0.3, cond=1, skip=0.4, depth=2, len=[1, 2],
                 first_task=1, swarm=0.15, keep=["cond", "cattr"], cases=[3, 5, 8, 12]),
    "freq": dict(nop=0.2, xor=3, **{"or": 3}, loop=1, depth=1, len=[1, 2, 2], first_task=1, cattr=0.6, cond=0.6, skip=0.4, full_cal=1,
                 arr_scale=[1, 3], keep=["xor", "or"], cases=[10], loop_p=[0.1, 0.3, 0.5]),
    "disc": dict(xor=3, **{"and": 1}, loop=1, seq=1, event=0, skip=0.3, depth=2, cases=[8, 20, 40], full_cal=0.5,
                 arr_scale=[0.2, 0.5, 1, 3], implicit=0.2, first_task=1),
    "nest": dict(xor=2, **{"and": 3}, loop=0.7, seq=1, event=0, skip=0.4, depth=3, len=[1, 1, 2], cases=[3, 6, 12], full_cal=0.5,
                 arr_scale=[0.2, 0.5, 1, 3], implicit=0.2, first_task=1),
    "prio": dict(fixed=0.12, xor=1, **{"and": 1}, seq=1, event=0.15, cattr=1, prio=1, units=[1, 1, 2], arr_scale=[0, 0.05, 0.2],
                 cases=[5, 8, 12], keep=["cattr", "prio"], zero=True),
    "term": dict(xor=1, **{"and": 1}, race=1, terminate=0.8, event=0.2, first_task=1, depth=1, keep=["race"], instant=0.35),
    "limit": dict(xor=1, loop=4, seq=1, limit=[2, 3, 5], loop_p=[0.5, 0.8, 1.0], first_task=1, silent=0.2),
    "limit2": dict(nop=0.2, xor=1, **{"and": 1}, loop=3, ebg=0.5, seq=1, event=0.2, limit=[1, 2, 3, 8], loop_p=[0.3, 0.5, 0.8],
                   depth=3, implicit=0.3, cases=[1, 3, 8, 20], arr_scale=[0, 0.05, 0.5, 3]),
    "event": dict(xor=1, **{"and": 1}, ebg=3, seq=1, event=0.5, depth=2, events_log=0.8),
    "stat": dict(fixed=0.12, xor=1, **{"and": 2, "or": 1}, loop=1, seq=1, event=0, stat=1, full_cal=0.2,
                 scales=[60, 1800, 7200, 20000, 60000], terminate=0.1),
    "statev": dict(fixed=0.12, xor=1, **{"and": 2}, ebg=1, seq=1, event=0.4, stat=1, events_log=0.9, full_cal=0.2, zero=True),
    "arrive": dict(fixed=0.3, xor=0.5, seq=1, len=[1, 1, 2], depth=1, first_task=1, cases=[3, 5, 12, 20], full_cal=0.15,
                   arr_scale=[0, 0.2, 0.5, 1, 3, 10, 40]),
    "batch": dict(fixed=0.12, xor=1, **{"and": 1}, seq=1, loop=0.3, batch=0.6, batch_rules=RULES, cases=[3, 6, 10], keep=["batch"]),
    "batchwt": dict(fixed=0.12, xor=0.5, **{"and": 1}, seq=1, batch=0.9, batch_rules=["size", "large_wt", "ready_wt", "size_wt"],
                    cases=[4, 8, 12], arr_scale=[0.2, 0.5, 1, 3, 10, 40], depth=2, keep=["batch"]),
    "batchmix": dict(fixed=0.12, xor=1, **{"and": 1, "or": 0.5}, ebg=0.3, seq=1, loop=0.5, batch=0.6, batch_rules=RULES, cases=[2, 4, 8],
                     cattr=0.6, eattr=0.5, gattr=0.4, cond=0.5, prio=0.5, limit=[2, 5, 50], stat=1, event=0.2, keep=["batch"]),
    "batchterm": dict(xor=1, **{"and": 1}, race=1, terminate=0.6, event=0.2, first_task=1, depth=1, batch=0.6,
                      batch_rules=RULES, cases=[2, 4, 8], keep=["race", "batch"]),
    "mix": dict(fixed=0.12, xor=2, **{"and": 1.5, "or": 1.5}, loop=1, ebg=0.7, seq=1, event=0.3, stat=1, cattr=0.6, eattr=0.4, gattr=0.3,
                cond=0.6, prio=0.5, limit=[2, 5, 50], implicit=0.3, cases=[1, 2, 4, 8], terminate=0.1, batch=0.25,
                batch_rules=RULES, fuzzy=0.15),
    "io": dict(fixed=0.12, xor=1, **{"and": 1, "or": 0.5}, loop=0.7, seq=1, event=0.2, stat=1, cattr=0.5, eattr=0.3, cases=[1, 2, 3, 6],
               depth=1, limit=[2, 50], loop_p=[0.3, 0.6], batch=0.2, batch_rules=RULES),
    "fuzzy": dict(fixed=0.12, xor=1, **{"and": 1}, loop=0.5, seq=1, event=0.1, fuzzy=1, stat=1, full_cal=0.2,
                  scales=[60, 1800, 3600, 7200, 20000], cases=[2, 3, 5, 8], arr_scale=[0, 0.05, 0.5, 1, 3],
                  units=[1, 1, 2, 3], same_dist=True, keep=["fuzzy"]),
    "fuzzyb": dict(xor=1, **{"and": 1}, seq=1, event=0.1, fuzzy=1, stat=1, batch=0.6, batch_rules=RULES, full_cal=0.2,
                   scales=[60, 1800, 3600, 7200, 20000], cases=[2, 3, 5, 8], keep=["fuzzy", "batch"]),
    "big": dict(xor=1, **{"and": 1}, seq=1, event=0, stat=1, depth=1, len=[2, 3], first_task=1, cattr=0.5, full_cal=0.6,
                arr_scale=[0.2, 1]),
}
