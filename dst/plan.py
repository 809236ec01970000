"""Which episodes decide which property, and what the evidence says about them."""

SIM = "seeded deterministic simulation of whole runs; recorded history replayed against a reference model"

# property -> list of (kind, profile, quick runs, thorough runs)
PLAN = {
    "C01": [("sim", "flow", 4680, 60000), ("sim", "one", 4680, 60000), ("sim", "busy", 1440, 20000),
            ("sim", "attr", 1080, 15000)],
    "C02": [("sim", "flow", 8100, 120000), ("sim", "base", 3240, 40000), ("sim", "term", 720, 8000),
            ("sim", "batchmix", 2700, 30000)],
    "C03": [("sim", "flow", 4500, 60000), ("sim", "base", 3600, 50000), ("sim", "cal", 2160, 30000),
            ("sim", "batch", 3000, 40000), ("sim", "batchmix", 3000, 30000)],
    "C04": [("sim", "busy", 5760, 80000), ("sim", "base", 3240, 40000), ("sim", "cal", 1440, 20000),
            ("sim", "batch", 3600, 40000)],
    "C05": [("sim", "cal", 10800, 150000), ("sim", "base", 2160, 30000), ("sim", "batchmix", 2700, 30000), ("draws", "draws", 150, 4500)],
    "C06": [("sim", "busy", 6300, 80000), ("sim", "cal", 3600, 50000), ("sim", "prio", 1440, 20000),
            ("sim", "batchmix", 2700, 30000)],
    "C07": [("sim", "prio", 9000, 100000), ("sim", "busy", 2160, 30000), ("sim", "batchmix", 2700, 30000)],
    "C08": [("sim", "batch", 6000, 150000), ("sim", "batchterm", 3000, 60000), ("sim", "batchmix", 4000, 80000)],
    "C09": [("sim", "batchwt", 7000, 150000), ("sim", "batch", 6000, 120000)],
    "C19": [("sim", "batchwt", 9000, 200000), ("sim", "batch", 6000, 120000), ("sim", "batchterm", 2500, 40000), ("draws", "draws", 250, 7500)],
    "C10": [("sim", "attr", 9000, 120000), ("sim", "cond", 1440, 20000), ("sim", "batchmix", 2700, 30000), ("draws", "draws", 250, 7500)],
    "C11": [("sim", "cond", 9000, 120000), ("sim", "flow", 1800, 20000), ("freq", "freq", 400, 6000)],
    "C12": [("sim", "limit", 5400, 80000), ("sim", "limit2", 5400, 80000)],
    "C13": [("sim", "arrive", 12600, 150000), ("sim", "cal", 1440, 20000), ("draws", "draws", 200, 6000)],
    "C14": [("sim", "event", 11700, 150000), ("draws", "draws", 200, 6000)],
    "C16": [("sim", "stat", 7200, 100000), ("sim", "statev", 2700, 30000), ("sim", "batchmix", 2700, 30000)],
    "C15": [("sim", "term", 9000, 150000), ("sim", "batchterm", 5000, 60000)],
    "C18": [("iso", "mix", 1500, 40000), ("hash", "mix", 48, 1500)],
    "C21": [("sim", "fuzzy", 7000, 150000), ("sim", "fuzzyb", 3000, 60000)],
    "C22": [("disc", "disc", 1000, 20000), ("disc", "nest", 900, 15000)],
    "C23": [("sim", "cond", 4000, 60000), ("sim", "flow", 3000, 40000), ("sim", "limit2", 2000, 30000), ("sim", "mix", 2000, 30000)],
    "C24": [("cmp", "disc", 800, 15000), ("cmp", "nest", 1200, 15000), ("cmp", "mix", 600, 10000), ("cmp", "flow", 600, 10000), ("cmp", "term", 300, 5000)],
    "C25": [("bad", "mix", 9000, 120000), ("bad", "attr", 6000, 80000), ("bad", "batch", 6000, 80000)],
    "C26": [("form", "mix", 1500, 20000), ("form", "attr", 1000, 12000), ("form", "flow", 1000, 12000), ("form", "batchmix", 800, 10000),
            ("form", "cal", 600, 10000), ("form", "fuzzy", 500, 8000), ("form", "stat", 400, 6000)],
    "C17": [("io", "io", 3000, 60000), ("big", "big", 8, 60)],
}
