"""Texts that go into the evidence."""
DEFAULT_RULE = ("each run is one generated scenario (process model, resources, calendars, parameters) simulated end to "
                "end under one seed; non-trivial = at least two work items were recorded and the order of "
                "(case, activity, resource) differs from every other run of this check")
DEFAULT_MEASURE = "distinct sequences of (case, activity, resource) in the recorded history"
RULES = {"C22": ("each run simulates one generated process, discovers its parameters from the log (with failing files, clock jumps) and "
                 "simulates those; non-trivial = discovery succeeded and its parameters were simulated, with a log that differs "
                 "from every other run"),
         "C24": ("each run simulates two histories of one generated process, rewrites their logs (order, time zone, columns) and reads, "
                 "replays and compares them (with failing and short reads); non-trivial = the first log, of at least three rows, was "
                 "read and differs from that of every other run")}
MEASURE = {}
REAL = ["prosimos: scenario parsing, event queue, resource queue, control-flow state, batching, attributes, statistics, "
        "log writing (all unmodified, imported from /repo)", "pix_framework calendars and distributions", "numpy, scipy"]
STUB = ["random/secrets/uuid/os.urandom/numpy draws answered by the seeded tape",
        "wall clock replaced by a simulated clock", "raw file writes of the outputs go through a simulated disk"]
ASSUME = ["the generator's scenarios are valid inputs", "times compared with a tolerance of 5 microseconds, the rounding "
          "of float seconds in the log", "a check explores seeds; it does not prove absence"]
