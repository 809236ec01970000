"""One simulated process lifetime: run prosimos on a scenario under the seam."""
import contextlib
import io
import os
import shutil
import signal
import sys
import tempfile
import traceback
from collections import Counter

from . import audit, gen, seam

HERE = os.path.dirname(os.path.abspath(__file__))


class Hang(BaseException):
    """The run used far more processor time than any scenario of its size needs."""


def _on_alarm(*_):
    raise Hang()


@contextlib.contextmanager
def cpu_limit(seconds):
    old = signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def scratch_base():
    return "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="dst-", dir=scratch_base())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def from_harness(exc):
    """Did the exception come out of the harness rather than the product?"""
    if isinstance(exc, seam.HarnessError):
        return True
    tb = traceback.extract_tb(exc.__traceback__)
    last = tb[-1].filename if tb else ""
    if not os.path.abspath(last).startswith(HERE):
        return False
    # injected failures are raised inside seam.py on purpose
    return not isinstance(exc, (OSError, MemoryError, KeyboardInterrupt, seam.StepLimit, ValueError))


def where(exc):
    """Innermost product frame: a stable label of an unexpected exception."""
    for fr in reversed(traceback.extract_tb(exc.__traceback__)):
        f = os.path.abspath(fr.filename)
        if not f.startswith(HERE):
            return "%s in %s" % (os.path.basename(f), fr.name)
    return "?"


class Run:
    """Result of one lifetime."""

    def __init__(self):
        self.error = None       # exception of the product, or None
        self.crashed = False
        self.files = {}         # name -> bytes left on disk
        self.fired = {}
        self.result = None
        self.values = []
        self.draws = 0
        self.io_counts = {}
        self.clock_reads = 0
        self.opens = []
        self.leaked = 0
        self.stdout = ""


def simulate(folder, bpmn, js, spec, tape, faults=(), outputs=("stat", "log"), clock0=None, buffer_size=None,
             fixed_arrivals=None, cases=None, starting_at="spec", flush_every=None, step_limit=400_000,
             cpu=30, outdir=None):
    """Call prosimos.simulation_engine.run_simulation once under a World."""
    import prosimos.simulation_engine as se
    r = Run()
    out = outdir or folder
    paths = {"stat": os.path.join(out, "stat.csv"), "log": os.path.join(out, "log.csv"),
             "warnings": os.path.join(out, "simulation_warnings.txt")}
    if spec.get("fuzzy"):
        step_limit *= 20        # two draws per granule
    w = seam.World(folder, tape, clock0=clock0, faults=list(faults), buffer_size=buffer_size, step_limit=step_limit)
    w.roles = {os.path.realpath(p): k for k, p in paths.items()}
    w.roles[os.path.realpath(bpmn)] = "model"
    w.roles[os.path.realpath(js)] = "params"
    kw = dict(stat_out_path=paths["stat"] if "stat" in outputs else None,
              log_out_path=paths["log"] if "log" in outputs else None,
              starting_at=spec["start"] if starting_at == "spec" else starting_at,
              is_event_added_to_log=spec["events_log"])
    if fixed_arrivals is None and len(spec.get("fixed", [])) >= (cases or spec["cases"]):
        fixed_arrivals = spec["fixed"][:cases or spec["cases"]]
    if fixed_arrivals is not None:
        kw["fixed_arrival_times"] = fixed_arrivals
    patched = None
    if flush_every and hasattr(se, "FileManager"):
        patched = se.FileManager
        se.FileManager = lambda size, *a, **k: patched(flush_every, *a, **k)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), cpu_limit(cpu):
            with w:
                r.result = se.run_simulation(bpmn, js, cases or spec["cases"], **kw)
    except seam.SimCrash:
        r.crashed = True
    except (seam.StepLimit, Hang, KeyboardInterrupt) as e:
        r.error = e
    except Exception as e:
        if from_harness(e):
            raise
        r.error = e
    finally:
        if patched is not None:
            se.FileManager = patched
    r.leaked = sum(1 for x in w.raws if not x.closed)
    for name, p in paths.items():
        if os.path.exists(p):
            with open(p, "rb") as f:
                r.files[name] = f.read()
    r.fired, r.values, r.draws = w.fired, tape.values, w.draws
    r.io_counts, r.clock_reads, r.opens = dict(w.io_counts), w.clock_reads, w.opens
    r.stdout = buf.getvalue()
    if r.crashed:
        # the process is gone; only the files survive
        reset_process()
    return r


def reset_process():
    """A new process starts with fresh module state.  Only the parts a module keeps
    between runs matter; forget the warnings the dead process had collected."""
    try:
        from prosimos.warning_logger import warning_logger
        warning_logger.clear_warnings()
    except Exception:
        pass


def parse_csv(data):
    import csv
    return list(csv.reader(io.StringIO(data.decode("utf-8"), newline="")))


def log_span(rows):
    if not rows:
        return 0.0
    return (max(r.end for r in rows) - min(r.en for r in rows)) / 1e6


__all__ = ["simulate", "scratch", "Run", "Counter", "audit", "gen", "sys"]
