#!/opt/venv/bin/python
"""check.py <property> [quick|thorough]   |   check.py replay <file>"""
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo"), HERE]
    os.environ.setdefault("MPLBACKEND", "Agg")
    from dst import runner
    try:
        import prosimos.simulation_engine  # noqa: F401
        import prosimos.simulation_stats  # noqa: F401
    except ImportError:
        pass
    cmd = sys.argv[1]
    if cmd == "replay":
        return runner.replay(sys.argv[2])
    if cmd == "selftest":
        return runner.selftest()
    if cmd == "digests":
        import json
        print(json.dumps(runner.sample_digests(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))))
        return 0
    if cmd == "worker":
        from dst import isolation
        return isolation.worker()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    return runner.check(cmd, tier, int(os.environ.get("VERIF_SEED", "1")), scale=scale)


if __name__ == "__main__":
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        os.environ.setdefault(v, "1")
    if sys.argv[1:2] != ["worker"]:
        os.environ["TZ"] = "UTC"
    if os.environ.get("PYTHONHASHSEED") is None:
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.environ["PYTHONUTF8"] = "1"
        os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)
    sys.exit(main())
