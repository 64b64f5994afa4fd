"""
Replay on the real code: run under /opt/venv/bin/python (the interpreter the
repository is installed in).  Usage: replay.py FILE.json
FILE: {"property","module","harness","params","model","label"} or a list of
such cases with "observed" (used to validate the encoding).
Exit status: 1 when a case violates its property, 0 when none does.
"""

import importlib
import json
import os
import sys
import traceback
import types

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("SX_REPO_SRC", "/repo/src"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)


def harness_fault(e):
    """the harness asked for a name the code does not have: no verdict about the code"""
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    if not os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(HERE + os.sep):
        return False
    if isinstance(e, AttributeError):
        return isinstance(e.obj, types.ModuleType) or (type(e.obj).__module__ or "").split(".")[0] in ("sx", "oracle")
    return isinstance(e, (NameError, ImportError)) or str(e).startswith("no value for field ")


def run_case(case):
    from sx.ir import Assignment
    from sx.cx import ConcreteCx, CheckFailed, ReplayEnd, observe_concrete
    asg = Assignment.from_json(case["model"])
    mod = importlib.import_module(case["module"])
    cx = ConcreteCx(asg)
    out = {"status": "ok", "label": None}
    try:
        getattr(mod, case["harness"])(cx, **case["params"])
    except CheckFailed as e:
        out = {"status": "violation", "label": cx.failed[-1], "detail": str(e)[:1000]}
    except ReplayEnd as e:
        out = {"status": "rejected", "label": None, "detail": str(e)}
    except MemoryError as e:
        out = {"status": "rejected", "label": None, "detail": "memory"}
    except Exception as e:  # noqa: BLE001
        out = {"status": "error" if harness_fault(e) else "exception", "label": "unexpected " + type(e).__name__,
               "detail": "".join(traceback.format_exception(e)[-6:])[-3000:]}
    finally:
        cx.stubs.undo()
    out["observed"] = [(n, observe_concrete(v)) for n, v in cx.observed]
    return out


def main():
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    with open(sys.argv[1]) as f:
        data = json.load(f)
    single = isinstance(data, dict)
    res = [run_case(c) for c in ([data] if single else data)]
    if len(sys.argv) > 2:
        with open(sys.argv[2], "w") as f:
            json.dump(res, f)
    else:
        for c, r in zip([data] if single else data, res):
            print(c.get("property"), c["harness"], c["params"], "->", r["status"], r["label"] or "", r.get("detail", ""))
            for n, v in r["observed"]:
                print("   ", n, "=", v)
    bad = any(r["status"] in ("violation", "exception") for r in res)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
