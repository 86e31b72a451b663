"""Concrete execution of harnesses on the unpatched code.

usage: concrete.py one <replay.json>      exit 1 if the violation reproduces
       concrete.py batch <in.json> <out>  run many input sets
"""

from __future__ import annotations

import contextvars
import importlib
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO_SRC = os.environ.get("SYMEX_REPO_SRC", "/repo/src")
sys.path.insert(0, REPO_SRC)

from symex.ctx import AssumptionFailed, CheckFailed, ConcreteCtx  # noqa: E402


class Hang(BaseException):
    pass


def jsonable(v):
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        return float(v)
    return repr(v)


def run_one(prop, fn, params, inputs, limit=20.0):
    mod = importlib.import_module("harness." + prop.lower())
    ctx = ConcreteCtx(inputs)
    out = {"status": "ok", "detail": ""}
    hung = [False]

    def on_alarm(s, f):
        hung[0] = True
        raise Hang()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit, 1.0)
    try:
        contextvars.copy_context().run(getattr(mod, fn), ctx, **params)
    except AssumptionFailed as e:
        out = {"status": "assumption", "detail": str(e)}
    except CheckFailed as e:
        out = {"status": "failed", "detail": str(e)}
    except Hang:
        out = {"status": "hang", "detail": "no end within the time limit"}
    except Exception as e:  # noqa: BLE001
        tb = traceback.format_exc().splitlines()
        out = {"status": "exception", "detail": f"{type(e).__name__}: {e}", "tb": tb[-12:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if hung[0]:
        out = {"status": "hang", "detail": "no end within the time limit"}
    elif ctx.failed:
        out = {"status": "failed", "detail": ctx.failed[0]}
    out["log"] = [(k, n, jsonable(v)) for k, n, v in ctx.log]
    out["reached"] = ctx.reached
    return out


def main():
    mode = sys.argv[1]
    if mode == "one":
        d = json.load(open(sys.argv[2]))
        out = run_one(d["property"], d["fn"], d["params"], d["inputs"])
        out.pop("log")
        print(json.dumps(out))
        sys.exit(1 if out["status"] in ("failed", "exception", "hang") else 0)
    d = json.load(open(sys.argv[2]))
    res = []
    for item in d["items"]:
        res.append(run_one(d["property"], item["fn"], item["params"], item["inputs"]))
    json.dump(res, open(sys.argv[3], "w"))


if __name__ == "__main__":
    main()
