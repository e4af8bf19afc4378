#!/usr/bin/env python3
"""Runs a harness concretely against the real package.  Run with the project's interpreter (/opt/venv/bin/python).
  replay_worker.py --serve          JSON requests on stdin, JSON answers on stdout
  replay_worker.py FILE.json        replay one recorded counterexample; exit 1 if the property is violated"""
import importlib
import io
import json
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")


def run(req):
    import numpy
    import allantools
    from vt.ctx import ConcCtx, AssumeFailed
    mod = importlib.import_module("vt.props." + req["mod"])
    ctx = ConcCtx(allantools, req["env"], req.get("rand"), req.get("style"))
    out = {}
    try:
        with warnings.catch_warnings(), numpy.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            getattr(mod, req["h"])(ctx, **req["params"])
    except AssumeFailed:
        out["assume_failed"] = True
    except Exception as e:
        import traceback
        ctx.fails.append(("harness: %s: %s" % (type(e).__name__, str(e)[:200]), None, None))
        out["tb"] = traceback.format_exc()[-1500:]
    finally:
        ctx.close_all()
    out["fails"] = [[l, repr(a), repr(b)] for l, a, b in ctx.fails[:10]]
    vals = {}
    for k, v in ctx.values.items():
        try:
            vals[k] = float(v)
        except (TypeError, ValueError):
            pass
    out["values"] = vals
    out["used"] = ctx.used
    return out


def main():
    real = sys.stdout
    if sys.argv[1] == "--serve":
        sys.stdout = io.StringIO()
        for line in sys.stdin:
            sys.stdout = io.StringIO()
            try:
                r = run(json.loads(line))
            except BaseException as e:
                r = {"error": "%s: %s" % (type(e).__name__, e)}
            real.write(json.dumps(r) + "\n")
            real.flush()
        return 0
    req = json.load(open(sys.argv[1]))
    sys.stdout = io.StringIO()
    r = run(req)
    sys.stdout = real
    print("property %s, harness %s, parameters %s" % (req["property"], req["h"], req["params"]))
    print("inputs: %s" % json.dumps(req["env"]))
    if r.get("assume_failed"):
        print("the inputs do not satisfy the property's precondition")
        return 0
    for l, a, b in r["fails"]:
        print("VIOLATED %s: got %s, expected %s" % (l, a, b))
    if not r["fails"]:
        print("holds on this input")
    return 1 if r["fails"] else 0


if __name__ == "__main__":
    sys.exit(main())
