"""Replay a counterexample on the unmodified code: exit 1 and a JSON report when the property fails."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(path):
    d = json.load(open(path))
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(os.environ.get("ACLTK_REPO", "/repo"), "lib"))
    sys.path.append("/opt/venv/lib/python3.12/site-packages")
    import logging
    logging.disable(logging.CRITICAL)
    from symex.harness import PlainH, Rejected
    mod = importlib.import_module("props." + d["property"].lower())
    fn = mod.unit_fn(d["unit"])
    h = PlainH(d["inputs"])
    out = sys.stdout
    sys.stdout = sys.stderr
    exc = None
    try:
        fn(h)
    except Rejected:
        pass
    except Exception as e:
        exc = e
        import traceback
        traceback.print_exc()
    sys.stdout = out
    fails = list(h.failures)
    if exc is not None:
        fails.append({"label": f"exception {type(exc).__name__}: {str(exc)[:300]}", "key": f"exception {type(exc).__name__}",
                      "info": {}})
    print(json.dumps({"failures": fails, "checks": h.nchecks, "assumed": h.assumed}, indent=1))
    return 1 if fails else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
