"""Executes cases of one property against the code in /repo.

  worker.py PROP MODE CASES.json OUT.ndjson

Every case is a JSON object of integers/strings; every output line is
{"id":.., "mode":.., "kind":.., "in":{..}, "out":{..}, "err":".."} in
integers/strings only, ready to be read by TLC.  A line {"start": id} is
written before each case so that a crash can be attributed to a case.
"""
import json
import os
import resource
import sys
import traceback
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    # code that asks for absurd amounts of memory fails early
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    prop, mode, cases_file, out_file = sys.argv[1:5]
    if mode == "interp":
        sys.path.insert(0, HERE)
        import interp  # noqa: F401
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.environ.get("AFRICANUS_ROOT", "/repo"))
    import numpy as np
    np.seterr(all="ignore")
    import importlib
    import tile
    import beside
    mod = importlib.import_module("props." + prop.lower())
    cases = json.load(open(cases_file))
    with open(out_file, "w") as out:
        for case in cases:
            out.write(json.dumps({"start": case["id"]}) + "\n")
            out.flush()
            err, tb, res = "", "", {}
            try:
                res = beside.execute(mod.execute, case, mode) \
                    if case.get("mates") else \
                    tile.execute(mod.execute, case, mode)
            except BaseException as e:  # noqa: B902
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                err = type(e).__name__
                tb = traceback.format_exc()[-1500:]
            out.write(json.dumps({"id": case["id"], "mode": mode,
                                  "out": res, "err": err, "tb": tb}) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
