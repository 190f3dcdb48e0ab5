"""Replay one saved case, without the property-based testing library.

Usage: replay.py FILE...      (each file: {"property", "part", "case", ...})

Exits 1 if a case breaks its property, 0 if none does, and 2 if this machinery failed.
With `--json`, prints one JSON line per file.
"""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from vlib import env  # noqa: E402,F401


def main(args):
    from vlib import exec_case, load_check
    from vlib.core import HarnessError

    as_json = "--json" in args
    rc = 0
    for path in [a for a in args if a != "--json"]:
        with open(path) as f:
            d = json.load(f)
        check = load_check(d["property"])
        ctx, failure = exec_case(check, d["part"], d["case"])
        if failure is None:
            status = "ok"
        elif isinstance(failure, HarnessError):
            status, rc = "error", 2
        else:
            status, rc = "violation", (rc or 1)
        if as_json:
            print(
                "REPLAY "
                + json.dumps(
                    {
                        "file": path,
                        "status": status,
                        "message": "" if failure is None else str(failure)[:4000],
                        "nontrivial": ctx.nontrivial,
                        "compared": ctx.compared,
                    }
                ),
                flush=True,
            )
        else:
            print(f"{path}: property {d['property']}, part {d['part']}: {status}")
            if failure is not None:
                print(failure)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
