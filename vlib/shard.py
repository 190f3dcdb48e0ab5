"""One worker of a check: drives the generators of a property with Hypothesis.

Usage: shard.py ID OUT_DIR SHARD NSHARDS SEED TIER BUDGET

Writes OUT_DIR/shard_K.json when done and OUT_DIR/fail_K.json (rewritten with ever smaller
cases) as soon as a case breaks the property.
"""

import json
import os
import sys
import time
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from vlib import env  # noqa: E402,F401  (sets up paths)


def main():
    pid, out, k, n, seed, tier, budget = sys.argv[1:]
    k, n, seed, budget = int(k), int(n), int(seed), float(budget)
    t_start = time.time()

    import hypothesis as hyp
    from hypothesis import HealthCheck, Phase

    from vlib import exec_case, load_check
    from vlib.core import HarnessError, Violation

    check = load_check(pid)
    res = {
        "evaluations": 0,
        "compared": 0,
        "hashes": [],
        "labels": {},
        "samples": [],
        "parts": {},
        "error": None,
        "failed": False,
        "skipped": 0,
    }
    hashes = set()
    best = {"size": None}
    fail_file = os.path.join(out, f"fail_{k}.json")

    def record_failure(part, case, msg):
        text = json.dumps(case, sort_keys=True)
        res["failed"] = True
        if best["size"] is None or len(text) < best["size"]:
            best["size"] = len(text)
            tmp = fail_file + ".tmp"
            with open(tmp, "w") as f:
                json.dump({"property": pid, "part": part, "case": case, "message": msg}, f)
            os.replace(tmp, fail_file)

    def run_part(part, spec):
        # Hypothesis sometimes takes a generator for inconsistent and gives up. Then the
        # rest of the cases are generated anew.
        for attempt in range(5):
            if not attempt_part(part, spec, attempt):
                return
        res["error"] = f"part {part}: Hypothesis gave up {attempt + 1} times."

    def attempt_part(part, spec, attempt):
        """Returns whether Hypothesis gave up before all cases were generated."""
        total = spec[tier if tier in spec else "quick"]
        if tier == "thorough" and "thorough" not in spec:
            total = spec["quick"] * 12
        share = total // n + (1 if k < total % n else 0)
        share -= res["parts"].get(part, {}).get("evaluations", 0)
        if share <= 0:
            return
        stats = res["parts"].setdefault(part, {"evaluations": 0, "nontrivial": 0})

        def body(case):
            # Once the time is up, generate no more work: what was covered is reported.
            if time.time() - t_start > budget and not res["failed"]:
                res["skipped"] += 1
                return
            ctx, failure = exec_case(check, part, case)
            if isinstance(failure, HarnessError):
                res["error"] = f"part {part}, case {json.dumps(case)}:\n{failure}"
                raise failure
            if not res["failed"]:
                res["evaluations"] += 1
                stats["evaluations"] += 1
                res["compared"] += ctx.compared
                for name, c in ctx.labels.items():
                    key = f"{part}: {name}"
                    res["labels"][key] = res["labels"].get(key, 0) + 1
                if ctx.nontrivial:
                    text = json.dumps(case, sort_keys=True)
                    h = zlib.crc32(text.encode()) | (len(text) << 32)
                    if (part, h) not in hashes:
                        hashes.add((part, h))
                        stats["nontrivial"] += 1
                        if stats["nontrivial"] in (1, 20):
                            res["samples"].append({"part": part, "case": case})
            if failure is not None:
                record_failure(part, case, str(failure))
                raise failure

        test = hyp.given(spec["strategy"]())(body)
        test = hyp.settings(
            max_examples=share,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large],
            phases=[Phase.generate, Phase.shrink],
        )(test)
        test = hyp.seed(
            (seed * 1000003 + k * 7919 + attempt * 613 + zlib.crc32(part.encode()))
            % (1 << 63)
        )(test)
        try:
            test()
        except Violation:
            return
        except HarnessError:
            return
        except hyp.errors.FlakyStrategyDefinition:
            return not res["failed"] and not res["error"]
        except Exception as e:
            # Hypothesis itself (say, a failure that does not repeat within the process)
            # or the generators.
            if not res["failed"]:
                import traceback

                res["error"] = f"part {part}: {traceback.format_exc()[-3000:]}"
            else:
                res["note"] = f"{type(e).__name__}: {e!s:.500}"

    for part, spec in check.PARTS.items():
        run_part(part, spec)
        if res["failed"] or res["error"]:
            break

    res["hashes"] = sorted(f"{p}:{h:x}" for p, h in hashes)
    res["wall"] = time.time() - t_start
    tmp = os.path.join(out, f"shard_{k}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.replace(tmp, os.path.join(out, f"shard_{k}.json"))


if __name__ == "__main__":
    main()
