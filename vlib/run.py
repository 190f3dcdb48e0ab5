"""Run the check of one property: run.py ID [quick|thorough]"""

import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")
NSHARDS = int(os.environ.get("VERIF_SHARDS", "8"))


def known_findings(pid):
    """Entries `known: property=<id> case=<file under known/> <what fails>`."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:"):
                fields = line[len("known:") :].strip().split(None, 2)
                if fields[0] == f"property={pid}" and fields[1].startswith("case="):
                    out.append((os.path.join(HERE, fields[1][5:]), fields[2]))
    return out


def child_env(seed):
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        e[k] = "1"
    e["VERIF_SEED"] = str(seed)
    return e


def replay(files, seed, timeout=300):
    """Replay files in a fresh process. Returns {file: result}."""
    if not files:
        return {}
    p = subprocess.run(
        [sys.executable, os.path.join(HERE, "vlib", "replay.py"), "--json", *files],
        env=child_env(seed),
        cwd=HERE,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
        timeout=timeout,
    )
    res = {}
    for line in p.stdout.splitlines():
        if line.startswith("REPLAY "):
            d = json.loads(line[len("REPLAY ") :])
            res[d["file"]] = d
    missing = [f for f in files if f not in res]
    if missing:
        print(p.stdout[-6000:])
        raise RuntimeError(f"Replay gave no result for {missing} (exit {p.returncode}).")
    return res


def save_replay(pid, d):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    text = json.dumps(d, indent=1, sort_keys=True)
    name = f"{pid}-{zlib.crc32(text.encode()):08x}.json"
    path = os.path.join(HERE, "replays", name)
    with open(path, "w") as f:
        f.write(text)
    return path


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    budget = float(os.environ.get("VERIF_BUDGET", "480" if tier == "quick" else "5400"))
    hard = budget + (240 if tier == "quick" else 900)

    sys.path.insert(0, HERE)
    meta = json.loads(
        subprocess.run(
            [
                sys.executable,
                "-c",
                "import sys, json; sys.path.insert(0, sys.argv[1]); from vlib import env,"
                " load_check; c = load_check(sys.argv[2]); print('META' + json.dumps("
                "{'rule': c.RULE, 'assumptions': getattr(c, 'ASSUMPTIONS', []),"
                " 'parts': list(c.PARTS)}))",
                HERE,
                pid,
            ],
            env=child_env(seed),
            stdout=subprocess.PIPE,
            text=True,
        ).stdout.split("META")[-1]
        or "null"
    )
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        rc = run(pid, tier, seed, budget, hard, meta, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    return rc


def run(pid, tier, seed, budget, hard, meta, work, t0):
    errors, violations, known_lines = [], [], []

    if meta is None:
        # The check could not even be imported. If stheno itself cannot be imported, there
        # is no answer: that is an error, not a violation.
        print(f"ERROR property={pid}: the check could not be loaded.")
        return 2

    # First the saved inputs: former failures, which must keep passing...
    saved = sorted(glob.glob(os.path.join(HERE, "regress", pid, "*.json")))
    results = replay(saved, seed)
    for f in saved:
        if results[f]["status"] == "violation":
            violations.append((json.load(open(f)), results[f]["message"]))
        elif results[f]["status"] == "error":
            errors.append(f"{f}: {results[f]['message']}")
    # ... and the listed findings.
    kf = known_findings(pid)
    kres = replay([f for f, _ in kf], seed)
    for f, what in kf:
        if kres[f]["status"] == "violation":
            line = f"KNOWN-FINDING: property={pid} {what}"
            print(line)
            known_lines.append(line)
        elif kres[f]["status"] == "error":
            errors.append(f"{f}: {kres[f]['message']}")

    shards = []
    stats = []
    if not violations and not errors:
        procs = {}
        for k in range(NSHARDS):
            log = open(os.path.join(work, f"log_{k}"), "w")
            procs[k] = subprocess.Popen(
                [
                    sys.executable,
                    os.path.join(HERE, "vlib", "shard.py"),
                    pid,
                    work,
                    str(k),
                    str(NSHARDS),
                    str(seed),
                    tier,
                    str(budget),
                ],
                env=child_env(seed),
                cwd=HERE,
                stdout=log,
                stderr=subprocess.STDOUT,
                start_new_session=True,
            )
        first_fail = None
        timed_out = False
        while any(p.poll() is None for p in procs.values()):
            time.sleep(0.2)
            if first_fail is None and glob.glob(os.path.join(work, "fail_*.json")):
                first_fail = time.time()
            if first_fail is not None:
                failing = [
                    k for k in procs if os.path.exists(os.path.join(work, f"fail_{k}.json"))
                ]
                # A failure was found: allow for shrinking, and then stop everything.
                if time.time() - first_fail > 75 or all(
                    procs[k].poll() is not None for k in failing
                ):
                    break
            if time.time() - t0 > hard:
                timed_out = True
                break
        died = []
        for k, p in procs.items():
            alive = p.poll() is None
            if alive:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            f = os.path.join(work, f"shard_{k}.json")
            if os.path.exists(f):
                stats.append(json.load(open(f)))
            elif not alive:
                died.append(k)
            shards.append(k)
        fails = []
        for f in sorted(glob.glob(os.path.join(work, "fail_*.json"))):
            fails.append(json.load(open(f)))
        fails.sort(key=lambda d: len(json.dumps(d["case"])))
        if fails:
            # Confirm in a fresh process, which never saw the generators.
            confirmed = None
            files = []
            for i, d in enumerate(fails):
                files.append(os.path.join(work, f"confirm_{i}.json"))
                json.dump(d, open(files[-1], "w"))
            res = replay(files, seed)
            for d, f in zip(fails, files):
                if res[f]["status"] == "violation":
                    confirmed = (d, res[f]["message"])
                    break
            if confirmed is None:
                d = dict(fails[0])
                d["note"] = "Seen during the search; did not repeat in a fresh process."
                confirmed = (d, d["message"])
            violations.append(confirmed)
        for s in stats:
            if s["error"]:
                errors.append(s["error"])
        if not fails:
            for k in died:
                log = open(os.path.join(work, f"log_{k}")).read()[-3000:]
                errors.append(f"Shard {k} died (exit {procs[k].returncode}).\n{log}")
        if timed_out and not fails:
            errors.append("Some workers hung: the hard time limit passed.")
    # ------------------------------------------------------------------------------
    hashes = set()
    labels, parts, samples = {}, {}, []
    evaluations = len(saved) + len(kf)
    for s in stats:
        evaluations += s["evaluations"]
        hashes.update(s["hashes"])
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in s["parts"].items():
            d = parts.setdefault(k, {"evaluations": 0, "nontrivial": 0})
            for kk in d:
                d[kk] += v[kk]
        for sample in s["samples"]:
            if sum(x["part"] == sample["part"] for x in samples) < 2:
                samples.append(sample)
    if not samples and violations:
        samples = [{"part": violations[0][0]["part"], "case": violations[0][0]["case"]}]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": meta["rule"],
            "samples": samples,
            "comparisons": sum(s["compared"] for s in stats),
            "parts": parts,
            "classes": dict(sorted(labels.items())),
            "skipped_for_time": sum(s["skipped"] for s in stats),
            "regression_cases": len(saved),
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if known_lines:
        evidence["coverage"]["known_findings"] = known_lines
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", f"{pid}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)

    print(
        f"{pid} {tier} seed={seed}: {evaluations} cases, {len(hashes)} distinct and "
        f"non-trivial, {evidence['coverage']['comparisons']} comparisons, "
        f"{evidence['wall_s']} s"
    )
    if violations:
        for d, msg in violations[:3]:
            d = dict(d, message=msg)
            out = save_replay(pid, d)
            print(f"part {d['part']}: {msg[:2500]}")
            print(f"VIOLATION property={pid} replay={out}")
        return 1
    if errors:
        for e in errors[:3]:
            print(f"ERROR property={pid}: {e[:4000]}")
        return 2
    if len(hashes) == 0:
        print(f"ERROR property={pid}: nothing non-trivial was explored.")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
