"""Runs one property: generated cases in parallel workers, verdict, replay file, evidence file."""
import argparse
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_NPROC") or max(1, min(8, os.cpu_count() or 1)))
OUT = os.environ.get("VERIF_OUT") or HERE  # mutation analysis writes evidence and replays elsewhere
FAST = bool(os.environ.get("VERIF_NOSHRINK"))  # mutation analysis only wants the verdict
SOFT = {"quick": 300.0, "thorough": 2400.0}  # seconds after which further cases are skipped (inconclusive, not a failure)
SHRINK = 45.0  # seconds a worker may spend shrinking one failure
HANG = 150.0  # seconds after which a single case (normally well below 5 s) counts as never returning


def plain_sampling():
    """Hypothesis spends up to five of six cases on small mutations of the previous case, which suits structured text
    but wastes numeric cases: sample afresh each time instead (shrinking is unaffected)."""
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner

        if hasattr(ConjectureRunner, "generate_mutations_from"):
            ConjectureRunner.generate_mutations_from = lambda self, data: None
    except ImportError:
        pass


def load(pid):
    return importlib.import_module(f"checks.{pid.lower()}")


def jlo(s):
    return json.loads(s)


def run_case(part, case):
    """-> ("ok", nontrivial, labels) | ("violation", msg) | raises HarnessError"""
    from vlib.core import HarnessError, Violation
    import numpy as np

    st = (random.getstate(), np.random.get_state())
    random.seed(12345)
    np.random.seed(12345)
    def late(signum, frame):
        raise Violation(f"no result within {HANG:.0f} s")

    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, HANG, 5.0)
    try:
        nt, labels = part.check(case)
        return ("ok", bool(nt), labels)
    except HarnessError:
        raise
    except (MemoryError, KeyboardInterrupt):
        raise
    except Violation as e:
        return ("violation", str(e))
    except Exception as e:  # anything else the code (or its malformed output) provoked
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.relpath(f.filename, '/')}:{f.lineno} in {f.name}" for f in reversed(tb) if "simcats" in f.filename and "/verif" not in f.filename), None)
        here = next((f"{f.filename}:{f.lineno}" for f in reversed(tb)), "?")
        return ("violation", f"unexpected {type(e).__name__}: {str(e)[:300]} raised in {where or here}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0.0)
        signal.signal(signal.SIGALRM, old)
        random.setstate(st[0])
        np.random.set_state(st[1])


def worker(pid, tier, seed, idx, nwork, out):
    t0 = time.time()
    from vlib.core import dumps, to_json
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    plain_sampling()
    mod = load(pid)
    res = {"parts": {}, "failures": [], "error": None}
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    for pi, part in enumerate(mod.PARTS):
        total = int(max(nwork, round(getattr(part, tier) * scale)))
        n = total // nwork + (1 if idx < total % nwork else 0)
        rec = {"evaluations": 0, "nontrivial": 0, "skipped": 0, "hashes": [], "labels": {}, "samples": [], "t": 0.0}
        hashes = set()
        state = {"fail": None, "t_fail": None}
        tp = time.time()

        def one(case, part=part, rec=rec, hashes=hashes, state=state):
            now = time.time()
            if now - t0 > SOFT[tier] and state["fail"] is None:
                rec["skipped"] += 1
                return
            if state["t_fail"] is not None and now - state["t_fail"] > SHRINK:
                return
            case = jlo(dumps(case))  # exactly what a replay would see
            r = run_case(part, case)
            rec["evaluations"] += 1
            if r[0] == "violation":
                if state["t_fail"] is None:
                    state["t_fail"] = now
                state["fail"] = (case, r[1])
                raise AssertionError(r[1])
            if r[1]:
                h = hashlib.sha1(dumps(case).encode()).hexdigest()[:16]
                if h not in hashes:
                    hashes.add(h)
                    rec["nontrivial"] += 1
                    if len(rec["samples"]) < 3:
                        rec["samples"].append(to_json(case))
            for k in r[2] or ():
                rec["labels"][k] = rec["labels"].get(k, 0) + 1

        try:
            if idx == 0:
                for case in part.fixed:
                    one(case)
            if n > 0:
                sub = int(hashlib.sha256(f"{seed}/{pid}/{part.name}/{idx}".encode()).hexdigest()[:12], 16)

                @hypothesis.seed(sub)
                @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                          suppress_health_check=list(HealthCheck), phases=(Phase.explicit, Phase.generate) + (() if FAST else (Phase.shrink,)),
                          print_blob=False)
                @given(part.strategy())
                def test(case):
                    one(case)

                sys_stdout = sys.stdout
                sys.stdout = open(os.devnull, "w")
                try:
                    test()
                finally:
                    sys.stdout = sys_stdout
        except BaseException as e:  # noqa: BLE001
            if state["fail"] is None:
                res["error"] = f"part {part.name}: " + "".join(traceback.format_exception(e))[-4000:]
        if state["fail"] is not None:
            res["failures"].append({"part": part.name, "case": state["fail"][0], "message": state["fail"][1], "worker": idx})
        rec["hashes"] = sorted(hashes)
        rec["t"] = time.time() - tp
        res["parts"][part.name] = rec
        if res["error"] or res["failures"]:
            break
    with open(out, "w") as f:
        json.dump(res, f)


def replay(pid, path):
    mod = load(pid)
    with open(path) as f:
        r = json.load(f)
    part = next(p for p in mod.PARTS if p.name == r["part"])
    v = run_case(part, r["case"])
    if v[0] == "violation":
        print(f"part {part.name}: {v[1]}")
        return 1
    if r.get("campaign"):
        c = r["campaign"]
        out = os.path.join(os.environ["VERIF_SCRATCH"], "campaign.json")
        worker(pid, c["tier"], c["seed"], c["worker"], c["nwork"], out)
        with open(out) as f:
            res = json.load(f)
        if res["failures"]:
            print(f"part {part.name}: fails only after the preceding cases of its run: {res['failures'][0]['message']}")
            return 1
    print("no violation on this replay")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--nwork", type=int)
    ap.add_argument("--out")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    a = ap.parse_args()
    pid = a.pid
    if a.worker is not None:
        worker(pid, a.tier, a.seed, a.worker, a.nwork, a.out)
        return 0
    if a.replay:
        code = replay(pid, a.replay)
        if code:
            print(f"VIOLATION property={pid} replay={a.replay}")
        return code
    t0 = time.time()
    mod = load(pid)  # import errors end the check with an error exit, not a verdict
    scratch = os.environ["VERIF_SCRATCH"]
    procs = []
    for i in range(NPROC):
        out = os.path.join(scratch, f"{pid}.{i}.json")
        p = subprocess.Popen([sys.executable, "-m", "vlib.runner", pid, "--tier", a.tier, "--seed", str(a.seed), "--worker", str(i), "--nwork", str(NPROC), "--out", out], stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), cwd=HERE)
        procs.append((p, out))
    known_lines, known_bad = [], []
    for k in getattr(mod, "KNOWN", []):
        try:
            hit = k.probe()
        except Exception:  # fails otherwise on this tree: not the listed finding
            hit = False
        if hit:
            known_lines.append(f"KNOWN-FINDING: property={pid} {k.text}")
    results, errors = [], []
    limit = SOFT[a.tier] + 400
    for p, out in procs:
        try:
            rc = p.wait(timeout=max(5, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append(f"worker did not finish within {limit}s")
            continue
        if rc != 0 or not os.path.exists(out):
            errors.append(f"worker exit {rc}: " + open(out + ".err").read()[-3000:])
            continue
        with open(out) as f:
            r = json.load(f)
        if r["error"]:
            errors.append(r["error"])
        results.append(r)
    fails = [f for r in results for f in r["failures"]]
    # evidence
    ev, nt, samples, parts, skipped = 0, 0, [], {}, 0
    for part in mod.PARTS:
        hs, labels, e, s, t = set(), {}, 0, 0, 0.0
        smp = []
        for r in results:
            q = r["parts"].get(part.name)
            if not q:
                continue
            e += q["evaluations"]
            s += q["skipped"]
            hs |= set(q["hashes"])
            t += q["t"]
            for k, v in q["labels"].items():
                labels[k] = labels.get(k, 0) + v
            smp += q["samples"]
        parts[part.name] = {"evaluations": e, "distinct_nontrivial": len(hs), "skipped_after_time_limit": s, "rule": part.rule, "classes": dict(sorted(labels.items())), "cpu_s": round(t, 1)}
        ev += e
        nt += len(hs)
        skipped += s
        samples += [{"part": part.name, "case": x} for x in smp[:2]]
    evidence = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {"evaluations": ev, "distinct_nontrivial": nt,
                     "rule": "cases are drawn by Hypothesis strategies (one seed per part and worker derived from VERIF_SEED); distinct = different case content; per part: " + "; ".join(f"[{p.name}] {p.rule}" for p in mod.PARTS),
                     "samples": samples[:8], "parts": parts, "skipped_after_time_limit": skipped, "workers": NPROC,
                     "known_findings_reproduced": len(known_lines)},
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2), "violations": len(fails),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for line in known_lines:
        print(line)
    if fails:
        # confirm in a fresh process; keep the smallest case
        fails.sort(key=lambda f: len(json.dumps(f["case"])))
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        f = fails[0]
        path = os.path.join(OUT, "replays", f"{pid}-{f['part']}.json")
        body = {"property": pid, "part": f["part"], "message": f["message"], "case": f["case"]}
        json.dump(body, open(path, "w"), indent=1)
        rc = 1 if FAST else subprocess.run([sys.executable, "-m", "vlib.runner", pid, "--replay", path], cwd=HERE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        if rc != 1:  # depends on the preceding cases of the run: replay the whole worker campaign
            body["campaign"] = {"tier": a.tier, "seed": a.seed, "worker": f["worker"], "nwork": NPROC}
            json.dump(body, open(path, "w"), indent=1)
        print(f"{pid} part {f['part']}: {f['message']}")
        print(f"case: {json.dumps(f['case'])[:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        print("HARNESS ERROR\n" + "\n".join(errors)[-6000:], file=sys.stderr)
        return 3
    print(f"{pid}: held on {ev} cases ({nt} distinct non-trivial, {skipped} skipped at the time limit) in {time.time()-t0:.1f}s")
    for n, q in parts.items():
        print(f"  {n}: {q['evaluations']} cases, {q['distinct_nontrivial']} non-trivial, cpu {q['cpu_s']}s, {q['classes']}")
    if nt == 0:
        print("HARNESS ERROR: no non-trivial case", file=sys.stderr)
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
