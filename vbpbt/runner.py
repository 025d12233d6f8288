"""
Drives one property: forks shards, each runs every sub-check of the property under
Hypothesis with a seed derived from VERIF_SEED, collects violations and evidence.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: harness error.
"""
import argparse
import collections
import contextlib
import hashlib
import importlib
import io
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.json")

SOFT = {"quick": 100.0, "thorough": 5400.0}  # a shard stops generating after this many seconds
HARD = {"quick": 420.0, "thorough": 7200.0}  # a shard is stopped after this many seconds
SHRINK_S = 25.0
REPLAY_TIMEOUT = 150.0
# more cases in the quick tier where they are cheap (about half a minute per property on eight cores)
QUICK_SCALE = collections.defaultdict(lambda: 3.0, C12=1.0, C24=1.5, C08=2.0, C10=2.0, C17=2.0, C28=2.0)
HARNESS_EXC = (MemoryError, ImportError, OSError)


CHECKED = ("C24",)  # native part compiled with run-time checks


def load_property(pid):
    mod = importlib.import_module("vbpbt.props." + pid.lower())
    return mod.PROPERTY


def setup_env(pid):
    from . import env

    # the property modules import VolterraBasis: build and load it first
    checked = pid in CHECKED
    env.setup(checked=checked)


def seed_for(seed, pid, sub, shard):
    h = hashlib.sha256(("%d|%s|%s|%d" % (seed, pid, sub, shard)).encode()).digest()
    return int.from_bytes(h[:6], "big")


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        import numpy as np

        with np.errstate(all="ignore"):
            yield


def execute(sub, case):
    """Run one case. Returns info dict; raises Violation for any wrong behaviour."""
    from .core import Violation

    try:
        with quiet():
            return sub.check(case) or {}
    except Violation:
        raise
    except HARNESS_EXC:
        raise
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
        raise Violation("unexpected %s: %s [%s]" % (type(e).__name__, str(e)[:300], where)) from e


def known_matches(known, pid, sub, case, msg):
    for k in known:
        if k.get("property") == pid and k.get("sub") == sub and k.get("status") == "open":
            m = k.get("match", {})
            if m and all(case.get(a) == b for a, b in m.items()):
                return k
    return None


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


# ------------------------------------------------------------------ one shard
def run_shard(prop, seed, tier, shard, nshards, workdir, only, t_start):
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed

    from .core import Violation, case_key

    known = load_known()
    out = {"subs": {}, "violations": [], "known": [], "harness": None, "timed_out": False}
    curfile = os.path.join(workdir, "cur_%d.json" % shard)
    curfd = os.open(curfile, os.O_RDWR | os.O_CREAT | os.O_TRUNC)

    def mark(sub, key):
        data = ('{"sub": %s, "case": %s}' % (json.dumps(sub), key)).encode()
        os.pwrite(curfd, data + b"\n", 0)
        os.ftruncate(curfd, len(data) + 1)

    subs = [s for s in prop.subs if only is None or s.name == only]
    # rotate so that not all the shards start with the same sub-check
    for si in range(len(subs)):
        sub = subs[(si + shard) % len(subs)]
        total = sub.quick if tier == "quick" else sub.thorough
        ns = min(nshards, sub.shards, max(1, total))
        if shard >= ns:
            continue
        n = total // ns + (1 if shard < total % ns else 0)
        if n == 0:
            continue
        st = {"evaluations": 0, "nontrivial": set(), "labels": collections.Counter(), "samples": [], "seconds": 0.0, "skipped": 0}
        state = {"first_fail": None, "failing": set(), "last": None, "best": None}

        def test(case):
            now = time.monotonic()
            key = case_key(case)
            if state["first_fail"] is None:
                if now - t_start > SOFT[tier]:
                    st["skipped"] += 1
                    out["timed_out"] = True
                    return
            elif now - state["first_fail"] > SHRINK_S and key not in state["failing"]:
                return
            mark(sub.name, key)
            try:
                info = execute(sub, case)
            except Violation as v:
                k = known_matches(known, prop.pid, sub.name, case, str(v))
                if k is not None:
                    out["known"].append(k["id"])
                    return
                if state["first_fail"] is None:
                    state["first_fail"] = time.monotonic()
                state["failing"].add(key)
                state["last"] = (key, str(v))
                if state["best"] is None or len(key) <= len(state["best"][0]):
                    state["best"] = (key, str(v))
                raise
            if state["first_fail"] is None:
                st["evaluations"] += 1
                for lab in info.get("labels", []):
                    st["labels"][str(lab)] += 1
                if info.get("nontrivial", True):
                    h = hashlib.sha1(key.encode()).hexdigest()[:16]
                    st["nontrivial"].add(h)
                    if len(st["samples"]) < 2 and st["evaluations"] > 2:
                        st["samples"].append(case)

        t0 = time.monotonic()
        runner = settings(
            max_examples=n,
            deadline=None,
            database=None,
            derandomize=False,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
            print_blob=False,
        )(hseed(seed_for(seed, prop.pid, sub.name, shard))(given(sub.strategy())(test)))
        try:
            runner()
        except HARNESS_EXC as e:
            out["harness"] = "%s: %s\n%s" % (sub.name, e, traceback.format_exc()[-1500:])
            break
        except BaseException as e:
            if state["last"] is None:
                out["harness"] = "%s: %r\n%s" % (sub.name, e, traceback.format_exc()[-3000:])
                break
            key, msg = state["last"] if state["last"] is not None else state["best"]
            out["violations"].append({"sub": sub.name, "case": json.loads(key), "message": msg})
        else:
            if state["last"] is not None:  # failed once, then passed on the same input
                key, msg = state["best"]
                out["violations"].append({"sub": sub.name, "case": json.loads(key), "message": msg, "unstable": True})
        st["seconds"] = time.monotonic() - t0
        st["nontrivial"] = sorted(st["nontrivial"])
        st["labels"] = dict(st["labels"])
        out["subs"][sub.name] = st
        if out["violations"]:
            break
    os.close(curfd)
    tmp = os.path.join(workdir, "res_%d.tmp" % shard)
    with open(tmp, "w") as f:
        json.dump(out, f)
    os.rename(tmp, os.path.join(workdir, "res_%d.json" % shard))


# ------------------------------------------------------------------ replay
def replay_file(pid, path):
    from .core import Violation

    with open(path) as f:
        rec = json.load(f)
    prop = load_property(pid)
    sub = {s.name: s for s in prop.subs}[rec["sub"]]
    try:
        execute(sub, rec["case"])
    except Violation as v:
        print("replay: %s/%s: %s" % (pid, rec["sub"], v), file=sys.stderr)
        return 1
    return 0


def replay_subprocess(pid, path, seed):
    """0: held, 1: violation, 2: harness error, 'died' or 'hang'."""
    env = dict(os.environ, VERIF_SEED=str(seed))
    try:
        r = subprocess.run([sys.executable, "-m", "vbpbt.runner", pid, "--replay", path, "--raw"], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=REPLAY_TIMEOUT)
    except subprocess.TimeoutExpired:
        return "hang", ""
    if "REPLAY-DONE" in r.stdout:
        return r.returncode, r.stderr
    return "died", r.stderr


def write_replay(pid, seed, tier, v):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha1(json.dumps(v["case"], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, "%s-%s-%s.json" % (pid, v["sub"], h))
    with open(path, "w") as f:
        json.dump({"property": pid, "sub": v["sub"], "seed": seed, "tier": tier, "message": v["message"], "case": v["case"]}, f, indent=1, sort_keys=True)
    return path


# ------------------------------------------------------------------ main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--raw", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--only")
    ap.add_argument("--shards", type=int, default=int(os.environ.get("VBPBT_SHARDS", "8")))
    ap.add_argument("--scale", type=float, default=1.0)
    args = ap.parse_args()
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    t_start = time.monotonic()
    if args.pid == "SETUP":  # nothing to install: see that the package can be built and imported
        setup_env("SETUP")
        import hypothesis

        print("ready: hypothesis %s" % hypothesis.__version__)
        return 0

    if args.pid in CHECKED:
        from . import env

        env.reexec_with_asan()
    try:
        setup_env(args.pid)
        prop = load_property(args.pid)
    except Exception:
        traceback.print_exc()
        print("HARNESS-ERROR property=%s" % args.pid)
        return 2

    if args.replay:
        try:
            rc = replay_file(args.pid, args.replay)
        except Exception:
            traceback.print_exc()
            rc = 2
        if args.raw:
            print("REPLAY-DONE", flush=True)
        elif rc == 1:
            print("VIOLATION property=%s replay=%s" % (args.pid, args.replay))
        return rc

    for s in prop.subs:
        s.quick = int(s.quick * QUICK_SCALE[args.pid])
    if args.scale != 1.0:
        for s in prop.subs:
            s.quick = int(s.quick * args.scale)
            s.thorough = int(s.thorough * args.scale)

    workdir = tempfile.mkdtemp(prefix="vbpbt_run_")
    pids = {}
    try:
        import hypothesis  # noqa: F401  (imported before the fork)

        sys.stdout.flush()
        sys.stderr.flush()
        for shard in range(args.shards):
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    os.setpgid(0, 0)
                    os.chdir(workdir)
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    ef = os.open(os.path.join(workdir, "err_%d" % shard), os.O_WRONLY | os.O_CREAT)
                    os.dup2(ef, 2)
                    run_shard(prop, args.seed, tier, shard, args.shards, workdir, args.only, t_start)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stderr.flush()
                    os._exit(code)
            pids[pid] = shard
        hung = set()
        running = dict(pids)
        ended_early = False
        while running:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.monotonic() - t_start > HARD[tier]:
                    for p, sh in running.items():
                        hung.add(sh)
                        with contextlib.suppress(OSError):
                            os.killpg(p, signal.SIGKILL)
                # one shard has a definite violation: the others may stop
                if not ended_early:
                    for sh in pids.values():
                        rp = os.path.join(workdir, "res_%d.json" % sh)
                        if os.path.exists(rp):
                            try:
                                if json.load(open(rp))["violations"]:
                                    ended_early = True
                            except ValueError:
                                pass
                    if ended_early:
                        t_end = time.monotonic() + 3
                if ended_early and time.monotonic() > t_end:
                    for p in running:
                        with contextlib.suppress(OSError):
                            os.killpg(p, signal.SIGKILL)
                time.sleep(0.05)
                continue
            running.pop(pid, None)

        results, violations, harness, deaths = [], [], [], []
        for sh in range(args.shards):
            rp = os.path.join(workdir, "res_%d.json" % sh)
            if os.path.exists(rp):
                r = json.load(open(rp))
                results.append(r)
                violations += r["violations"]
                if r["harness"]:
                    harness.append(r["harness"])
            elif not ended_early:
                deaths.append(sh)
        # a shard that vanished: the native code ended the process, or it hangs; confirm on the last case alone
        for sh in deaths:
            if violations:
                break
            err = ""
            with contextlib.suppress(OSError):
                err = open(os.path.join(workdir, "err_%d" % sh)).read()[-1500:]
            try:
                rec = json.load(open(os.path.join(workdir, "cur_%d.json" % sh)))
            except (OSError, ValueError):
                harness.append("shard %d ended without a result: %s" % (sh, err))
                continue
            v = {"sub": rec["sub"], "case": rec["case"], "message": "the process died (or did not end) while running this case: " + err[-300:]}
            path = write_replay(args.pid, args.seed, tier, v)
            how, msg = replay_subprocess(args.pid, path, args.seed)
            if how in ("died", "hang", 1):
                v["message"] = "%s: %s %s" % (how, v["message"], msg[-300:])
                violations.append(v)
            else:
                os.unlink(path)
                harness.append("shard %d ended without a result and its last case is fine alone: %s" % (sh, err))
    finally:
        import shutil

        shutil.rmtree(workdir, ignore_errors=True)

    # evidence
    subs = {}
    for r in results:
        for name, st in r["subs"].items():
            d = subs.setdefault(name, {"evaluations": 0, "nt": set(), "labels": collections.Counter(), "samples": [], "skipped": 0})
            d["evaluations"] += st["evaluations"]
            d["nt"].update(st["nontrivial"])
            d["labels"].update(st["labels"])
            d["skipped"] += st["skipped"]
            if len(d["samples"]) < 2:
                d["samples"] += st["samples"][: 2 - len(d["samples"])]
    cov = {
        "evaluations": sum(d["evaluations"] for d in subs.values()),
        "distinct_nontrivial": sum(len(d["nt"]) for d in subs.values()),
        "rule": prop.rule,
        "samples": [{"sub": n, "case": s} for n, d in sorted(subs.items()) for s in d["samples"]],
        "per_subcheck": {n: {"evaluations": d["evaluations"], "distinct_nontrivial": len(d["nt"]), "not_run_for_time": d["skipped"], "labels": dict(sorted(d["labels"].items()))} for n, d in sorted(subs.items())},
    }
    known_hit = sorted({k for r in results for k in r["known"]})
    wall = time.monotonic() - t_start
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, args.pid + ".json"), "w") as f:
        json.dump({"property": args.pid, "tier": tier, "seed": args.seed, "level": "exploration", "coverage": cov, "assumptions": prop.assumptions, "wall_s": round(wall, 2), "violations": len(violations), "known_findings_hit": known_hit, "harness_errors": harness}, f, indent=1)

    for k in load_known():
        if k.get("property") == args.pid and k.get("status") == "open":
            print("KNOWN-FINDING: property=%s %s" % (args.pid, k["what"]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (args.pid, tier, args.seed, cov["evaluations"], cov["distinct_nontrivial"], wall))
    if violations:
        violations.sort(key=lambda v: len(json.dumps(v["case"])))
        v = violations[0]
        path = write_replay(args.pid, args.seed, tier, v)
        print("%s/%s: %s" % (args.pid, v["sub"], v["message"]))
        print("case: %s" % json.dumps(v["case"], sort_keys=True)[:1500])
        print("VIOLATION property=%s replay=%s" % (args.pid, path))
        return 1
    if harness:
        for h in harness:
            print("HARNESS-ERROR property=%s %s" % (args.pid, h))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
