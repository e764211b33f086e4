"""Driver: runs the parts of a check in parallel workers, shrinks, confirms, reports.

A check is a list of parts.  A part has a generator (a Hypothesis strategy, or a function that
enumerates a finite list of cases) of JSON-serialisable case specs and a function that runs one case
against ff and raises Violation when the oracle disagrees.
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from .runner import HarnessError, Runner

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VF_WORKERS", "8"))


class Violation(Exception):
    def __init__(self, message, **details):
        super().__init__(message)
        self.message = message
        self.details = details


class Skip(Exception):
    """The case is not applicable (counts as evaluated but trivial)."""


class Part:
    def __init__(self, name, run, strategy=None, cases=None, quick=400, thorough=None, confirm=6, weight=0,
                 uses_load=False):
        self.name, self.run, self.strategy, self.cases = name, run, strategy, cases
        self.quick = quick
        self.weight = weight            # share of the time, if the number of cases does not tell
        self.thorough = thorough if thorough is not None else quick * 12
        self.confirm = confirm


QUICK = 1.6             # scales the number of generated cases in quick runs


class Check:
    def __init__(self, pid, parts, rule, level="exploration", assumptions=(), quick_s=180, thorough_s=1500):
        for part in parts:
            if part.strategy is not None:
                part.quick = round(part.quick * QUICK)
        self.pid, self.parts, self.rule, self.level = pid, parts, rule, level
        self.assumptions = list(assumptions)
        self.quick_s, self.thorough_s = quick_s, thorough_s


def canon(spec):
    return json.dumps(spec, sort_keys=True, separators=(",", ":"))


def force_rmtree(path):
    def fix(func, p, exc):
        try:
            os.chmod(os.path.dirname(p), 0o700)
            os.chmod(p, 0o700, follow_symlinks=False) if not os.path.islink(p) else None
            func(p)
        except OSError:
            pass
    shutil.rmtree(path, onexc=fix)


class Ctx:
    """What a case gets: a runner and an empty directory."""

    def __init__(self, scratch, windex, known=()):
        self.scratch = scratch
        self.windex = windex
        self.known = set(known)
        os.makedirs(scratch, exist_ok=True)
        os.chmod(scratch, 0o755)
        self.runner = Runner(scratch, hashseed=windex)
        self.n = 0
        self.case = None
        self.classes = []
        self.nontrivial = None
        self.runs_info = 0

    def new_case(self):
        self.end_case()
        self.n += 1
        self.case = os.path.join(self.scratch, "case")
        os.makedirs(self.case)
        os.chmod(self.case, 0o755)
        self.classes = []
        self.nontrivial = None

    def end_case(self):
        if self.case is not None:
            force_rmtree(self.case)
            if os.path.exists(self.case):
                force_rmtree(self.case)
            self.case = None

    def mark(self, *classes):
        self.classes.extend(classes)

    def run(self, args, cwd=None, **kw):
        return self.runner.run(args, cwd or self.case, **kw)

    def close(self):
        self.end_case()
        self.runner.close()


def run_case(ctx, part, spec):
    """Run one case; returns (violation or None)."""
    ctx.new_case()
    try:
        part.run(ctx, spec)
        return None
    except Violation as exc:
        return exc
    except Skip:
        ctx.nontrivial = False
        return None
    except (ValueError, LookupError, TypeError, AttributeError) as exc:
        # What ff printed cannot be interpreted (e. g. it is no valid JSON).
        return Violation(f"the result cannot be interpreted: {type(exc).__name__}: {exc}", traceback=traceback.format_exc()[-3000:])
    finally:
        ctx.end_case()


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.classes = {}
        self.samples = []
        self.per_part = {}

    def add(self, part, spec, ctx):
        self.evaluations += 1
        self.per_part[part.name] = self.per_part.get(part.name, 0) + 1
        nontrivial = True if ctx.nontrivial is None else ctx.nontrivial
        for c in ctx.classes:
            self.classes[c] = self.classes.get(c, 0) + 1
        if nontrivial:
            c = canon([part.name, spec])
            h = hashlib.blake2b(c.encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()
            if h not in self.distinct:
                self.distinct.add(h)
                k = sum(1 for s in self.samples if s["part"] == part.name)
                if k < 2 and len(c) < 2500:
                    self.samples.append({"part": part.name, "case": spec})


def worker(check, args, windex, nworkers, scratch, deadline, flag):
    """Body of a worker process; writes its result as JSON."""
    res = {"violation": None, "error": None}
    stats = Stats()
    ctx = None
    try:
        ctx = Ctx(os.path.join(scratch, f"w{windex}"), windex, args.known)
        total = sum(max(p.weight * (12 if args.tier == "thorough" else 1), p.thorough if args.tier == "thorough" else p.quick) for p in check.parts) or 1
        t_start = time.time()
        span = deadline - t_start
        used = 0.0
        for pi, part in enumerate(check.parts):
            if args.part and part.name not in args.part:
                continue
            n = part.thorough if args.tier == "thorough" else part.quick
            share = span * (max(n, part.weight * (12 if args.tier == "thorough" else 1)) / total)
            used += share
            # A part may use what earlier parts left over.
            part_deadline = t_start + used if pi < len(check.parts) - 1 else deadline
            v = run_part(ctx, part, n, args, windex, nworkers, part_deadline, stats, flag)
            if v is not None:
                res["violation"] = v
                open(flag, "w").close()
                break
            if os.path.exists(flag):
                break
    except HarnessError as exc:
        res["error"] = f"harness: {exc}\n" + traceback.format_exc()
    except BaseException as exc:
        res["error"] = f"{type(exc).__name__}: {exc}\n" + traceback.format_exc()
    finally:
        if ctx is not None:
            try:
                res["runs"] = ctx.runner.runs
                ctx.close()
            except Exception:
                pass
    res["evaluations"] = stats.evaluations
    res["distinct"] = sorted(stats.distinct)
    res["classes"] = stats.classes
    res["samples"] = stats.samples
    res["per_part"] = stats.per_part
    tmp = os.path.join(scratch, f"result{windex}.json")
    with open(tmp, "w") as f:
        json.dump(res, f, default=str)


def derive(*items):
    return int.from_bytes(hashlib.blake2b("|".join(map(str, items)).encode(), digest_size=8).digest(), "big")


def run_part(ctx, part, n, args, windex, nworkers, deadline, stats, flag):
    best = {"spec": None, "v": None, "size": None}

    def record(spec, exc):
        size = len(canon(spec))
        if best["size"] is None or size < best["size"]:
            best.update(spec=json.loads(json.dumps(spec)), v=exc, size=size)

    if part.cases is not None:
        specs = list(part.cases(args.tier, args.seed))
        for i, spec in enumerate(specs):
            if i % nworkers != windex:
                continue
            if time.time() > deadline or os.path.exists(flag):
                break
            exc = run_case(ctx, part, spec)
            stats.add(part, spec, ctx)
            if exc is not None:
                record(spec, exc)
                break
    if part.strategy is not None and best["spec"] is None:
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        mine = n // nworkers + (1 if windex < n % nworkers else 0)
        if mine <= 0:
            return None
        state = {"fail_t": None}
        shrink_s = float(os.environ.get("VF_SHRINK") or (30 if args.tier == "quick" else 90))

        @hypothesis.seed(derive(args.seed, part.name, windex) & 0xFFFFFFFF)
        @settings(max_examples=mine, database=None, deadline=None, derandomize=False,
                  suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
                  print_blob=False, report_multiple_bugs=False)
        @given(part.strategy(args.tier) if callable(part.strategy) else part.strategy)
        def test(spec):
            now = time.time()
            if state["fail_t"] is None:
                if now > deadline or os.path.exists(flag):
                    return
            elif now > state["fail_t"] + shrink_s:
                return
            exc = run_case(ctx, part, spec)
            if state["fail_t"] is None:
                stats.add(part, spec, ctx)
            if exc is not None:
                if state["fail_t"] is None:
                    state["fail_t"] = time.time()
                record(spec, exc)
                raise AssertionError(exc.message)

        try:
            test()
        except HarnessError:
            raise
        except BaseException as exc:
            if best["spec"] is None:
                raise
    if best["spec"] is not None:
        return {"part": part.name, "spec": best["spec"], "message": best["v"].message, "hashseed": windex,
                "details": best["v"].details}
    return None


def spawn_workers(check, args, scratch, deadline, nworkers):
    flag = os.path.join(scratch, "stop")
    pids = {}
    for i in range(nworkers):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                os.setpgid(0, 0)
                worker(check, args, i, nworkers, scratch, deadline, flag)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        pids[pid] = i
    hard = deadline + 240
    while pids:
        pid, _ = os.waitpid(-1, os.WNOHANG)
        if pid:
            pids.pop(pid, None)
            continue
        if time.time() > hard:
            for p in pids:
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
            for p in list(pids):
                os.waitpid(p, 0)
            break
        time.sleep(0.05)
    out = []
    for i in range(nworkers):
        try:
            with open(os.path.join(scratch, f"result{i}.json")) as f:
                out.append(json.load(f))
        except (OSError, ValueError):
            out.append({"violation": None, "error": f"worker {i} left no result", "evaluations": 0,
                        "distinct": [], "classes": {}, "samples": [], "per_part": {}, "runs": 0})
    return out


def load_known():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def part_by_name(check, name):
    for p in check.parts:
        if p.name == name:
            return p
    raise SystemExit(f"no part {name!r} in {check.pid}")


def replay(check, path, scratch, known, times=None):
    with open(path) as f:
        data = json.load(f)
    part = part_by_name(check, data["part"])
    ctx = Ctx(os.path.join(scratch, "replay"), data.get("hashseed", 0), known)
    try:
        for _ in range(times or part.confirm):
            exc = run_case(ctx, part, data["spec"])
            if exc is not None:
                return exc
    finally:
        ctx.close()
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--part", action="append")
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--scale", type=float, default=1.0)
    args = ap.parse_args(argv)
    mod = importlib.import_module(f"vf.checks.{args.pid.lower()}")
    check = mod.CHECK
    known = load_known()
    mine = [k for k in known.get("findings", []) if k["property"] == check.pid]
    args.known = [k["id"] for k in mine]
    t0 = time.time()
    base = os.environ.get("VF_SCRATCH") or tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix=f"vf-{check.pid}-", dir=base)
    os.chmod(scratch, 0o755)
    try:
        if args.replay:
            exc = replay(check, args.replay, scratch, args.known)
            if exc is not None:
                print(f"VIOLATION property={check.pid} replay={args.replay}")
                print(exc.message)
                print(json.dumps(exc.details, indent=1, default=str)[:6000])
                return 1
            print("replay: no violation")
            return 0
        return run_check(check, args, mine, scratch, t0)
    finally:
        force_rmtree(scratch)


def run_check(check, args, mine, scratch, t0):
    for p in check.parts:
        p.quick = int(p.quick * args.scale) or (1 if p.quick else 0)
        p.thorough = int(p.thorough * args.scale) or (1 if p.thorough else 0)
    # Known findings first: they are listed with the input that fails.
    for k in mine:
        part = part_by_name(check, k["part"])
        ctx = Ctx(os.path.join(scratch, "known"), 0, [])
        try:
            exc = None
            for _ in range(part.confirm):
                exc = run_case(ctx, part, k["spec"])
                if exc is not None:
                    break
        finally:
            ctx.close()
        if exc is not None:
            print(f"KNOWN-FINDING: property={check.pid} {k['text']}", flush=True)
        else:
            print(f"note: listed finding {k['id']} did not fail on this tree", flush=True)

    seconds = args.seconds or (check.thorough_s if args.tier == "thorough" else check.quick_s)
    deadline = time.time() + seconds
    results = spawn_workers(check, args, scratch, deadline, WORKERS)

    errors = [r["error"] for r in results if r.get("error")]
    violations = sorted((r["violation"] for r in results if r["violation"]),
                        key=lambda v: len(canon(v["spec"])))
    distinct = set()
    classes, per_part, samples = {}, {}, []
    for r in results:
        distinct.update(r["distinct"])
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v
        for k, v in r["per_part"].items():
            per_part[k] = per_part.get(k, 0) + v
        for s in r["samples"]:
            if sum(1 for t in samples if t["part"] == s["part"]) < 2:
                samples.append(s)
    reported = None
    unconfirmed = []
    for v in violations:
        path = os.path.join(scratch, "cand.json")
        data = {"property": check.pid, "part": v["part"], "spec": v["spec"], "message": v["message"],
                "details": v["details"], "hashseed": v["hashseed"], "seed": args.seed, "tier": args.tier}
        with open(path, "w") as f:
            json.dump(data, f, indent=1, default=str)
        exc = replay(check, path, scratch, args.known)
        if exc is None:
            unconfirmed.append({"part": v["part"], "message": v["message"][:300]})
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            shutil.copyfile(path, os.path.join(VERIF, "replays", f"unconfirmed-{check.pid}.json"))
            continue
        out = os.path.join(VERIF, "replays")
        os.makedirs(out, exist_ok=True)
        h = hashlib.blake2b(canon(v["spec"]).encode("utf-8", "surrogatepass"), digest_size=5).hexdigest()
        rel = os.path.join(out, f"{check.pid}-{v['part']}-{h}.json")
        shutil.copyfile(path, rel)
        reported = (rel, exc)
        break

    evaluations = sum(r["evaluations"] for r in results)
    while len(json.dumps(samples)) > 20000 and len(samples) > 1:
        samples.remove(max(samples, key=lambda s: len(json.dumps(s))))
    evidence = {
        "property": check.pid, "tier": args.tier, "seed": args.seed, "level": check.level,
        "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(distinct),
                     "rule": check.rule, "samples": samples,
                     "cases_per_part": per_part, "classes": dict(sorted(classes.items())),
                     "ff_runs": sum(r.get("runs", 0) for r in results),
                     "workers": WORKERS},
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if reported else 0,
    }
    if unconfirmed:
        evidence["coverage"]["unconfirmed"] = unconfirmed
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{check.pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    print(f"{check.pid}: {evaluations} cases, {len(distinct)} distinct non-trivial, "
          f"{evidence['coverage']['ff_runs']} ff runs, {evidence['wall_s']} s; parts {per_part}")
    for u in unconfirmed:
        print(f"note: not reproduced: {u}")
    if reported:
        rel, exc = reported
        print(f"VIOLATION property={check.pid} replay={rel}")
        print(exc.message)
        print(json.dumps(exc.details, indent=1, default=str)[:4000])
        return 1
    if errors:
        print(f"ERROR: {len(errors)} worker(s) failed", file=sys.stderr)
        for e in errors[:2]:
            print(e, file=sys.stderr)
        return 2
    if evaluations == 0:
        print("ERROR: nothing was evaluated", file=sys.stderr)
        return 2
    return 0
