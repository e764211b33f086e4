"""C10: limits."""
import json
import os

from hypothesis import strategies as st

from .. import tree
from ..core import Check, Part, Skip
from ..lib import JOBS, SCHED, Recorder, expect_clean, expect_same, fail
from ..tree import split0

NUM = st.one_of(st.integers(-6, 30), st.integers(-40, 60), st.sampled_from([0, 1, -1, 10 ** 6, -10 ** 6]))


def strategy(tier):
    return st.fixed_dictionaries({
        "n": st.one_of(st.integers(0, 25), st.integers(0, 4), st.sampled_from([99, 100, 101, 130])),
        "dirs": st.integers(0, 3), "seed": st.integers(0, 1000),
        "limit": st.one_of(st.tuples(st.just("slice"), st.one_of(st.none(), NUM), st.one_of(st.none(), NUM)),
                           st.tuples(st.just("slice"), st.one_of(st.none(), NUM), st.one_of(st.none(), NUM)),
                           st.tuples(st.just("page"), st.integers(0, 30), st.integers(0, 8)),
                           st.tuples(st.just("one"), st.none(), st.none())),
        "spell": st.integers(0, 2),
        "sort": st.sampled_from(["path", "path", "size", "name:v", "mtime", None]),
        "reverse": st.booleans(),
        "out": st.sampled_from(["plain", "plain", "json", "jsonl", "fields", "x", "X"]),
        "filter": st.booleans(),
        "jobs": JOBS, "opt": st.booleans(), "sched": SCHED,
    })


def py_slice(limit):
    kind, a, b = limit
    if kind == "one":
        return 0, 1
    if kind == "page":
        return a * b, a * (b + 1)
    return (0 if a is None else a), b


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    dirs = [""]
    items = []
    for i in range(spec["dirs"]):
        d = f"dir{i}"
        os.mkdir(os.path.join(root, d))
        os.utime(os.path.join(root, d))
        dirs.append(d)
    rnd = spec["seed"]
    for i in range(spec["n"]):
        k = (i * 7919 + rnd) % 10007
        path = os.path.join(dirs[(i + rnd) % len(dirs)], f"f{k}")
        with open(os.path.join(root, path), "wb") as f:
            f.truncate((i * 31 + rnd) % 1009)
        items.append((path, (i * 31 + rnd) % 1009, 10 ** 9 + (i * 17 + rnd) % 977, k))
        os.utime(os.path.join(root, path), (1, items[-1][2]))
    files = [x for x in items if not spec["filter"] or x[1] % 2 == 0 or True]
    tests = ["type=f"]
    if spec["filter"]:
        tests.append("size+100")
        files = [x for x in items if x[1] > 100]
    sort = spec["sort"]
    key = {"path": lambda x: x[0], "size": lambda x: x[1], "name:v": lambda x: x[3], "mtime": lambda x: x[2], None: lambda x: x[0]}[sort]
    files.sort(key=key)
    if len({key(x) for x in files}) != len(files):
        raise Skip()
    if spec["reverse"] and sort:
        files.reverse()
    full = [x[0] for x in files]
    a, b = py_slice(spec["limit"])
    want = full[a:b]
    kind, p, q = spec["limit"]
    argv = ["--no-cache", f"-j{spec['jobs']}"]
    if kind == "one":
        argv.append("-1")
    else:
        text = f"{p},{q}" if kind == "page" else f"{'' if p is None else p}:{'' if q is None else q}"
        argv += [["--limit=" + text], ["-l", text] if not text.startswith("-") else ["-l" + text], ["--limit=" + text]][spec["spell"]]
    if sort:
        argv += ["-S", sort] + (["-R"] if spec["reverse"] else [])
    argv += tests
    out = spec["out"]
    env = {}
    rec = None
    if out in ("x", "X"):
        rec = Recorder(ctx)
        env = dict(rec.env)
        argv += ["-" + out, rec.path] + (["{}"] if spec["spell"] else [])
        if out == "x" and len(want) > 40:
            raise Skip()
    elif out == "plain":
        argv.insert(0, "-0")
    elif out == "fields":
        argv = ["-0", "-o", "size,path", "--sep", ":"] + argv
    else:
        argv.insert(0, "--" + out)
    res = ctx.run(argv, root, opt=spec["opt"], env=env, sched=spec["sched"])
    expect_clean(res, argv)
    if out == "plain":
        got = split0(res.out)
    elif out == "fields":
        sizes = {x[0]: x[1] for x in items}
        got = []
        for r in split0(res.out):
            s, path = r.split(":", 1)
            if sizes.get(path) != int(s):
                fail("wrong record", res, argv=argv)
            got.append(path)
    elif out == "json":
        got = [os.path.relpath(r["path"], root) for r in json.loads(res.out)]
    elif out == "jsonl":
        got = [os.path.relpath(json.loads(r)["path"], root) for r in res.out.splitlines()]
    elif out == "x":
        calls = rec.calls()
        if any(len(c) != 1 for c in calls):
            fail("wrong arguments", res, argv=argv, calls=calls)
        got = [c[0] for c in calls]
        # Commands run in parallel.
        got, want = sorted(got), sorted(want)
    else:
        calls = rec.calls()
        if len(calls) != (1 if want else 0):
            fail(f"-X called the command {len(calls)} times", res, argv=argv)
        got = calls[0] if calls else []
    if sort:
        if got != want:
            fail(f"expected the slice [{a}:{b}] of {len(full)} entries", res, argv=argv, expected=want[:20], got=got[:20])
    else:
        if len(got) != len(want) or len(set(got)) != len(got) or not set(got) <= set(full):
            fail(f"expected {len(want)} different entries of {len(full)}", res, argv=argv, got=got[:20])
    ctx.nontrivial = 0 < len(want) < len(full)
    ctx.mark(f"kind:{kind}", f"out:{out}", "sorted" if sort else "unsorted")
    if a < 0 or (b or 0) < 0:
        ctx.mark("negative position")


def page_cases(tier, seed):
    for size in (1, 2, 3, 5, 7, 20) if tier == "quick" else range(1, 22):
        yield {"n": 13, "size": size, "opt": (size + seed) % 2 == 0, "sort": ["path", "name:v"][size % 2]}


def run_pages(ctx, spec):
    """Consecutive pages partition the result."""
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    for i in range(spec["n"]):
        open(os.path.join(root, f"f{i}"), "w").close()
    got = []
    for page in range(spec["n"] // spec["size"] + 2):
        argv = ["--no-cache", "-0", "-S", spec["sort"], "-l", f"{spec['size']},{page}"]
        res = ctx.run(argv, root, opt=spec["opt"])
        expect_clean(res, argv)
        got += split0(res.out)
    res = ctx.run(["--no-cache", "-0", "-S", spec["sort"]], root, opt=spec["opt"])
    if got != split0(res.out):
        fail("pages do not add up to the complete result", res, got=got)
    ctx.nontrivial = True


CHECK = Check(
    "C10",
    [Part("limit", run, strategy, quick=900), Part("pages", run_pages, cases=page_cases, quick=10)],
    rule="Files with unique sort keys, a slice, page or -1 and an output channel; the oracle is Python's slice of the list in reference order.  "
         "Non-trivial: the slice is neither empty nor complete.",
    assumptions=["Calls of -x run in parallel, so their order is not judged."])
