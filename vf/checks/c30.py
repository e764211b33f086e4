"""C30: --fail."""
import json
import os

from hypothesis import strategies as st

from .. import gen, tree
from ..core import Check, Part
from ..lib import JOBS, SCHED, Recorder, expect_clean, fail

TESTS = [[], ["type=f"], ["type=d"], ["name=a"], ["name=no-such-name"], ["size>100M"], ["NOT", "name=no-such-name"], ["name:a", "OR", "type=l"], ["slen>2"], ["slen+=0"], ["srev=zzzz"],
         ["type=f", "type=d"], ["depth>5"], ["empty=yes"], ["NOT", "type=f"], ["NOT", "{{", "name=a", "OR", "NOT", "name=a", "}}"]]
MODES = {
    "text": [], "zero": ["-0"], "fields": ["-o", "path,size"], "sort": ["-S", "path"], "limit": ["-S", "path", "-l:3"], "page": ["-S", "path", "-l2,0"], "one": ["-1"],
    "emptyslice": ["-S", "path", "-l100000:"], "json": ["--json"], "jsonl": ["--jsonl"], "count": ["--count=type"], "countjson": ["--count=size", "--json"], "missing": ["-o", "ext,target"], "all": ["-o", "target", "--all"],
    "exec": ["-x"], "sortexec": ["-S", "path", "-x"], "batch": ["-X"], "sortbatch": ["-S", "path", "-X"], "color": ["--color=always"], "reverse": ["-S", "size,path", "-R"]}


def strategy(tier):
    return st.fixed_dictionaries({
        "tree": tree.nodes(max_size=8), "bulk": st.sampled_from([None, None, [1, 150], [12, 5]]), "test": st.sampled_from(TESTS), "mode": st.sampled_from(sorted(MODES)),
        "filter": st.sampled_from([[], [], ["-H"], ["-d0"], ["-d1-"], ["-e", "type=f"], ["-e", "depth=0"], ["-I"], ["--one-file-system"]]), "dirs": st.sampled_from([[], [], ["-D.", "-D."], ["-D..", "-e", "depth=0"]]),
        "jobs": JOBS, "sched": SCHED, "opt": st.booleans(), "cmd": st.sampled_from(["ok", "ok", "bad"])})


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    tree.build(root, spec["tree"], bulk=spec["bulk"])
    env = gen.plugin_env(ctx, spec["opt"], gen.PLUGIN, "c30")
    dirs = spec["dirs"][:2] if spec["dirs"][:1] == ["-D."] else []
    base = ["--no-cache", f"-j{spec['jobs']}"] + spec["filter"] + dirs
    kw = {"env": env, "opt": spec["opt"]}
    plain = ctx.run(base + ["-0"] + spec["test"], root, **kw)
    expect_clean(plain, base)
    matches = plain.out.count(b"\0")
    mode = spec["mode"]
    argv = base + MODES[mode][:-1] + spec["test"] + MODES[mode][-1:] if mode in ("exec", "sortexec", "batch", "sortbatch") else base + MODES[mode] + spec["test"]
    command = mode in ("exec", "sortexec", "batch", "sortbatch")
    if command:
        argv += ["true" if spec["cmd"] == "ok" else "false"]
    without = ctx.run(argv, root, **kw)
    bad = 3 if command and spec["cmd"] == "bad" and matches else 0
    expect_clean(without, argv, rc=bad)
    argv.insert(0, "--fail")
    res = ctx.run(argv, root, sched=spec["sched"], **kw)
    # There are results, but none of them is shown: both is right.
    hidden = matches and not without.out and not command
    rcs = (0, 1) if hidden else (bad,) if matches else (1,)
    if res.timed_out or res.rc not in rcs:
        fail(f"exit code {res.rc} with --fail, {matches} entries match", res, argv=argv)
    if res.traceback or res.err != without.err and not bad:
        fail("messages differ", res, argv=argv, without=without.err)
    sort = mode in ("sort", "limit", "page", "reverse", "emptyslice", "count", "countjson")
    if mode == "json":
        key = lambda r: sorted(map(str, json.loads(r.out)))
    elif mode == "one":
        key = lambda r: len(r.out) > 0
    elif sort:
        key = lambda r: r.out
    else:
        key = lambda r: sorted(r.out.split(b"\0" if mode == "zero" else b"\n"))
    if key(res) != key(without):
        fail("the output with --fail differs", res, argv=argv, without=without.out[:500])
    ctx.nontrivial = not matches or bool(spec["test"])
    ctx.mark("mode:" + mode, "no results" if not matches else "results")


# ------------------------------------------------------------------ numbers of results and of directories with results

def exact_cases(tier, seed):
    for n in (1, 255, 256, 257, 512) if tier == "quick" else (1, 2, 127, 128, 255, 256, 257, 511, 512, 513, 768, 1024):
        for layout in ("dirs", "flat"):
            for mode in ("text", "jsonl", "exec", "sort"):
                if mode == "exec" and n > 257:
                    continue
                if tier == "quick" and mode in ("jsonl", "sort") and n != 256:
                    continue
                yield {"n": n, "layout": layout, "mode": mode, "jobs": 1 if n % 2 == 0 and mode != "exec" else 4, "opt": (n + seed) % 2 == 0}


def run_exact(ctx, spec):
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    for i in range(spec["n"]):
        d = root
        if spec["layout"] == "dirs":
            d = os.path.join(root, f"d{i}")
            os.mkdir(d)
        open(os.path.join(d, f"f{i}"), "w").close()
    mode = spec["mode"]
    argv = ["--no-cache", "--fail", f"-j{spec['jobs']}"]
    for test, rc in (["type=f"], 0), (["type=p"], 1):
        a = argv + test + ["-x", "true"] if mode == "exec" else argv + MODES[mode] + test
        res = ctx.run(a, root, opt=spec["opt"])
        expect_clean(res, a, rc=rc)
    ctx.nontrivial = True
    ctx.mark("exact number")


CHECK = Check(
    "C30", [Part("fail", run, strategy, quick=450), Part("exact", run_exact, cases=exact_cases, quick=22)],
    rule="Trees, expressions and filters with and without results in all output modes; non-trivial: there is no result or an expression.",
    assumptions=["If entries match but none is shown (empty --limit, missing values) both exit codes are accepted."])
