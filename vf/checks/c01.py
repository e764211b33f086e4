"""C01: the search finds every entry exactly once."""
import json
import os
import random
import stat

from hypothesis import strategies as st

from .. import gen, tree
from ..core import Check, Part, Skip
from ..lib import JOBS, SCHED, expect_clean, expect_same, fail
from ..tree import split0

STARTS = ["none", "dot", "abs", "pos", "posdot", "posend", "D", "Dup", "Dabs", "multi", "multipos", "Ddup"]


def strategy(tier):
    return st.fixed_dictionaries({
        "tree": tree.nodes(24 if tier == "thorough" else 18, min_size=3, kinds="ddddfffflps"),
        "start": st.sampled_from(STARTS), "loops": st.lists(st.integers(0, 9), max_size=4), "sibling": st.booleans(),
        "pick": st.integers(0, 20),
        "jobs": JOBS,
        "opt": st.booleans(),
        "abs": st.sampled_from([False, False, True]),
        "follow": st.sampled_from([False, False, True]),
        "out": st.sampled_from(["plain", "plain", "sort", "json", "jsonl", "slow", "limit", "lines"]),
        "cold": st.sampled_from([False] * 19 + [True]),
        "sched": SCHED,
    })


def bulk_strategy(tier):
    return st.fixed_dictionaries({
        "tree": tree.nodes(6, kinds="ddf"),
        "bulk": st.tuples(st.sampled_from([1, 8, 11, 60, 99, 101, 130, 230]),
                          st.sampled_from([0, 1, 2, 5, 12])),
        "flat": st.sampled_from([0, 9, 10, 11, 12, 50, 99, 100, 101, 199, 200, 201, 350]),
        "flatdirs": st.booleans(),
        "start": st.sampled_from(["none", "pos", "multi"]),
        "pick": st.integers(0, 20),
        "jobs": st.sampled_from([1, 2, 3, 8, 8]),
        "opt": st.booleans(),
        "abs": st.just(False),
        "follow": st.booleans(),
        "out": st.sampled_from(["plain", "sort", "json", "jsonl", "slow", "sleep", "sleep", "slowsort"]),
        "cold": st.just(False),
        "sched": SCHED,
    })


def break_cycles(root):
    """Remove symbolic links that would make a search that follows links infinite."""
    for _ in range(40):
        bad = None

        def rec(path, ancestors, depth):
            nonlocal bad
            if bad:
                return
            try:
                entries = sorted(os.scandir(path), key=lambda e: e.name)
            except OSError:
                return
            for e in entries:
                if bad:
                    return
                try:
                    s = os.stat(e.path)
                except OSError:
                    continue
                if stat.S_ISDIR(s.st_mode):
                    key = (s.st_dev, s.st_ino)
                    rp = os.path.realpath(e.path)
                    inside = os.path.realpath(root)
                    if e.is_symlink() and (key in ancestors or depth > 12
                                           or not (rp + "/").startswith(inside + "/")):
                        bad = e.path
                        return
                    rec(e.path, ancestors | {key}, depth + 1)
        s = os.stat(root)
        rec(root, frozenset([(s.st_dev, s.st_ino)]), 0)
        if bad is None:
            return
        os.unlink(bad)
    raise Skip()


def start_multi(spec):
    return spec["start"] not in ("none", "dot", "abs", "Dabs", "pos", "posdot", "posend", "D", "Dup")


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    b = tree.build(root, spec["tree"], spec.get("bulk"))
    for i in range(spec.get("flat", 0)):
        if spec.get("flatdirs"):
            os.mkdir(os.path.join(root, f"flat{i}"))
        else:
            os.close(os.open(os.path.join(root, f"flat{i}"), os.O_CREAT | os.O_WRONLY))
    follow = spec["follow"]
    if follow:
        break_cycles(root)
        for i, d in enumerate(spec.get("loops", ())):
            # Links that lead nowhere, next to other entries.
            path = os.path.join(root, b.dirs[d % len(b.dirs)], f"loop{i}")
            if not os.path.lexists(path):
                os.symlink(os.path.basename(path) if i % 3 < 2 else path + "/x", path)
    if spec.get("sibling") and start_multi(spec):
        # Directories with a name that begins with the name of another one.
        for e in sorted(os.scandir(root), key=lambda e: e.name)[:2]:
            if e.is_dir(follow_symlinks=False) and len(os.fsencode(e.name)) < 200:
                new = e.path + ("x", " ", ".d", "-")[spec["pick"] % 4]
                if not os.path.lexists(new):
                    os.mkdir(new)
                    open(new + "/in sibling", "w").close()
    topdirs = sorted(e.name for e in os.scandir(root) if e.is_dir(follow_symlinks=False))
    alldirs = [""] + [r for r in b.dirs[1:]]
    pick = spec["pick"]
    start = spec["start"]
    args, tail = [], []
    cwd = root
    # (spelling used by ff as the root, real directory)
    if start == "none":
        starts = [(".", root)]
    elif start == "dot":
        args, starts = ["-D", "."], [(".", root)]
    elif start in ("abs", "Dabs"):
        d = os.path.join(root, alldirs[pick % len(alldirs)]).rstrip("/")
        starts = [(d, d)]
        if start == "abs":
            tail = [d]
        else:
            args = ["-D", d]
        cwd = "/"
    elif start in ("pos", "posdot", "posend", "D", "Dup"):
        rel = alldirs[pick % len(alldirs)]
        real = os.path.join(root, rel).rstrip("/")
        if start == "Dup":
            cwd = os.path.join(ctx.case, "other")
            os.mkdir(cwd)
            d = os.path.join("../t", rel) if rel else "../t"
            args, starts = ["-D", d], [(d, real)]
        elif start == "D":
            d = rel or "."
            args, starts = ["-D", d], [(d, real)]
        else:
            d = "./" + rel if rel else "./"
            starts = [(os.path.normpath(d), real)]
            if start == "posend":
                tail = ["depth+=0", d]
            elif start == "posdot":
                tail = [d.rstrip("/") + "/", "depth+=0"]
            else:
                tail = [d]
    else:
        if not topdirs:
            starts = [(".", root)]
        else:
            k = 1 + pick % 3
            sel = (topdirs * 2)[pick % len(topdirs):][:min(k, len(topdirs))]
            sel = list(dict.fromkeys(sel))
            if start == "multi":
                for d in sel:
                    args += ["-D", d]
                starts = [(d, os.path.join(root, d)) for d in sel]
            elif start == "Ddup":
                args = ["-D", sel[0], "-D", sel[0]]
                starts = None
            else:
                tail = ["./" + d for d in sel]
                starts = [(os.path.normpath("./" + d), os.path.join(root, d)) for d in sel]
    if starts is None:
        # The same directory twice: not documented, only the set of results is.
        starts = [(sel[0], os.path.join(root, sel[0]))]
        as_set = True
    else:
        as_set = False

    out = spec["out"]
    absolute = spec["abs"] or out in ("json", "jsonl")
    want = []
    for spelled, real in starts:
        prefix = real if absolute else ("" if spelled == "." else spelled)
        if spelled == "/":
            prefix = "/"
        for rel, _ in tree.walk(real, follow=follow):
            want.append((prefix.rstrip("/") + "/" if prefix else "") + rel)

    argv = ["--no-cache", f"-j{spec['jobs']}"] + args
    if spec["abs"]:
        argv.append("-a")
    if follow:
        argv.append("-L")
    env = None
    if out == "sleep":
        # A plugin that takes a millisecond per entry: the walkers share the entries of a directory.
        from . import c02
        env = gen.plugin_env(ctx, spec["opt"], c02.SLOW_PLUGIN, "sleep")
        env["VF_SLEEP"] = "0.001"
        argv += ["-e", "zlen=99999", "-0"]
    elif out == "slow":
        argv += ["-e", "ignored=yes", "-0"]
    elif out == "slowsort":
        argv += ["-I", "-0", "-S", "path"]
    elif out == "sort":
        argv += ["-0", "-S", "path"]
    elif out == "limit":
        argv += ["-0", "-l", ":"]
    elif out == "json":
        argv.append("--json")
    elif out == "jsonl":
        argv.append("--jsonl")
    elif out == "plain":
        argv.append("-0")
    argv += tail
    res = ctx.run(argv, cwd, opt=spec["opt"], cold=spec["cold"], sched=spec["sched"], env=env)
    expect_clean(res, argv)
    if out == "json":
        try:
            got = [r["path"] for r in json.loads(res.out)]
        except ValueError:
            fail("--json output is not JSON", res, argv=argv)
    elif out == "jsonl":
        try:
            got = [json.loads(x)["path"] for x in res.out.splitlines()]
        except ValueError:
            fail("--jsonl output is not JSON lines", res, argv=argv)
    elif out == "lines":
        # Names that contain newlines cannot be told apart here, compare the bytes.
        got = sorted(res.out.split(b"\n"))
        want_lines = sorted(b"".join(os.fsencode(w) + b"\n" for w in want).split(b"\n"))
        if as_set:
            got, want_lines = sorted(set(got)), sorted(set(want_lines))
        expect_same([os.fsdecode(g) for g in got], [os.fsdecode(w) for w in want_lines], res, argv=argv,
                    what="output lines")
        got = want
    else:
        got = split0(res.out)
    if as_set:
        got, want = set(got), set(want)
    expect_same(got, want, res, what="found entries", argv=argv, cwd=cwd)
    ctx.nontrivial = len(want) >= 2
    ctx.mark(f"start:{start}", f"out:{out}", f"jobs:{spec['jobs']}", "follow" if follow else "nofollow")
    if spec["sched"]:
        ctx.mark("perturbed schedule")
    if len(want) > 100:
        ctx.mark("more than 100 entries")
    if any(os.fsencode(w) != w.encode("utf-8", "replace") for w in want):
        ctx.mark("undecodable name")


# ---------------------------------------------------------------- unreadable directories

def perm_strategy(tier):
    return st.fixed_dictionaries({
        "tree": tree.nodes(14, kinds="dddddfffl", name_st=tree.names(raw=False)),
        "bad": st.lists(st.tuples(st.integers(0, 20), st.sampled_from([0o000, 0o444, 0o111, 0o555, 0o644])),
                        min_size=1, max_size=4),
        "jobs": JOBS,
        "opt": st.booleans(),
        "out": st.sampled_from(["plain", "sort"]),
    })


def run_perm(ctx, spec):
    """ff runs as an unprivileged user in a tree with directories it may not list or enter."""
    root = os.path.join(ctx.case, "t")
    b = tree.build(root, spec["tree"])
    changed = 0
    dirs = b.dirs[1:]
    if not dirs:
        raise Skip()
    for i, mode in spec["bad"]:
        os.chmod(os.path.join(root, dirs[i % len(dirs)]), mode)
        changed += 1
    # The reference walk, as the same user.
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
            data = json.dumps([p for p, _ in tree.walk(root)]).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        want = json.loads(f.read())
    os.waitpid(pid, 0)
    argv = ["-0", "--no-cache", f"-j{spec['jobs']}"] + (["-S"] if spec["out"] == "sort" else [])
    res = ctx.run(argv, root, opt=spec["opt"], uid=65534)
    expect_clean(res, argv)
    expect_same(split0(res.out), want, res, what="entries found by an unprivileged user", argv=argv)
    ctx.nontrivial = changed > 0 and len(want) >= 2
    ctx.mark("unprivileged user")


# ---------------------------------------------------------------- deep and long paths

def deep_cases(tier, seed):
    rng = random.Random(seed)
    for depth in (1, 15, 40, 90) if tier == "quick" else (1, 5, 15, 30, 60, 90, 150, 200):
        for width in (1, 3):
            for jobs in (1, 4):
                yield {"depth": depth, "width": width, "jobs": jobs, "opt": rng.random() < .5,
                       "name": rng.choice(["d", "é", "long" * 4])}


def run_deep(ctx, spec):
    root = os.path.join(ctx.case, "t")
    path = root
    os.mkdir(path)
    want = []
    rel = ""
    for i in range(spec["depth"]):
        for j in range(spec["width"]):
            name = f"{spec['name']}{j}"
            if len(os.fsencode(path)) + 80 > 4000:
                break
            os.mkdir(os.path.join(path, name))
            want.append(os.path.join(rel, name))
        else:
            path = os.path.join(path, name)
            rel = os.path.join(rel, name)
            continue
        break
    argv = ["-0", "--no-cache", f"-j{spec['jobs']}"]
    res = ctx.run(argv, root, opt=spec["opt"])
    expect_clean(res, argv)
    expect_same(split0(res.out), want, res, argv=argv)
    ctx.nontrivial = True
    ctx.mark("deep tree")


CHECK = Check(
    "C01",
    [Part("tree", run, strategy, quick=1500),
     Part("bulk", run, bulk_strategy, quick=220),
     Part("unprivileged", run_perm, perm_strategy, quick=250),
     Part("deep", run_deep, cases=deep_cases, quick=16)],
    rule="A case is a generated directory tree plus a way to ask for all of it (start directories, "
         "spelling, -j, -a, -L, output channel, schedule perturbation); the oracle is a recursive "
         "os.listdir walk.  Non-trivial: at least two entries are expected.",
    assumptions=["The tree does not change while it is searched.",
                 "Schedules are perturbed at inter-process communication points; they are sampled, not enumerated."])
