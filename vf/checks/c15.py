"""C15: -x."""
import itertools
import os

from hypothesis import strategies as st

from .. import gen, model, tree
from ..core import Check, Part, Skip
from ..lib import JOBS, SCHED, Recorder, expect_clean, fail
from . import c11, c12

SPECIAL = {"{}": "path", "{/}": "name", "{//}": "dir", "{.}": "pathx", "{/.}": "namex", "{..}": "ext"}
LITERALS = ["a", "-", "--", "x y", "'", '"', "$HOME", "`id`", "$(id)", "\\", "\\n", "*", "?", "~", ";", "&&", "|", ">", "\n", "\t", " ", "%s", "{",
            "}", "{{", "ä", "\udcff", "-j", "5", "or", "(", ")", "name=x", "--sort", "=", "#", "!", "{/", "/"]
ATTR = st.sampled_from([a for a in c12.ALL if a not in ("device", "inode", "mount")] + ["link", "srev", "target"]).flatmap(
    lambda a: st.tuples(st.just("a"), st.just(a), st.sampled_from(c12.MODS[a]), st.booleans()))
PIECE = st.one_of(st.tuples(st.just("l"), st.sampled_from(LITERALS)), st.tuples(st.just("l"), st.text(max_size=3).filter(lambda s: "\0" not in s and s.isprintable())),
                  st.tuples(st.just("s"), st.sampled_from(sorted(SPECIAL))), st.tuples(st.just("s"), st.just("{}")), ATTR)
TEMPLATE = st.lists(st.one_of(st.lists(PIECE, max_size=3), st.lists(PIECE, min_size=1, max_size=1)), max_size=5)


def nodes(lo=1, hi=9):
    return tree.nodes(min_size=lo, max_size=hi, meta=True, sizes=st.integers(0, 3000), name_st=tree.names(
        extra=["a", "xa", "bc.d", "xx.tar.gz", "-rf", "--help", "x y", "\n", "a\nb", "$x", "{}", "{{}}", "'q'"]))


def strategy(tier):
    return st.fixed_dictionaries({
        "tree": st.one_of(nodes(0), nodes(3)), "template": TEMPLATE,
        "opt_spell": st.sampled_from(["-x", "--exec"]),
        "all": st.sampled_from([False, False, True]), "abs": st.booleans(),
        "test": st.sampled_from([[], [], [], ["type=f"], ["name=nothing-has-this-name"]]),
        "sort": st.sampled_from([None, None, "path", "size", "name:v"]),
        "limit": st.sampled_from([None, None, None, [0, 2], [1, 3]]),
        "fail": st.sampled_from([None, None, None, "a", "x", "."]), "code": st.sampled_from(["1", "2", "3", "4", "127", "255", "kill"]),
        "halt": st.sampled_from([None, None, "never", "soon", "now"]),
        "jobs": JOBS, "opt": st.booleans(), "sched": SCHED, "failopt": st.booleans(),
    })


def render_template(template):
    out = []
    for arg in template:
        s = ""
        for piece in arg:
            if piece[0] == "l":
                s += piece[1].replace("{", "{{").replace("}", "}}")
            elif piece[0] == "s":
                s += piece[1]
            else:
                _, a, m, q = piece
                s += "{" + (c11.full(a) if q else a) + (":" + m if m else "") + "}"
        out.append(s)
    return out


def has_placeholder(arg):
    return any(p[0] != "l" for p in arg)


def expand_arg(arg, e, spec):
    """All acceptable texts for an argument, None if a value is missing."""
    parts = []
    for piece in arg:
        if piece[0] == "l":
            parts.append([piece[1]])
        else:
            a, m = (SPECIAL[piece[1]], "") if piece[0] == "s" else piece[1:3]
            texts = c12.render(e, a, None, m, {"all": spec["all"], "si": False, "tz": "UTC"})
            if texts is None:
                return None
            if m == "h" and a == "path" and e["type"] == "symlink":
                # Only described for the output.
                texts = texts + [e["path"]]
            parts.append(texts)
    return ["".join(p) for p in itertools.product(*parts)]


def expected(template, es, spec):
    """-> list of (entry, list of acceptable argument lists)"""
    args = list(template)
    if not any(has_placeholder(a) for a in args):
        args.append([("s", "{}")])
    out = []
    for e in es:
        lists = [expand_arg(a, e, spec) for a in args]
        if None in lists:
            continue
        out.append([tuple(x) for x in itertools.islice(itertools.product(*lists), 2000)])
    return out


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    tree.build(root, spec["tree"])
    es = c11.extra_values(gen.add_plugin_values(model.entries([(".", root)], absolute=spec["abs"])))
    if spec["test"] == ["type=f"]:
        es = [e for e in es if e["type"] == "file"]
    elif spec["test"]:
        es = []
    template = spec["template"]
    rec = Recorder(ctx)
    env = {**gen.plugin_env(ctx, spec["opt"], c11.PLUGIN, "c11"), **rec.env}
    if spec["fail"]:
        env.update({"VF_FAIL": spec["fail"], "VF_CODE": spec["code"]})
    argv = ["--no-cache", f"-j{spec['jobs']}"] + (["--all"] if spec["all"] else []) + (["-a"] if spec["abs"] else [])
    if spec["halt"]:
        argv.append("--halt=" + spec["halt"])
    limit = spec["limit"] if spec["sort"] == "path" else None
    if spec["sort"]:
        argv += ["-S", spec["sort"]]
    if limit:
        argv += ["-l", f"{limit[0]}:{limit[1]}"]
        key = [("/".join(c.lstrip(".") for c in e["path"].lower().split("/"))) for e in es]
        if len(set(key)) != len(key):
            raise Skip()
        es = [e for _, e in sorted(zip(key, es), key=lambda t: t[0])]
    if spec["failopt"]:
        argv.append("--fail")
    none = not es
    if limit:
        es = es[limit[0]:limit[1]]
    argv += spec["test"] + [spec["opt_spell"], rec.path] + render_template(template)
    res = ctx.run(argv, root, opt=spec["opt"], env=env, sched=spec["sched"])
    want = expected(template, es, spec)
    calls = [tuple(c) for c in rec.calls()]
    halting = spec["halt"] in ("soon", "now")
    failing = [c for c in calls if spec["fail"] and any(spec["fail"] in a for a in c)]
    # (-x with entries that have no values: nothing was run, but there were results.)
    rc = 3 if failing else 1 if spec["failopt"] and none else 0
    expect_clean(res, argv, rc=rc)
    missing, extra = c12.assign(calls, want)
    if extra or (missing and not (halting and failing)):
        fail(f"{len(missing)} calls missing, {len(extra)} unexpected", res, argv=argv, missing=[want[i][0] for i in missing[:4]],
             unexpected=extra[:4], calls=calls[:6])
    if failing and not res.err:
        fail("no message about the failed command", res, argv=argv)
    ctx.nontrivial = len(want) > 1
    ctx.mark("collected" if spec["sort"] else "immediate")
    if failing:
        ctx.mark(f"failure, halt {spec['halt'] or 'never'}")
    if len(want) < len(es):
        ctx.mark("missing value")
    if not any(has_placeholder(a) for a in template):
        ctx.mark("path appended")


# ------------------------------------------------------------------ commands that cannot be started

def error_cases(tier, seed):
    for kind in ("missing", "noexec", "directory", "badformat"):
        for sort in (False, True):
            for n in (0, 1, 5):
                yield {"kind": kind, "sort": sort, "n": n, "opt": (n + seed) % 2 == 0}


def run_error(ctx, spec):
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    for i in range(spec["n"]):
        open(os.path.join(root, f"f{i}"), "w").close()
    cmd = os.path.join(ctx.case, "cmd")
    if spec["kind"] in ("noexec", "badformat"):
        with open(cmd, "wb") as f:
            f.write(b"\x7fELFnothing")
        os.chmod(cmd, 0o644 if spec["kind"] == "noexec" else 0o755)
    elif spec["kind"] == "directory":
        os.mkdir(cmd)
    argv = ["--no-cache", "-j2"] + (["-S", "path"] if spec["sort"] else []) + ["-x", cmd, "{}"]
    res = ctx.run(argv, root, opt=spec["opt"])
    expect_clean(res, argv, rc=3 if spec["n"] else 0)
    if spec["n"] and not res.err:
        fail("no message", res, argv=argv)
    ctx.nontrivial = spec["n"] > 0
    ctx.mark(spec["kind"])


# ------------------------------------------------------------------ many entries, slow commands

def many_cases(tier, seed):
    for i in range(4 if tier == "quick" else 24):
        yield {"n": 60 if i % 2 else 150, "jobs": [1, 3, 8, 16][i % 4], "sort": bool(i & 2), "fail": i % 3 == 0, "opt": (i + seed) % 2 == 0}


def run_many(ctx, spec):
    root = os.path.join(ctx.case, "t")
    for i in range(spec["n"]):
        d = os.path.join(root, f"d{i % 7}")
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, f"f{i}"), "w").close()
    rec = Recorder(ctx)
    env = dict(rec.env)
    if spec["fail"]:
        env.update({"VF_FAIL": "f1", "VF_CODE": "5", "VF_SLEEP": "0.01"})
    argv = ["--no-cache", f"-j{spec['jobs']}"] + (["-S", "path"] if spec["sort"] else []) + ["type=f", "-x", rec.path, "<{/}>"]
    res = ctx.run(argv, root, opt=spec["opt"], env=env)
    expect_clean(res, argv, rc=3 if spec["fail"] else 0)
    got = sorted(c[0] for c in rec.calls())
    if got != sorted(f"<f{i}>" for i in range(spec["n"])):
        fail(f"{len(got)} calls for {spec['n']} entries", res, argv=argv)
    ctx.nontrivial = True


# ------------------------------------------------------------------ numbers of failures

def failures_cases(tier, seed):
    for i, n in enumerate((1, 255, 256, 257) if tier == "quick" else (1, 2, 127, 128, 255, 256, 257, 512, 768)):
        for sort in (False, True):
            for ok in (0, 1):
                yield {"n": n, "ok": ok, "sort": sort, "opt": (i + seed) % 2 == 0}


def run_failures(ctx, spec):
    """All commands fail, or all but one."""
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    for i in range(spec["n"]):
        open(os.path.join(root, f"f{i}"), "w").close()
    for i in range(spec["ok"]):
        open(os.path.join(root, f"ok{i}"), "w").write("x")
    argv = ["--no-cache", "-j4"] + (["-S", "path"] if spec["sort"] else []) + ["type=f", "-x", "test", "-s", "{}"]
    res = ctx.run(argv, root, opt=spec["opt"])
    expect_clean(res, argv, rc=3)
    ctx.nontrivial = True
    ctx.mark("number of failures")


# ------------------------------------------------------------------ entries that are found with pauses

PAUSES = """
import time
from libff.plugin import *

class Vfpause(Plugin):
    attributes = [("ok", Boolean, "always true")]

    def can_handle(self, entry):
        return True

    def process(self, entry, cached):
        if "slow" in entry.name:
            time.sleep(%f)
        yield "ok", True
"""


def pause_cases(tier, seed):
    for i in range(8 if tier == "quick" else 36):
        yield {"dirs": 1 + i % 3, "pause": [1.5, .7, 3][i % 3], "jobs": [1, 2, 4][i // 2 % 3], "x": ["-x", "-x", "-x", "-X"][i % 4], "sort": i % 2 == 1, "arg": i % 3 == 1, "opt": (i + seed) % 2 == 0}


def run_pause(ctx, spec):
    root = os.path.join(ctx.case, "t")
    want = []
    for d in range(spec["dirs"]):
        path = os.path.join(root, *[f"d{k}" for k in range(d + 1)])
        os.makedirs(path)
        for n in ("a", "slow", "b"):
            open(os.path.join(path, n), "w").close()
            want.append(os.path.join(os.path.relpath(path, root), n))
    rec = Recorder(ctx)
    env = {**gen.plugin_env(ctx, spec["opt"], PAUSES % spec["pause"], f"pause{int(spec['pause'] * 10)}"), **rec.env}
    argv = ["--no-cache", f"-j{spec['jobs']}"] + (["-S", "path"] if spec["sort"] else []) + ([] if spec["arg"] else ["vfpause.ok=yes"]) + ["type=f", spec["x"], rec.path]
    argv += ["{}", "{vfpause.ok}"] if spec["arg"] else ["{}"]
    res = ctx.run(argv, root, opt=spec["opt"], env=env)
    expect_clean(res, argv)
    got = sorted(a for c in rec.calls() for a in c if a != "true")
    if got != sorted(want):
        fail(f"commands got {len(got)} entries, {len(want)} were expected", res, argv=argv, got=got[:20])
    ctx.nontrivial = True
    ctx.mark("pauses")


CHECK = Check(
    "C15",
    [Part("exec", run, strategy, quick=800), Part("cannot start", run_error, cases=error_cases, quick=24),
     Part("many", run_many, cases=many_cases, quick=8),
     Part("failures", run_failures, cases=failures_cases, quick=16),
     Part("pauses", run_pause, cases=pause_cases, quick=8)],
    rule="Trees with difficult names, command templates of literals (also shell syntax), placeholders and attributes; a recorder program stores its arguments.  "
         "Non-trivial: more than one call is expected.",
    assumptions=["With --halt soon or now only the calls that were made are judged.",
                 "'{path:h}' of a symbolic link may or may not show its target."])
