"""C16: -X."""
import os

from hypothesis import strategies as st

from .. import gen, model, tree
from ..core import Check, Part, Skip
from ..lib import JOBS, SCHED, Recorder, expect_clean, fail
from . import c11, c15

MARK = [("l", "<"), ("s", "{}"), ("l", ">")]
ARG = st.one_of(st.lists(c15.PIECE, max_size=3), st.lists(c15.PIECE, min_size=1, max_size=1))


def nodes(lo, hi):
    return tree.nodes(min_size=lo, max_size=hi, meta=True, sizes=st.integers(0, 3000), name_st=tree.names(
        extra=["a", "xa", "bc.d", "xx.tar.gz", "-rf", "--help", "x y", "\n", "a\nb", "$x", "{}", "{{}}", "'q'"]))


def strategy(tier):
    return st.fixed_dictionaries({
        "tree": st.one_of(nodes(0, 10), nodes(3, 10), nodes(5, 25)),
        "bulk": st.sampled_from([0, 0, 0, 15, 40]),
        "before": st.lists(ARG, max_size=2), "after": st.lists(ARG, max_size=2), "mark": st.sampled_from([True, True, True, False]),
        "opt_spell": st.sampled_from(["-X", "--exec-batch"]),
        "all": st.sampled_from([False, False, True]), "abs": st.booleans(),
        "test": st.sampled_from([[], [], [], ["type=f"], ["name=nothing-has-this-name"]]),
        "sort": st.sampled_from([None, "path", "size", "mtime"]), "reverse": st.booleans(),
        "limit": st.sampled_from([None, None, None, [0, 2], [1, 7], [3, 3]]),
        # Length of a literal that is put in front of each path, and the limit for arguments.
        "long": st.sampled_from([0, 0, 0, 2000, 9000, 30000, 70000]), "stack": st.sampled_from([None, 1 << 19, 1 << 20]),
        "fail": st.sampled_from([None, None, None, "a", "x", "<"]), "code": st.sampled_from(["1", "2", "4", "127", "255", "kill"]),
        "jobs": JOBS, "opt": st.booleans(), "sched": SCHED, "failopt": st.booleans(),
    })


def path_key(e):
    return "/".join(c.lstrip(".") for c in e["path"].lower().split("/"))


class Order:
    """Matches the recorded calls with a list of entries in a known order."""

    def __init__(self, args, es, spec):
        self.args, self.es, self.spec = args, es, spec
        self.texts = [[c15.expand_arg(a, e, spec) if c15.has_placeholder(a) else None for e in es] for a in args]

    def chunk(self, call, lo, hi):
        """Does the call have the arguments for the entries lo to hi?"""
        i = 0
        for k, a in enumerate(self.args):
            if not c15.has_placeholder(a):
                if i >= len(call) or call[i] != "".join(p[1] for p in a):
                    return False
                i += 1
                continue
            for j in range(lo, hi):
                t = self.texts[k][j]
                if t is None:
                    continue
                if i >= len(call) or call[i] not in t:
                    return False
                i += 1
        return i == len(call)

    def match(self, calls):
        """True if the calls are the complete list, split into consecutive pieces."""
        n = len(self.es)
        states = {0}
        for call in calls:
            states = {hi for lo in states for hi in range(lo + 1, n + 1) if self.chunk(call, lo, hi)}
            if not states:
                return False
        return n in states


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    tree.build(root, spec["tree"], bulk=(1, spec["bulk"]) if spec["bulk"] else None)
    es = c11.extra_values(gen.add_plugin_values(model.entries([(".", root)], absolute=spec["abs"])))
    if spec["test"] == ["type=f"]:
        es = [e for e in es if e["type"] == "file"]
    elif spec["test"]:
        es = []
    spec = dict(spec)
    lit = "L" * spec["long"]
    mark = spec["mark"]
    args = [list(map(tuple, a)) for a in spec["before"]]
    if mark:
        args.append(([("l", lit)] if lit else []) + MARK)
    args += [list(map(tuple, a)) for a in spec["after"]]
    if lit and spec["long"] >= 30000 and len(es) > 30:
        raise Skip()
    rec = Recorder(ctx)
    env = {**gen.plugin_env(ctx, spec["opt"], c11.PLUGIN, "c11"), **rec.env}
    if spec["fail"]:
        env.update({"VF_FAIL": spec["fail"], "VF_CODE": spec["code"]})
    argv = ["--no-cache", f"-j{spec['jobs']}"] + (["--all"] if spec["all"] else []) + (["-a"] if spec["abs"] else [])
    sort = spec["sort"]
    keys = {"path": path_key, "size": lambda e: e["size"], "mtime": lambda e: e["mtime"]}
    if sort:
        argv += ["-S", sort] + (["-R"] if spec["reverse"] else [])
        es = sorted(es, key=keys[sort], reverse=spec["reverse"])
    unique = bool(sort) and all(keys[sort](x) != keys[sort](y) for x, y in zip(es, es[1:]))
    limit = spec["limit"] if unique else None
    if limit:
        argv += ["-l", f"{limit[0]}:{limit[1]}"]
    if spec["failopt"]:
        argv.append("--fail")
    none = not es
    if limit:
        es = es[limit[0]:limit[1]]
    argv += spec["test"] + [spec["opt_spell"], rec.path] + c15.render_template(args)
    rl = {"RLIMIT_STACK": [spec["stack"], 8 << 20]} if spec["stack"] else None
    res = ctx.run(argv, root, opt=spec["opt"], env=env, sched=spec["sched"], rlimits=rl)
    calls = rec.calls()
    full_args = args if any(c15.has_placeholder(a) for a in args) else args + [[("s", "{}")]]
    failing = [c for c in calls if spec["fail"] and any(spec["fail"] in a for a in c)]
    expect_clean(res, argv[:-1], rc=3 if failing else 1 if spec["failopt"] and none else 0)
    if not es:
        if calls:
            fail("the command was run without entries", res, argv=argv)
        ctx.nontrivial = False
        return
    if mark:
        # The order is known from the argument that is different for each entry.
        index = {lit + "<" + e["path"] + ">": i for i, e in enumerate(es)}
        if args.count(args[len(spec["before"])]) > 1:
            raise Skip()
        seen = []
        for c in calls:
            seen += [index[a] for a in c if a in index]
        if sorted(seen) != list(range(len(es))):
            short = [[a[-40:] for a in c] for c in calls]
            fail(f"{len(es)} entries were expected, {len(seen)} were passed, {len(set(seen))} different ones", res, argv=argv[:6], calls=short[:6])
        order = [es[i] for i in seen]
        if sort:
            k = [keys[sort](e) for e in order]
            if k != sorted(k, reverse=spec["reverse"]):
                fail("entries are not in the order of --sort", res, argv=argv[:6], order=[e["path"] for e in order[:20]])
    elif unique:
        order = es
    else:
        order = None
    size = sum(len(os.fsencode(a)) + 9 for c in calls for a in c)
    if order is not None:
        o = Order(full_args, order, spec)
        if not o.match(calls):
            fail("the calls do not add up to the list of entries", res, argv=argv[:6], calls=[[a[-60:] for a in c] for c in calls[:5]],
                 order=[e["path"] for e in order[:20]])
    if len(calls) > 1 and size < 100000:
        fail(f"{len(calls)} calls although everything fits on one command line", res, argv=argv[:6])
    if not calls and order is None:
        fail("the command was not run", res, argv=argv)
    ctx.nontrivial = len(es) > 1
    ctx.mark("one call" if len(calls) == 1 else "2-4 calls" if len(calls) < 5 else "many calls", f"sort:{sort}")
    if failing:
        ctx.mark("failing call")
    if not any(c15.has_placeholder(a) for a in args):
        ctx.mark("path appended")


# ------------------------------------------------------------------ the real limit, errors

def real_cases(tier, seed):
    for i in range(2 if tier == "quick" else 10):
        yield {"kind": "real", "n": 1500 + 700 * i, "dirs": 3, "sort": bool(i % 2), "opt": (i + seed) % 2 == 0, "stack": [None, 1 << 20][i % 2 if i else 1]}
    for i, kind in enumerate(("missing", "noexec", "directory", "badformat", "placeholder", "placeholder2")):
        for n in (0, 1, 5):
            yield {"kind": kind, "n": n, "opt": (i + n + seed) % 2 == 0}


def run_real(ctx, spec):
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    kind = spec["kind"]
    if kind == "real":
        names = []
        for i in range(spec["n"]):
            d = f"d{i % spec['dirs']}"
            os.makedirs(os.path.join(root, d), exist_ok=True)
            p = f"{d}/{'n' * 180}{i}"
            open(os.path.join(root, p), "w").close()
            names.append(p)
        rec = Recorder(ctx)
        argv = ["--no-cache"] + (["-S", "path"] if spec["sort"] else []) + ["type=f", "-X", rec.path, "A", "{}", "B"]
        res = ctx.run(argv, root, opt=spec["opt"], env=rec.env, rlimits={"RLIMIT_STACK": [spec["stack"], 8 << 20]} if spec["stack"] else None)
        expect_clean(res, argv)
        calls = rec.calls()
        got = []
        for c in calls:
            if c[0] != "A" or c[-1] != "B" or len(c) < 3:
                fail("wrong call", res, calls=[c[0], c[-1], len(c)])
            got += c[1:-1]
        if sorted(got) != sorted(names) or (spec["sort"] and got != sorted(names)):
            fail(f"{len(got)} of {len(names)} entries passed", res)
        ctx.mark("one call" if len(calls) == 1 else "2-4 calls" if len(calls) < 5 else "many calls")
        ctx.nontrivial = True
        return
    for i in range(spec["n"]):
        open(os.path.join(root, f"f{i}"), "w").close()
    cmd = os.path.join(ctx.case, "cmd")
    extra = ["{}"]
    rc = 3 if spec["n"] else 0
    if kind in ("noexec", "badformat"):
        with open(cmd, "wb") as f:
            f.write(b"\x7fELFnothing")
        os.chmod(cmd, 0o644 if kind == "noexec" else 0o755)
    elif kind == "directory":
        os.mkdir(cmd)
    elif kind == "placeholder":
        cmd, rc = "{}", 2
    elif kind == "placeholder2":
        cmd, rc = "/bin/{name}", 2
    argv = ["--no-cache", "-j2", "-X", cmd] + extra
    res = ctx.run(argv, root, opt=spec["opt"])
    expect_clean(res, argv, rc=rc)
    if rc and not res.err:
        fail("no message", res, argv=argv)
    ctx.nontrivial = spec["n"] > 0
    ctx.mark(kind)


CHECK = Check(
    "C16",
    [Part("exec-batch", run, strategy, quick=800), Part("limits and errors", run_real, cases=real_cases, quick=24)],
    rule="Trees with difficult names, templates of literals, placeholders and attributes, long arguments and small limits for command lines; a recorder stores the arguments of all calls.  "
         "Non-trivial: more than one entry has to be passed.",
    assumptions=["Without --sort the order is taken from the calls; all placeholders of the template have to be in the same order."])
