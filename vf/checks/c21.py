"""C21: file references."""
import os
import re

from hypothesis import strategies as st

from .. import gen, model, tree
from ..core import Check, Part, Skip
from ..lib import JOBS, SCHED, expect_clean, expect_same, fail
from ..tree import split0
from . import c11, c20
from .c01 import break_cycles

GROUPS = {
    "string": ["name", "name", "ext", "path", "relpath", "dir", "pathx", "namex", "user", "group", "link", "target", "root", "srev", "fup", "word"],
    "number": ["size", "size", "mtime", "mtime", "ctime", "time", "links", "uid", "gid", "depth", "inode", "device", "slen", "fnum", "nlen", "nsize", "dur", "big"],
    "mode": ["mode", "perm", "nmode"],
    "bool": ["exec", "hide", "hidden", "empty", "broken", "samedev", "sflag", "mount"],
    "type": ["type"],
    "list": ["slist"],
}
OPS = {"string": ["=", ":", "~", "%"], "number": ["=", "+=", "-=", "+", "-", ">=", "<=", ">", "<"], "mode": ["=", ":", "~"], "bool": ["="], "type": ["="],
       "list": ["=", ":", "~"]}
# What depends on the start directory (or on the spelling of the path) is not claimed for files outside of the start directories.
ANYWHERE = {"name", "ext", "namex", "user", "group", "link", "srev", "fup", "word", "size", "mtime", "ctime", "time", "links", "uid", "gid", "inode", "device", "slen", "fnum",
            "nsize", "dur", "big", "mode", "perm", "nmode", "exec", "hide", "empty", "broken", "sflag", "type", "slist"}


def strategy(tier):
    n = tree.node(tree.names(extra=["a", "b", "a.b", "Foo.c", "foo.c"]), kinds="dddffffflps", meta=True,
                  sizes=st.one_of(st.sampled_from([0, 0, 1, 2, 3, 1024]), st.integers(0, 2 ** 40)))
    ref = st.fixed_dictionaries({
        "g": st.sampled_from(["string", "string", "number", "number", "mode", "bool", "type", "list"]),
        "a": st.integers(0, 40), "o": st.one_of(st.none(), st.integers(0, 40)), "cross": st.sampled_from([None] * 9 + [0, 1, 2, 3, 4]),
        "op": st.integers(0, 8), "file": st.integers(0, 30), "where": st.sampled_from(["in", "in", "in", "in", "out", "missing"]),
        "spell": st.sampled_from(["plain", "plain", "dot", "abs", "abs", "dotdot", "slashes"]),
        "q": st.booleans(), "space": st.booleans(),
    })
    return st.fixed_dictionaries({
        "tree": st.lists(n, min_size=2, max_size=14), "out": st.lists(n, min_size=1, max_size=4),
        "start": st.sampled_from(c20.STARTS), "pick": st.integers(0, 20),
        "abs": st.sampled_from([False, False, True]), "follow": st.sampled_from([False, False, False, True]),
        "refs": st.lists(ref, min_size=1, max_size=3),
        "ctx": st.sampled_from(["test", "test", "test", "not", "exclude", "or", "brackets"]),
        "case": st.sampled_from(["smart", "smart", "ignore", "sensitive"]),
        "json": st.sampled_from([False, False, True]),
        "jobs": JOBS, "opt": st.booleans(), "sched": SCHED,
    })


def literal(attr, op, value):
    """The literal text of a value, if there is one that is not ambiguous."""
    if attr in GROUPS["string"]:
        return value if gen.acceptable(value) and not value[0].isspace() else None
    if attr in ("mtime", "ctime", "time"):
        return None
    if attr in GROUPS["mode"]:
        return f"{value & 0o7777:o}"
    if attr in GROUPS["bool"]:
        return "yes" if value else "no"
    return str(value)


def spell(how, path, cwd):
    """Another spelling of a path."""
    if how == "abs":
        return os.path.join(cwd, path)
    if how == "dotdot":
        d = os.path.dirname(path)
        full = os.path.join(cwd, d)
        real = os.path.realpath(full)
        if d not in ("", "/") and real == os.path.normpath(full) and ".." not in d.split("/"):
            return os.path.join(d, "..", os.path.basename(real), os.path.basename(path))
        return path
    if how == "slashes":
        return path.replace("/", "//") if not path.startswith("/") else "/" + path[1:].replace("/", "//")
    if how == "dot" and not path.startswith("/"):
        return "./" + path
    return path


def build(ctx, spec):
    base = os.path.join(ctx.case, "w")
    os.mkdir(base)
    root = os.path.join(base, "t")
    b = tree.build(root, spec["tree"])
    tree.build(os.path.join(base, "outside"), spec["out"])
    if spec["follow"]:
        for d in (root, os.path.join(base, "outside")):
            break_cycles(d)
            for p, dirs, files in os.walk(d):
                for n in dirs + files:
                    q = os.path.join(p, n)
                    if os.path.islink(q) and not os.path.exists(q):
                        os.unlink(q)
        b.dirs = [""] + [d for d in b.dirs[1:] if os.path.isdir(os.path.join(root, d))]
    args, starts, cwd = c20.start_of(spec, root, b, ctx.case)
    return base, args, starts, cwd


def extra(es):
    return c11.extra_values(gen.add_plugin_values(es))


def run(ctx, spec):
    base, args, starts, cwd = build(ctx, spec)
    absolute = spec["abs"] or spec["json"]
    es = []
    for spelled, real in starts:
        # (Neither the temporary directory nor the start directories need a normalization.)
        x = model.entries([(spelled, real)], follow=spec["follow"], absolute=absolute)
        for e in x:
            e["_spelled"], e["_real"] = spelled, real
        es += x
    extra(es)
    orel = os.path.join(base, "outside")
    outside = extra(model.entries([(orel, orel)], follow=spec["follow"]))
    if not es:
        raise Skip()
    env = gen.plugin_env(ctx, spec["opt"], c11.PLUGIN, "c11")

    tokens, lits, preds, error = [], [], [], None
    judged = True
    for r in spec["refs"]:
        g = r["g"]
        attr = GROUPS[g][r["a"] % len(GROUPS[g])]
        if r["cross"] is not None:
            og = sorted(set(GROUPS) - {g})[r["cross"] % 5]
        else:
            og = g
        other = attr if r["o"] is None and og == g else GROUPS[og][(r["o"] or 0) % len(GROUPS[og])]
        op = OPS[g][r["op"] % len(OPS[g])]
        if r["where"] == "missing":
            path = "no/such/file"
            value = None
            error = (2,)
        elif r["where"] == "out" and outside:
            if other not in ANYWHERE and og == g:
                other = {"string": "name", "number": "size", "bool": "exec"}[g]
            o = outside[r["file"] % len(outside)]
            path = os.path.relpath(o["path"], cwd)
            value = o.get(other)
        else:
            o = es[r["file"] % len(es)]
            path = o["relpath"] if o["_spelled"] == "." else os.path.join(o["_spelled"], o["relpath"])
            value = o.get(other)
        if "hidden" in (attr, other) and spec["start"] == "up":
            raise Skip()
        path = spell(r["spell"], path, cwd)
        if path[0].isspace():
            path = "./" + path
        sp = " " if r["space"] else ""
        name = gen_name(attr) if r["q"] else attr
        if other == attr and r["o"] is None:
            ref = "{}"
        else:
            ref = "{" + (gen_name(other) if r["q"] else other) + "}"
        tokens.append(f"{name}{sp}{op}{ref}{path}")
        if og != g or g == "list":
            error = (2, 12)
        elif value is None and error is None:
            error = (2, 12)
        if error:
            continue
        if op == "~" and g == "string":
            try:
                re.compile(value, re.I)
            except (re.error, OverflowError, RecursionError):
                error = (12, 2)
                continue
        if op == "%":
            judged = False
        lit = literal(attr, op, value)
        lits.append(None if lit is None else f"{name}{sp}{op}{lit}")
        preds.append((attr, op, value))

    def wrap(tests):
        c = spec["ctx"]
        if c == "test":
            return tests
        if c == "not":
            return ["NOT", "("] + tests + [")"]
        if c == "or":
            return [x for i, t in enumerate(tests) for x in (["or", t] if i else [t])]
        if c == "brackets":
            return ["{{", "type=d", "or", "type+=0" if False else "size+=0", "}}", "(", "("] + tests + [")", ")"]
        return [x for t in tests for x in ("-e", t)]

    argv = ["--no-cache", f"-j{spec['jobs']}", "--case", spec["case"]]
    if spec["abs"]:
        argv.append("-a")
    if spec["follow"]:
        argv.append("-L")
    argv += ["--jsonl"] if spec["json"] else ["-0"]
    full = argv + wrap(tokens) + args
    kw = {"opt": spec["opt"], "env": env}
    res = ctx.run(full, cwd, sched=spec["sched"], **kw)
    if error:
        if res.timed_out or res.rc not in error or res.out or res.traceback or not res.err:
            fail(f"an unusable reference was not rejected (exit code {res.rc}, expected one of {error})", res, argv=full)
        ctx.mark("error")
        return
    expect_clean(res, full)
    got = paths(spec, res)
    if judged:
        truth = [[model.test(e, a, op, v, spec["case"], gen.KINDS | {"dur": "number", "big": "number", "word": "string"}) for a, op, v in preds] for e in es]
        c = spec["ctx"]
        if c == "exclude":
            marked = {id(e): any(t) for e, t in zip(es, truth)}
            sel = model.prune(es, lambda e: marked[id(e)])
        else:
            sel = [e for e, t in zip(es, truth) if (any(t) if c == "or" else not all(t) if c == "not" else all(t))]
        expect_same(got, [e["path"] for e in sel], res, "selected entries", argv=full, values=[repr(p) for p in preds])
    if all(x is not None for x in lits):
        av = argv + wrap(lits) + args
        res2 = ctx.run(av, cwd, **kw)
        expect_clean(res2, av)
        expect_same(got, paths(spec, res2), res, "entries selected with the reference and with the value", argv=full, argv2=av)
        ctx.mark("literal")
    ctx.nontrivial = bool(got) and len(got) < len(es)
    ctx.mark(spec["ctx"], *["judged" if judged else "glob"], *[f"{r['where']}" for r in spec["refs"]])


def gen_name(attr):
    return c11.full(attr)


def paths(spec, res):
    if spec["json"]:
        import json
        return [json.loads(x)["path"] for x in res.out.splitlines()]
    return split0(res.out)


CHECK = Check(
    "C21",
    [Part("references", run, strategy, quick=1800)],
    rule="One to three tests (plain, negated, in brackets, alternatives or exclusions) with references to files inside or outside of the start directories in several spellings, all attributes and operators, also those of plugins; "
         "the selected entries against the model with the value of the referenced file, and against the test with the value written out; unusable references (missing files or values, other types, lists) must be rejected; "
         "non-trivial: some entries are selected, but not all.",
    assumptions=["For files outside of the start directories only attributes that do not depend on a start directory are judged.", "The operator % is judged only by comparison with the literal pattern.",
                 "A reference without a value (e.g. the link of a regular file) and lists are rejected with exit code 2 or 12."])
