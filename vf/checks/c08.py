"""C08: exclusion."""
import os
import shutil
import tempfile

from hypothesis import strategies as st

from .. import gen, model, tree
from ..core import Check, Part, Skip, force_rmtree
from ..lib import JOBS, expect_clean, expect_same, fail
from ..tree import split0
from .c01 import break_cycles

EXCLUDE_ATTRS = ["name", "name", "path", "relpath", "ext", "type", "type", "size", "depth", "hidden", "hide", "perm", "empty", "links", "dir", "link",
                 "slen", "sflag", "slist", "vffast.fnum", "fup", "nlen", "srev", "mtime", "exec", "broken"]
ATTRS = [a for a in gen.ATTRS_ALL if a not in ("samedev",)]

range_st = st.one_of(st.tuples(st.just("one"), st.integers(0, 5), st.just(0)), st.tuples(st.just("ab"), st.integers(0, 4), st.integers(0, 3)),
                     st.tuples(st.just("a-"), st.integers(0, 5), st.just(0)), st.tuples(st.just("-b"), st.integers(0, 5), st.just(0)),
                     st.tuples(st.just("ba"), st.integers(0, 3), st.integers(0, 3)))


def strategy(tier):
    return st.fixed_dictionaries({
        "tree": tree.nodes(20 if tier == "thorough" else 15, min_size=4, kinds="dddddffflp", meta=True, sizes=st.sampled_from([0, 1, 2, 100, 1024])),
        "ext": st.lists(tree.node(tree.names(raw=False), kinds="ddff"), max_size=5),
        "extlinks": st.lists(st.integers(0, 12), max_size=3),
        "exclude": st.lists(gen.atom_strategy(EXCLUDE_ATTRS), max_size=3),
        "long": st.lists(st.booleans(), min_size=4, max_size=4),
        "hide": st.sampled_from([False, False, True]),
        "depth": st.one_of(st.none(), st.none(), st.lists(range_st, min_size=1, max_size=3)),
        "onefs": st.sampled_from([None, None, "--one-file-system", "--mount", "--xdev"]),
        "expr": st.one_of(st.none(), gen.expr_strategy(ATTRS, 4)),
        "style": st.lists(st.integers(0, 19), min_size=1, max_size=8),
        "starts": st.sampled_from(["none", "none", "D", "multi", "abs", "ext"]), "pick": st.integers(0, 20),
        "follow": st.sampled_from([False, True]),
        "jobs": JOBS, "opt": st.booleans(), "out": st.sampled_from(["plain", "plain", "sort"]),
    })


def render_range(r):
    kind, a, b = r
    if kind == "one":
        return str(a), lambda d: d == a
    if kind == "ab":
        return f"{a}-{a + b}", lambda d: a <= d <= a + b
    if kind == "ba":
        return f"{a + b}-{a}", lambda d: a <= d <= a + b
    if kind == "a-":
        return f"{a}-", lambda d: d >= a
    return f"-{a}", lambda d: d <= a


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    shm = tempfile.mkdtemp(prefix="vf-c08-", dir="/dev/shm") if os.path.isdir("/dev/shm") else None
    try:
        inner(ctx, spec, root, shm)
    finally:
        if shm:
            force_rmtree(shm)


def inner(ctx, spec, root, shm):
    b = tree.build(root, spec["tree"])
    follow = spec["follow"]
    if follow:
        break_cycles(root)
    if shm:
        tree.build(shm, [dict(n, t="f" if n["t"] == "f" else "d") for n in spec["ext"]])
        for i, d in enumerate(spec["extlinks"]):
            os.symlink(shm, os.path.join(root, b.dirs[d % len(b.dirs)], f"other{i}"))
        if spec["extlinks"] and spec["pick"] % 2:
            # The other file system leads back to this one.
            home = os.path.join(ctx.case, "home")
            tree.build(home, [dict(n, t="f" if n["t"] == "f" else "d") for n in spec["ext"]])
            os.makedirs(os.path.join(home, "vf sub"), exist_ok=True)
            os.symlink(home, os.path.join(shm, "home again"))
    sub = b.dirs[spec["pick"] % len(b.dirs)]
    s = spec["starts"]
    if s == "D" and sub:
        starts = [(sub, os.path.join(root, sub))]
    elif s == "abs":
        p = os.path.join(root, sub).rstrip("/")
        starts = [(p, p)]
    elif s == "multi":
        top = sorted(x for x in b.dirs[1:] if "/" not in x)[:3]
        if not top:
            raise Skip()
        starts = [(x, os.path.join(root, x)) for x in top]
    elif s == "ext" and shm:
        back = os.path.join(root, sub).rstrip("/")
        if follow and not spec["extlinks"]:
            os.symlink(back, os.path.join(shm, "back"))
        starts = [(shm, shm)] + ([(back, back)] if spec["pick"] % 2 else [])
    else:
        starts = [(".", root)]
    argv = ["--no-cache", "-0", f"-j{spec['jobs']}"]
    if not (len(starts) == 1 and starts[0][0] == "."):
        for x, _ in starts:
            argv += ["-D", x]
    es = gen.add_plugin_values(model.entries(starts, follow=follow))
    if len({(e["root"], e["relpath"]) for e in es}) != len(es):
        raise Skip()
    excl = []
    for i, atom in enumerate(spec["exclude"]):
        tok, attr, op, value = gen.resolve(atom, es)
        excl.append((attr, op, value))
        argv += [["-e", tok], [f"--exclude={tok}"]][spec["long"][i]]
    if spec["hide"]:
        argv.append("--hide" if spec["long"][3] else "-H")
    if spec["onefs"]:
        argv.append(spec["onefs"])
    if follow:
        argv.append("-L")
    preds = []
    if spec["depth"]:
        rs = [render_range(r) for r in spec["depth"]]
        argv.append(f"--depth={','.join(t for t, _ in rs)}")
        preds = [p for _, p in rs]
    if spec["out"] == "sort":
        argv += ["-S", "path"]
    toks = gen.Renderer(spec["style"], es).render(spec["expr"]) if spec["expr"] else []
    argv += toks

    def excluded(e):
        if spec["hide"] and e["hide"]:
            return True
        if spec["onefs"] and not e["samedev"]:
            return True
        return any(model.test(e, a, o, v, "smart", gen.KINDS) for a, o, v in excl)
    left = model.prune(es, excluded)
    want = [e["path"] for e in left
            if (not preds or any(p(e["depth"]) for p in preds)) and (not spec["expr"] or gen.evaluate(spec["expr"], e, es, "smart"))]
    res = ctx.run(argv, root, opt=spec["opt"], env=gen.plugin_env(ctx, spec["opt"]))
    expect_clean(res, argv)
    expect_same(split0(res.out), want, res, argv=argv, what="entries that are not excluded")
    ctx.nontrivial = len(want) < len(es) and bool(want) and bool(excl or spec["hide"] or spec["onefs"] or preds)
    ctx.mark(f"-e:{len(excl)}", "-H" if spec["hide"] else "no -H")
    if preds:
        ctx.mark("-d with expression" if spec["expr"] else "-d")
    if spec["onefs"] and any(not e["samedev"] for e in es):
        ctx.mark("other file system excluded")
        if any(e["samedev"] and not excluded(e) for e in es if e not in left):
            ctx.mark("the other file system leads back")
    if len(left) < len(es) and any(not excluded(e) for e in es if e not in left):
        ctx.mark("excluded through a parent directory")


CHECK = Check(
    "C08",
    [Part("exclude", run, strategy, quick=1800)],
    rule="Generated trees (partly on a second file system, reached with -L) and random combinations of -e, -H, -d, --one-file-system and an "
         "expression; the oracle prunes a reference walk.  Non-trivial: something but not everything is left out.",
    assumptions=["A test on an attribute an entry does not have does not exclude it."])
