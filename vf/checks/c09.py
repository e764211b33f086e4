"""C09: sorting."""
import os
import re

from hypothesis import strategies as st

from .. import gen, model, tree
from ..core import Check, Part, Skip
from ..lib import JOBS, SCHED, expect_clean, expect_same, fail
from ..tree import split0

ATTRS = ["path", "path", "name", "name", "ext", "size", "size", "mtime", "depth", "type", "perm", "hidden", "exec", "dir", "relpath", "namex", "pathx",
         "link", "target", "user", "links", "inode", "empty", "mode", "root", "uid", "slen", "srev", "sflag", "slist", "vffast.fnum", "fup", "nlen", "nmode", "nsize"]
EXTRA = ["file1", "file2", "file10", "File2", "file01", "v1.2", "v1.10", "v1.9.tar.gz", "v1.10.tar.gz", "1", "2", "10", "01", "1a", "a1b2", "a1b10", "+x", "-x", "_", "a-1", "a-10",
         ".file3", "..a", ".B", "b", "a.1", "a.b.1", "1.a", "x.10y", "٣", "x٣", "²", "1²", "a.٣b", "b.", "b..", ".b.", "v100000000000000000002", "v100000000000000000011", "v100000000000000000003.x"]


def sort_st():
    return st.lists(st.tuples(st.sampled_from(ATTRS), st.sampled_from(["", "", "", "v"]), st.booleans()), min_size=1, max_size=4)


def strategy(tier):
    return st.fixed_dictionaries({
        "tree": tree.nodes(20 if tier == "thorough" else 16, min_size=3, kinds="ddfffflp", meta=True, name_st=tree.names(extra=EXTRA),
                           sizes=st.sampled_from([0, 1, 2, 10, 100, 1024])),
        "sort": st.one_of(st.none(), sort_st(), sort_st(), sort_st()),
        "reverse": st.booleans(),
        "spell": st.integers(0, 5),
        "start": st.sampled_from(["none", "none", "abs", "multi"]),
        "all": st.booleans(),
        "jobs": JOBS, "opt": st.booleans(), "sched": SCHED,
    })


def path_key(v):
    return "/".join(c.lstrip(".") for c in v.lower().split("/"))


def key_of(e, attr):
    kind = gen.KINDS[attr]
    if attr not in e:
        return {"string": "", "path": "", "type": "", "list": [], "bool": False}.get(kind, 0)
    v = e[attr]
    if kind == "path":
        return path_key(v)
    if kind == "string":
        return v.lower()
    return v


def natural_pair(a, b):
    """-1, 0, 1 if the natural order of the two names is obvious, otherwise None: the names consist
    of the same ASCII letters and separators, but of different numbers."""
    rx = r"[a-z]*(?:[-_.]?[0-9]+)+(?:[-_][a-z]+)?(?:\.[a-z]+)*"
    a, b = (x.lower().lstrip(".") for x in (a, b))
    if not re.fullmatch(rx, a) or not re.fullmatch(rx, b):
        return None
    if re.sub("[0-9]+", "0", a) != re.sub("[0-9]+", "0", b):
        return None
    ka, kb = ([int(x) for x in re.findall("[0-9]+", s)] for s in (a, b))
    return (ka > kb) - (ka < kb)


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    b = tree.build(root, spec["tree"])
    if spec["start"] == "abs":
        starts, args = [(root, root)], ["-D", root]
    elif spec["start"] == "multi":
        top = sorted(x for x in b.dirs[1:] if "/" not in x)[:3]
        if not top:
            raise Skip()
        starts, args = [(x, os.path.join(root, x)) for x in top], [y for x in top for y in ("-D", x)]
    else:
        starts, args = [(".", root)], []
    es = gen.add_plugin_values(model.entries(starts))
    by_path = {e["path"]: e for e in es}
    argv = ["--no-cache", "-0", f"-j{spec['jobs']}"] + args
    if spec["sort"] is None:
        sort = [("path", "", False)]
    else:
        sort = spec["sort"]
        words = []
        for attr, mod, full in sort:
            name = "file." + attr if full and attr in model.KIND else attr
            words.append(name + (":" + mod if mod else ""))
        lst = (",", ", ")[spec["spell"] % 2].join(words)
        argv += [["-S", lst], ["--sort", lst], ["--sort=" + lst]][spec["spell"] % 3]
    if spec["reverse"]:
        argv.append(["-R", "--reverse"][spec["spell"] % 2])
    if spec["sort"] is None:
        argv.append(["-S", "--sort"][spec["spell"] % 2])
    res = ctx.run(argv, root, opt=spec["opt"], env=gen.plugin_env(ctx, spec["opt"]), sched=spec["sched"])
    expect_clean(res, argv)
    got = split0(res.out)
    expect_same(got, list(by_path), res, argv=argv, what="sorted entries")
    # The keys up to the first one with the modifier v have to be in order.
    plain = []
    for attr, mod, _ in sort:
        if mod == "v" and gen.KINDS[attr] in ("string", "path", "type"):
            break
        plain.append(attr)
    order = [by_path[p] for p in got]
    if spec["reverse"]:
        order.reverse()
    keys = [[key_of(e, a) for a in plain] for e in order]
    for x, y, k, l in zip(order, order[1:], keys, keys[1:]):
        if k > l:
            fail(f"wrong order: {x['path']!r} and {y['path']!r} ({k!r} > {l!r})", res, argv=argv)
    # Natural order within groups of equal previous keys.
    if len(plain) < len(sort):
        attr = sort[len(plain)][0]
        if attr in ("name", "path", "relpath"):
            check_natural(order, keys, attr, res, argv)
            ctx.mark("natural order")
        nat = [(i, e) for i, e in enumerate(order) if attr not in e or e[attr] == ""]
        if nat:
            # Empty and missing values come first within their group.
            for i, e in enumerate(order[:-1]):
                n = order[i + 1]
                if keys[i] == keys[i + 1] and e.get(attr, "").lstrip("./") != "" and n.get(attr, "") == "":
                    fail(f"the entry {n['path']!r} without a value for {attr} comes after {e['path']!r}", res, argv=argv)
            ctx.mark("natural order with missing values")
    ctx.nontrivial = len(es) >= 3
    ctx.mark(f"keys:{len(sort)}", "reverse" if spec["reverse"] else "forward")
    if any(attr not in e for attr, _, _ in sort for e in es):
        ctx.mark("missing values")


def check_natural(order, keys, attr, res, argv):
    for i, x in enumerate(order):
        for j in range(i + 1, len(order)):
            y = order[j]
            if keys[i] != keys[j]:
                break
            if attr != "name" and x["dir"] != y["dir"]:
                continue
            if natural_pair(x["name"], y["name"]) == 1:
                fail(f"wrong natural order: {x['path']!r} and {y['path']!r}", res, argv=argv)


# ---------------------------------------------------------------- natural order of numbered names

def natural_strategy(tier):
    return st.fixed_dictionaries({
        "stem": st.sampled_from(["file", "", "v", "IMG_", "a-", "img", "x"]),
        "sep": st.sampled_from([".", "-", "_"]),
        "numbers": st.lists(st.lists(st.one_of(st.integers(0, 30), st.integers(0, 10 ** 12)), min_size=1, max_size=4), min_size=2, max_size=25),
        "ext": st.sampled_from(["", ".txt", ".tar.gz", ".JPG", "-rc"]),
        "zeros": st.integers(0, 3), "dirs": st.booleans(),
        "attr": st.sampled_from(["name", "path", "relpath"]), "reverse": st.booleans(), "jobs": JOBS, "opt": st.booleans(),
    })


def run_natural(ctx, spec):
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    n = len(spec["numbers"][0])
    names = set()
    for i, nums in enumerate(spec["numbers"]):
        nums = (nums * n)[:n]
        name = spec["stem"] + spec["sep"].join("0" * (spec["zeros"] * (i % 2)) + str(x) for x in nums) + spec["ext"]
        if spec["ext"] == "" and spec["sep"] == "." and False:
            continue
        names.add(name)
    for name in names:
        if spec["dirs"]:
            os.makedirs(os.path.join(root, name))
        else:
            open(os.path.join(root, name), "w").close()
    argv = ["--no-cache", "-0", f"-j{spec['jobs']}", "-S", spec["attr"] + ":v"] + (["-R"] if spec["reverse"] else [])
    res = ctx.run(argv, root, opt=spec["opt"])
    expect_clean(res, argv)
    got = split0(res.out)
    expect_same(got, list(names), res, argv=argv)
    keys = [[int(x) for x in re.findall("[0-9]+", g)] for g in got]
    if spec["reverse"]:
        keys.reverse()
    if keys != sorted(keys):
        fail("numbers inside of names are not ordered by value", res, argv=argv)
    ctx.nontrivial = len(names) >= 2
    ctx.mark("numbered names")


# ---------------------------------------------------------------- numbers, extensions and directories side by side

PIECES = ["a", "b", "a", "1", "10", "2", ".tar", ".gz", ".1", ".x1", ".1x", "-", ".", "B", "0"]


def mixed_strategy(tier):
    name = st.lists(st.sampled_from(PIECES), min_size=1, max_size=4).map("".join)
    name = st.one_of(name, st.sampled_from(["a", "a", "a", "b", "a.tar.gz", "a.gz.tar", "a.tar", "tar1", "gz2", "tar", "gz.1", "1", "a1.tar.gz", "a1", "b.tar.gz"]))
    return st.fixed_dictionaries({
        "paths": st.lists(st.lists(name, min_size=1, max_size=3), min_size=4, max_size=24),
        "attr": st.sampled_from(["path", "path", "relpath", "name", "ext", "dir", "link"]), "then": st.sampled_from(["", "", ",size", ",path:v"]),
        "reverse": st.booleans(), "jobs": JOBS, "opt": st.booleans(),
    })


def run_mixed(ctx, spec):
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    for i, path in enumerate(spec["paths"]):
        parts = [p for p in path if p.strip(".")]
        try:
            if parts:
                os.makedirs(os.path.join(root, *parts[:-1]), exist_ok=True)
                full = os.path.join(root, *parts)
                if i % 5 == 4:
                    os.symlink(parts[0], full)
                elif i % 5 == 3:
                    os.makedirs(full, exist_ok=True)
                elif not os.path.lexists(full):
                    open(full, "w").close()
        except OSError:
            pass
    want = [e["path"] for e in model.entries([(".", root)])]
    argv = ["--no-cache", "-0", f"-j{spec['jobs']}", "-S", spec["attr"] + ":v" + spec["then"]] + (["-R"] if spec["reverse"] else [])
    res = ctx.run(argv, root, opt=spec["opt"])
    expect_clean(res, argv)
    got = split0(res.out)
    expect_same(got, want, res, argv=argv)
    if spec["attr"] in ("path", "relpath"):
        # Natural order within each directory.
        es = [{"name": os.path.basename(g), "dir": os.path.dirname(g), "path": g} for g in got]
        if spec["reverse"]:
            es.reverse()
        check_natural(es, [0] * len(es), "path", res, argv)
    ctx.nontrivial = len(want) >= 4
    ctx.mark("numbers and extensions")


CHECK = Check(
    "C09",
    [Part("sort", run, strategy, quick=1300), Part("natural", run_natural, natural_strategy, quick=300),
     Part("mixed", run_mixed, mixed_strategy, quick=300)],
    rule="Generated trees and lists of sort attributes; the output must be a permutation whose reference keys are in order; natural order is judged for "
         "names that differ only in numbers.  Non-trivial: at least three entries / two names.",
    assumptions=["The order among entries with equal keys is not specified.",
                 "Missing values are sorted like empty strings, 0 or false."])
