"""C06: globs."""
import json
import os

from hypothesis import strategies as st

from .. import gen, globs, model, tree
from ..core import Check, Part, Skip
from ..lib import JOBS, expect_clean, expect_same, fail
from ..tree import split0
from .c03 import VALUE_PLUGIN

ATTRS = ["path", "path", "path", "relpath", "dir", "namex", "pathx", "link", "target", "root", "name", "name", "ext", "user",
         "srev", "slist", "fup"]
EXTRA = ["a.b", "a+b", "a(b)", "a|b", "a^b", "a$", "a b", "a-b", "[x]", "{a}", "!a", "#a", "a\nb", "\n", "a&&b", "ab", "abc", "Abc", "a]b"]


def pattern_ops():
    """Edits that turn a value into a pattern."""
    return st.lists(st.tuples(st.sampled_from(["?", "*", "cls", "ncls", "rng", "nrng", "dstar", "lead", "trail", "cut", "ins", "dup", "case",
                                               "inner", "seg", "drop", "wrong", "star2", "miss", "?", "*", "*", "cls", "ncls", "rng", "nrng",
                                               "dstar", "lead", "trail", "seg"]),
                              st.integers(0, 40), st.integers(0, 40)), max_size=3)


def strategy(tier):
    return st.fixed_dictionaries({
        "tree": tree.nodes(14 if tier == "thorough" else 10, min_size=3, kinds="dddfffflp", name_st=tree.names(extra=EXTRA)),
        "pats": st.lists(st.fixed_dictionaries({
            "attr": st.sampled_from(ATTRS),
            "src": st.integers(0, 40), "ops": pattern_ops(),
            "pre": st.sampled_from(["", "", "", "", "/", "!", "\\!", "!/"]),
            "post": st.sampled_from(["", "", "", "/"]),
            "via": st.sampled_from(["expr", "expr", "not", "exclude"])}), min_size=1, max_size=4),
        "start": st.sampled_from(["none", "none", "abs", "sub"]),
        "case": st.sampled_from(["smart", "smart", "ignore", "sensitive"]),
        "jobs": JOBS, "opt": st.booleans(),
    })


SAFE = lambda c: c not in "[]\\^!-/"


def apply_ops(v, ops):
    toks = [("l", c) for c in v]

    def setc(i, text):
        if toks:
            toks[i % len(toks)] = ("p", text)
    for op, i, j in ops:
        if not toks:
            break
        k = i % len(toks)
        kind, c = toks[k]
        lit = kind == "l" and c != "/"
        if op == "?" and lit:
            setc(k, "?")
        elif op == "*" and lit:
            e = k
            while e < len(toks) and e < k + j % 6 and toks[e] != ("l", "/"):
                e += 1
            toks[k:e] = [("p", "*")]
        elif op in ("cls", "ncls", "rng", "nrng") and lit and SAFE(c):
            neg = "!" if op[0] == "n" else ""
            if op.endswith("cls"):
                body = c + "xyz"[j % 3] if j % 2 else "q" + c
            else:
                d = chr(ord(c) + 1 + j % 3)
                if not SAFE(d) or 0xd700 < ord(d) < 0xe000 or ord(d) > 0xffff:
                    continue
                body = f"{c}-{d}" + ("_" if j % 4 == 0 else "")
            setc(k, f"[{neg}{body}]")
        elif op in ("dstar", "inner", "lead", "trail", "seg"):
            text = "".join(t for _, t in toks)
            segs = text.split("/")
            if any(t != "/" and "/" in t for _, t in toks):
                continue
            m = i % len(segs)
            if op == "dstar":
                segs[m] = "**"
            elif op == "inner":
                segs.insert(m, "**")
            elif op == "lead":
                segs.insert(0, "**")
            elif op == "trail":
                segs.append("**")
            else:
                segs[m] = "*"
            toks = [("l" if len(x) == 1 else "p", x) for x in split_keep("/".join(segs))]
        elif op == "cut":
            text_start = k
            toks = toks[text_start:] if j % 2 else toks[:k + 1]
        elif op == "ins":
            toks.insert(k, ("p", ["*", "?", "a", ".", "[ab]", "[!a]"][j % 6]))
        elif op == "dup":
            toks.insert(k, toks[k])
        elif op == "drop":
            toks.pop(k)
        elif op == "case" and lit:
            setc(k, c.swapcase())
        elif op == "wrong" and lit:
            setc(k, "z" if c != "z" else "y")
        elif op == "star2" and lit:
            toks.insert(k, ("p", "**"))
        elif op == "miss" and lit:
            setc(k, "[!" + c + "]" if SAFE(c) else "?")
    return "".join(t for _, t in toks)


def split_keep(s):
    """Characters, with classes and runs of asterisks kept together."""
    out = []
    i = 0
    while i < len(s):
        if s[i] == "[" and "]" in s[i + 2:]:
            e = s.index("]", i + 2)
            out.append(s[i:e + 1])
            i = e + 1
        elif s.startswith("**", i):
            out.append("**")
            i += 2
        else:
            out.append(s[i])
            i += 1
    return out


def usable(v):
    return v and v.lstrip() == v and v[0] != "{" and "\0" not in v and "[[" not in v


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    b = tree.build(root, spec["tree"])
    if spec["start"] == "none":
        starts, args = [(".", root)], []
    elif spec["start"] == "abs":
        starts, args = [(root, root)], ["-D", root]
    else:
        sub = (b.dirs[1:] + [""])[0]
        if not sub:
            raise Skip()
        starts, args = [(sub, os.path.join(root, sub))], ["-D", sub]
    es = gen.add_plugin_values(model.entries(starts))
    ctx.nontrivial = False
    for p in spec["pats"]:
        one_pattern(ctx, spec, p, root, args, es)


def one_pattern(ctx, spec, p, root, args, es):
    attr = p["attr"]
    pool = []
    for e in es:
        v = e.get(attr)
        pool += v if isinstance(v, list) else [v] if v else []
    v = pool[p["src"] % len(pool)] if pool else "a/b"
    pat = p["pre"] + apply_ops(v, p["ops"]) + p["post"]
    if not usable(pat):
        return
    kind = gen.KINDS[attr]
    case = spec["case"]

    def matches(e):
        if attr not in e:
            return False
        vals = e[attr] if kind == "list" else [e[attr]]
        return any(globs.test(pat, x, e["type"] == "directory", kind == "path", case) for x in vals)
    try:
        hits = {id(e): matches(e) for e in es}
    except globs.Unspecified:
        return
    via = p["via"]
    tok = f"{attr}%{pat}"
    argv = ["--no-cache", "-0", f"-j{spec['jobs']}", "-c", case] + args + {"expr": [tok], "not": ["not", tok], "exclude": ["-e", tok]}[via]
    res = ctx.run(argv, root, opt=spec["opt"], env=gen.plugin_env(ctx, spec["opt"]))
    if res.rc == 12 and "[" in pat and ("-" in pat and case != "sensitive"):
        # A range that is reversed once case is ignored.
        return
    expect_clean(res, argv)
    if via == "exclude":
        want = model.prune(es, lambda e: hits[id(e)])
    else:
        want = [e for e in es if hits[id(e)] == (via == "expr")]
    expect_same(split0(res.out), [e["path"] for e in want], res, argv=argv, what="selected entries")
    ctx.nontrivial = ctx.nontrivial or 0 < len(want) < len(es) and any(c in pat for c in "*?[!")
    ctx.mark(f"attr kind:{kind}", f"via:{via}", "anchored" if "/" in pat.rstrip("/") else "not anchored")
    for w in ("**", "[!", "[", "?", "*"):
        if w in pat:
            ctx.mark(f"wildcard {w}")
    if p["pre"].startswith("!"):
        ctx.mark("inverted")


# ---------------------------------------------------------------- many values for one pattern

VAL = st.lists(st.sampled_from(["a", "b", "ab", "abc", "x.y", "a/", "/", "-", ".", "\n", "é", "Z", "a b", "+", "c1", "_"]), min_size=1, max_size=6).map("".join)


def values_strategy(tier):
    return st.fixed_dictionaries({
        "values": st.lists(VAL, min_size=2, max_size=30, unique=True),
        "tests": st.lists(st.tuples(st.integers(0, 40), pattern_ops(), st.sampled_from(["", "", "!"]),
                                    st.sampled_from(["sensitive", "smart", "ignore"])), min_size=3, max_size=8),
        "opt": st.booleans()})


def run_values(ctx, spec):
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    values = spec["values"]
    for i in range(len(values)):
        with open(os.path.join(root, str(i)), "w"):
            pass
    vfile = os.path.join(ctx.case, "values.json")
    with open(vfile, "w", encoding="utf-8") as f:
        json.dump(values, f)
    env = gen.plugin_env(ctx, spec["opt"], VALUE_PLUGIN, "vals")
    env["VF_VALUES"] = vfile
    some = False
    for i, ops, pre, case in spec["tests"]:
        pat = pre + apply_ops(values[i % len(values)], ops)
        if not usable(pat):
            continue
        try:
            want = [str(k) for k, v in enumerate(values) if globs.test(pat, v, False, False, case)]
        except globs.Unspecified:
            continue
        argv = ["--no-cache", "-0", "-c", case, f"vfvals.str%{pat}"]
        res = ctx.run(argv, root, opt=spec["opt"], env=env)
        if res.rc == 12 and "[" in pat:
            continue
        expect_clean(res, argv)
        expect_same(split0(res.out), want, res, argv=argv, what="selected values", values=values)
        some = some or 0 < len(want) < len(values)
        ctx.mark("values")
    ctx.nontrivial = some


# ---------------------------------------------------------------- all short paths

def deep_paths(seed):
    """All the paths with few short components, as nodes of a tree."""
    names = [["a", "b", "ab"], ["a", "b", "aa"], ["a", "B", "A.b"], ["a", "b", "a\n"]][seed % 4]
    depth = 4
    dirs = []
    level = [""]
    for _ in range(depth):
        level = [f"{p}/{n}".lstrip("/") for p in level for n in names]
        dirs.append(level)
    return dirs


SEG = st.sampled_from(["a", "a", "b", "b", "ab", "aa", "A", "**", "**", "*", "?", "a*", "*b", "?b", "[ab]", "[!a]", "*?", "[a-b]b", "**b", "a**"])


WORD = st.sampled_from(["a", "b", "?", "*", "[ab]", "a*"])


def deep_strategy(tier):
    return st.fixed_dictionaries({
        "names": st.integers(0, 3),
        "pats": st.lists(st.fixed_dictionaries({
            "segs": st.one_of(st.lists(SEG, min_size=1, max_size=5), st.lists(SEG, min_size=1, max_size=5),
                              st.tuples(WORD, st.just("**"), WORD).map(list)),
            "pre": st.sampled_from(["", "", "", "/", "!", "!/"]),
            "post": st.sampled_from(["", "", "", "", "/"]),
            "attr": st.sampled_from(["path", "path", "path", "relpath", "dir", "pathx"]),
            "case": st.sampled_from(["smart", "ignore", "sensitive", "sensitive"]),
            "via": st.sampled_from(["expr", "expr", "expr", "not", "exclude"])}), min_size=3, max_size=8),
        "jobs": JOBS, "opt": st.booleans()})


def run_deep(ctx, spec):
    root = os.path.join(ctx.case, "t")
    levels = deep_paths(spec["names"])
    for level in levels[:-1]:
        for d in level:
            os.makedirs(os.path.join(root, d), exist_ok=True)
    for f in levels[-1]:
        with open(os.path.join(root, f), "w"):
            pass
    es = gen.add_plugin_values(model.entries([(".", root)]))
    some = False
    for p in spec["pats"]:
        segs = [x for i, x in enumerate(p["segs"]) if not (x == "**" and i and p["segs"][i - 1] == "**")]
        pat = p["pre"] + "/".join(segs) + p["post"]
        attr, case, via = p["attr"], p["case"], p["via"]
        kind = gen.KINDS[attr]
        try:
            hits = {id(e): attr in e and globs.test(pat, e[attr], e["type"] == "directory", kind == "path", case) for e in es}
        except globs.Unspecified:
            continue
        tok = f"{attr}%{pat}"
        argv = ["--no-cache", "-0", f"-j{spec['jobs']}", "-c", case] + {"expr": [tok], "not": ["not", tok], "exclude": ["-e", tok]}[via]
        res = ctx.run(argv, root, opt=spec["opt"])
        expect_clean(res, argv)
        if via == "exclude":
            want = model.prune(es, lambda e: hits[id(e)])
        else:
            want = [e for e in es if hits[id(e)] == (via == "expr")]
        expect_same(split0(res.out), [e["path"] for e in want], res, argv=argv, what="selected entries")
        some = some or 0 < len(want) < len(es)
        if any(0 < i < len(segs) - 1 and x == "**" for i, x in enumerate(segs)):
            ctx.mark("'**' between components")
        ctx.mark("all short paths")
    ctx.nontrivial = some


CHECK = Check(
    "C06",
    [Part("deep", run_deep, deep_strategy, quick=220), Part("globs", run, strategy, quick=1300), Part("values", run_values, values_strategy, quick=100)],
    rule="Patterns are derived from existing values by replacing characters with wildcards, sets, ranges and '**' and by small mutations; "
         "deep: patterns of generated components on a tree of all the short paths over three names; the oracle is a backtracking "
         "matcher.  Non-trivial: a wildcard is present and some but not all entries match.",
    assumptions=["Backslash escapes, '//' and doubled '**/**' in patterns, POSIX classes and ']' inside of sets are outside of the domain.",
                 "'foo/**' matches foo itself as well (as the existing tests demand)."])
