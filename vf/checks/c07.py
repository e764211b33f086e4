"""C07: ignore files."""
import json
import os
import subprocess

from hypothesis import strategies as st

from .. import globs, model, tree
from ..core import Check, Part, Skip
from ..lib import JOBS, expect_clean, expect_same, fail
from ..tree import split0

NAMES = ["a", "b", "c", "foo", "bar", "Foo", "a.txt", "b.txt", "foo.txt", "x1", "x2", ".hid", "build", "src", "a b", "é", "a+b", "x.y.txt", "ab", "abc",
         "#a", "!a", "[x]", "\udcff"]
DEFAULT = [".fdignore", ".ffignore", ".gitignore", ".ignore"]
CUSTOM = [".myignore", "ignore.me"]

TEMPLATES = ["{n}", "{n}", "{n}/", "/{n}", "/{n}/", "*.txt", "*", "{p}", "/{p}", "{p}/", "{p}/", "**/{n}", "{n}/*", "{n}/**", "{n}/**/{m}", "**/{n}/{m}",
             "**/{n}/", "{q}", "{q}/", "*/{n}", "/*", "/*/", "*/", "?", "??", "[a-c]", "[!a-c]", "{n}*", "*{n}", "[fb]*", ".*", "{n}/{m}", "{n}/*/{m}", "x[0-9]",
             "*.*", "a*b", "{p}/*", "**"]
NOISE = ["", "   ", "# comment", "#{n}", "{n}  ", "{n}\t", "# " + "long comment " * 700, "\n" * 3000 + "{n}"]

line_st = st.tuples(st.sampled_from(["", "", "", "!", "!"]), st.integers(0, len(TEMPLATES) - 1), st.integers(0, 40), st.integers(0, 40))
noise_st = st.tuples(st.just("noise"), st.integers(0, len(NOISE) - 1), st.integers(0, 40), st.just(0))


def ignores_st(names):
    return st.lists(st.tuples(st.integers(0, 12), st.integers(0, len(names) - 1),
                              st.lists(st.one_of(line_st, line_st, line_st, line_st, noise_st), min_size=1, max_size=5),
                              st.sampled_from(["\n", "\n", "\n", "\r\n", "noeol"])), min_size=1, max_size=4)


def strategy(tier):
    return st.fixed_dictionaries({
        "tree": st.lists(tree.node(st.sampled_from(NAMES), kinds="dddffflp"), min_size=4, max_size=22 if tier == "thorough" else 16),
        "ignores": ignores_st(DEFAULT),
        "custom": st.sampled_from([None, None, None, "single", "double"]),
        "start": st.sampled_from(["none", "D", "pos", "abs", "two", "a", "below"]), "pick": st.integers(0, 20),
        "noparent": st.booleans(),
        "how": st.sampled_from(["I", "I", "e", "test", "not", "json"]),
        # Things named like ignore files that are none.
        "odd": st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 20), st.sampled_from(["fifo", "directory", "dangling", "loop", "link"]))),
        "jobs": JOBS, "opt": st.booleans(),
    })


def render_line(line, b, d):
    """A line of the ignore file in the directory d."""
    pre, t, i, j = line
    names = [n for n in NAMES if n not in ("#a", "!a", "[x]")] if (i + j) % 5 else NAMES
    rels = list(b.entries)
    below = [r[len(d) + 1:] if d else r for r in rels if not d or r.startswith(d + "/")]
    local = sorted({x for r in below for x in r.split("/")}) or names
    n = local[i % len(local)] if i % 4 else names[i % len(names)]
    m = local[j % len(local)] if j % 4 else names[j % len(names)]
    p = below[i % len(below)] if below else n
    q = rels[j % len(rels)] if rels else n
    if pre == "noise":
        return NOISE[t].format(n=n)
    s = TEMPLATES[t].format(n=n, m=m, p=p, q=q)
    if s.startswith("!") or s.startswith("#") and not (pre and i % 2):
        # "!#a" negates "#a".
        s = "\\" + s
    return pre + s


def write_ignores(root, b, spec, names):
    """-> {directory (absolute): (file name, patterns)}; one file per directory, because the
    precedence of several files in one directory is not specified."""
    out = {}
    for d, k, lines, eol in spec:
        rel = b.dirs[d % len(b.dirs)]
        path = os.path.join(root, rel).rstrip("/")
        if path in out:
            continue
        name = names[k % len(names)]
        if os.path.lexists(os.path.join(path, name)):
            continue
        texts = [render_line(x, b, rel) for x in lines]
        end = "" if eol == "noeol" else eol
        data = ("\n" if eol == "noeol" else eol).join(texts) + end
        texts = [x.strip("\n") for x in texts]
        with open(os.path.join(path, name), "wb") as f:
            f.write(os.fsencode(data))
        pats = []
        for t in texts:
            t = t.strip()
            if not t or t.startswith("#"):
                continue
            pats.append(globs.Pattern(t))
        out[path] = (name, pats)
    return out


def decide(ign, names, path, is_dir, top):
    """Is the entry ignored?  -> path of the deciding ignore file or None.  `top`: outermost
    directory whose ignore files count."""
    verdict = None
    d = os.path.dirname(path)
    chain = []
    while True:
        chain.append(d)
        if d == top or d == "/":
            break
        d = os.path.dirname(d)
    for d in reversed(chain):
        if d in ign and ign[d][0] in names:
            name, pats = ign[d]
            rel = path[len(d):].lstrip("/")
            for p in pats:
                if p.match(rel, is_dir):
                    verdict = os.path.join(d, name) if p.include else None
    return verdict


def odd_file(root, b, spec, name, ign):
    """Put something by the name of an ignore file in a directory without an ignore file."""
    k, kind = spec["odd"]
    d = os.path.join(root, b.dirs[k % len(b.dirs)]).rstrip("/")
    path = os.path.join(d, name)
    if d in ign or os.path.lexists(path):
        return
    if kind == "fifo":
        os.mkfifo(path)
    elif kind == "directory":
        os.mkdir(path)
    elif kind == "dangling":
        os.symlink("nowhere", path)
    elif kind == "loop":
        os.symlink(name, path)
    else:
        with open(os.path.join(root, "..", "patterns"), "w") as f:
            f.write("*.txt\n")
        os.symlink(os.path.join(os.path.dirname(root), "patterns"), path)
        ign[d] = (name, [globs.Pattern("*.txt")])


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    b = tree.build(root, spec["tree"])
    names = DEFAULT if not spec["custom"] else CUSTOM if spec["custom"] == "double" else CUSTOM[:1]
    try:
        ign = write_ignores(root, b, spec["ignores"], names + ([DEFAULT[2]] if spec["custom"] else []))
    except globs.Unspecified:
        raise Skip() from None
    if spec["odd"]:
        odd_file(root, b, spec, names[0], ign)
    dirs = b.dirs
    sub = dirs[spec["pick"] % len(dirs)]
    start = spec["start"]
    cwd = root
    tail = []
    absolute = False
    if start == "none":
        starts, args = [(".", root)], []
    elif start == "a":
        starts, args, absolute = [(".", root)], ["-a"], True
    elif start == "below":
        # Search the current directory, which lies below others with ignore files.
        cwd = os.path.join(root, sub).rstrip("/")
        starts, args = [(".", cwd)], []
    elif start == "D" and sub:
        starts, args = [(sub, os.path.join(root, sub))], ["-D", sub]
    elif start == "pos" and sub:
        starts, args, tail = [(sub, os.path.join(root, sub))], [], ["./" + sub]
    elif start == "two":
        top = sorted(x for x in dirs[1:] if "/" not in x)[:2]
        if len(top) < 2:
            raise Skip()
        starts = [(x, os.path.join(root, x)) for x in top]
        args = [y for x in top for y in ("-D", x)]
    else:
        p = os.path.join(root, sub).rstrip("/")
        starts, args = [(p, p)], ["-D", p]
    es = model.entries(starts, absolute=absolute)
    tops = {(s if not absolute else r): (r if spec["noparent"] else "/") for s, r in starts}
    reals = {(s if not absolute else r): r for s, r in starts}
    ignored = {}
    for e in es:
        ignored[id(e)] = decide(ign, names, os.path.join(reals[e["root"]], e["relpath"]), e["type"] == "directory", tops[e["root"]])
    how = spec["how"]
    argv = ["--no-cache", "-0", f"-j{spec['jobs']}"] + args
    if spec["noparent"]:
        argv.append("--no-parent-ignore")
    if spec["custom"]:
        argv += ["--ignore-files", [",", ", ", " , "][spec["pick"] % 3].join(names)]
    if how in ("I", "e"):
        want = model.prune(es, lambda e: ignored[id(e)] is not None)
        argv += [["-I"], ["-e", "ignored=yes"]][how == "e"]
    elif how == "json":
        want = es
        argv += ["--jsonl", "-o", "path,ignored,ignore.path"]
    else:
        want = [e for e in es if (ignored[id(e)] is not None) == (how == "test")]
        argv += ["ignored=yes"] if how == "test" else ["ignore.ignored=no"]
    argv += tail
    res = ctx.run(argv, cwd, opt=spec["opt"])
    expect_clean(res, argv)
    if spec["odd"]:
        ctx.mark("odd ignore file:" + spec["odd"][1])
    files = {d: v[0] for d, v in ign.items()}
    if how == "json":
        got = {r["path"]: (r["ignored"], r["ignore.path"]) for r in map(json.loads, res.out.splitlines())}
        expected = {}
        for e in es:
            p = os.path.join(reals[e["root"]], e["relpath"])
            expected[p] = (ignored[id(e)] is not None, ignored[id(e)] or "")
        if got != expected:
            bad = [p for p in set(got) | set(expected) if got.get(p) != expected.get(p)]
            fail("ignored or ignore.path is wrong", res, argv=argv, wrong=[(p, got.get(p), expected.get(p)) for p in bad[:5]], files=files)
    else:
        expect_same(split0(res.out), [e["path"] for e in want], res, argv=argv, what="entries that are not ignored", files=files)
    n = sum(v is not None for v in ignored.values())
    ctx.nontrivial = 0 < n < len(es)
    ctx.mark(f"how:{how}", f"start:{start}", f"ignore files:{len(ign)}", "no parents" if spec["noparent"] else "parents")
    if any(not p.include for _, ps in ign.values() for p in ps):
        ctx.mark("negated pattern")


# ---------------------------------------------------------------- against git

def git_strategy(tier):
    return st.fixed_dictionaries({
        "tree": st.lists(tree.node(st.sampled_from([n for n in NAMES if n != "[x]"]), kinds="dddfffl"), min_size=4, max_size=20 if tier == "thorough" else 14),
        "ignores": ignores_st([".gitignore"]),
        "where": st.sampled_from(["top", "top", "sub"]), "pick": st.integers(0, 20),
        "opt": st.booleans(),
    })


GITENV = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "GIT_CONFIG_NOSYSTEM": "1", "GIT_CONFIG_GLOBAL": "/dev/null", "LANG": "C.UTF-8"}


def run_git(ctx, spec):
    root = os.path.join(ctx.case, "t")
    b = tree.build(root, spec["tree"])
    try:
        ign = write_ignores(root, b, spec["ignores"], [".gitignore"])
    except globs.Unspecified:
        raise Skip() from None
    # git compares single bytes with ? and classes.
    multibyte = not all(r.isascii() for r in b.entries)
    for d, (name, pats) in ign.items():
        with open(os.path.join(d, name), "rb") as f:
            if multibyte and set(f.read()) & set(b"?["):
                raise Skip()
        with open(os.path.join(d, name), "rb") as f:
            for line in f.read().splitlines():
                line = line.strip()
                if line.endswith(b"/**") or b"\r" in line or b"[" in line and b"]" not in line or line in (b"**", b"!**"):
                    raise Skip()
                if line.endswith(b"\t"):
                    raise Skip()
        with open(os.path.join(d, name), "rb") as f:
            data = f.read()
        if b"\r" in data or b"\t" in data or b"   " in data:
            # git does not strip these.
            raise Skip()
    subprocess.run(["git", "init", "-q", "--template="], cwd=root, check=True, env=GITENV)
    sub = ""
    if spec["where"] == "sub":
        sub = b.dirs[spec["pick"] % len(b.dirs)]
    cwd = os.path.join(root, sub)
    # Only the part below cwd, relative to it.
    p = subprocess.run(["git", "ls-files", "--others", "--exclude-per-directory=.gitignore", "-z"], cwd=root, env=GITENV, capture_output=True)
    if p.returncode:
        raise Skip()
    others = split0(p.stdout)
    if sub:
        others = [x[len(sub) + 1:] for x in others if x.startswith(sub + "/")]
        # git does not enter ignored directories; ff was told to start inside of one.
        q = subprocess.run(["git", "check-ignore", "-q", sub], cwd=root, env=GITENV)
        if q.returncode == 0:
            raise Skip()
    argv = ["--no-cache", "-0", "-I", "--ignore-files", ".gitignore", "-e", "name=.git", "type=f", "or", "type=l"]
    res = ctx.run(argv, cwd, opt=spec["opt"])
    expect_clean(res, argv)
    total = [r for r, s in tree.walk(cwd) if not r.startswith(".git/")]
    expect_same(split0(res.out), others, res, argv=argv, what="entries shown and entries that git does not ignore",
                files={d: [v[0]] for d, v in ign.items()})
    ctx.nontrivial = 0 < len(others) < len(total)
    ctx.mark("compared with git")


CHECK = Check(
    "C07",
    [Part("ignore", run, strategy, quick=1300), Part("git", run_git, git_strategy, quick=500)],
    rule="Trees with up to four ignore files whose patterns are made from names and paths in the tree; the oracle is the rule of the last matching "
         "pattern with an independent glob matcher, and git ls-files.  Non-trivial: some but not all entries are ignored.",
    assumptions=["At most one ignore file per directory (the precedence of several files in the same directory is not documented).",
                 "Not judged: backslash escapes other than a leading one, leading white space, 'foo/**' with respect to foo itself (git part).",
                 "There are no ignore files in the directories above the scratch directory."])
