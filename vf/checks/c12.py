"""C12: text output."""
import collections
import datetime
import itertools
import os
import zoneinfo
from fractions import Fraction

from hypothesis import strategies as st

from .. import gen, model, tree
from ..core import Check, Part
from ..lib import JOBS, SCHED, expect_clean, expect_same, fail
from . import c11

TZS = ["UTC", "Europe/Berlin", "America/St_Johns", "Asia/Kathmandu", "Pacific/Apia"]
STR = ["path", "path", "name", "name", "ext", "dir", "relpath", "root", "pathx", "namex", "type", "user", "group", "link", "target",
       "srev", "fup", "word"]
NUM = ["device", "inode", "depth", "links", "uid", "gid", "slen", "fnum", "nlen"]
SIZE = ["size", "size", "nsize", "big"]
TIME = ["mtime", "ctime", "time"]
MODE = ["mode", "perm", "nmode"]
BOOL = ["exec", "hidden", "hide", "empty", "broken", "samedev", "sflag", "mount"]
MODS = {}
for _a in STR + BOOL + ["slist"]:
    MODS[_a] = ["", "", "n"]
MODS["path"] = ["", "", "", "h", "n"]
for _a in NUM:
    MODS[_a] = ["", "x", "o", "n", "h"]
for _a in SIZE:
    MODS[_a] = ["", "h", "h", "h", "x", "o", "n"]
for _a in TIME:
    MODS[_a] = ["", "h", "h", "n", "x"]
for _a in MODE:
    MODS[_a] = ["", "h", "h", "x", "o", "o", "n"]
MODS["dur"] = ["", "h", "h", "h", "n", "x"]
KIND = {**{a: "str" for a in STR}, **{a: "num" for a in NUM}, **{a: "size" for a in SIZE}, **{a: "time" for a in TIME},
        **{a: "mode" for a in MODE}, **{a: "bool" for a in BOOL}, "slist": "list", "dur": "dur"}
ALL = STR + NUM + SIZE + TIME + MODE + BOOL + ["slist", "dur", "dur"]
WIDTH = st.one_of(st.none(), st.none(), st.integers(-30, 30), st.sampled_from([0, 1, -1, 5, -5, 100]))
FIELD = st.sampled_from(ALL).flatmap(lambda a: st.tuples(st.just(a), WIDTH, st.sampled_from(MODS[a]), st.booleans()))
FIELD = st.one_of(*[FIELD] * 6, st.tuples(st.just("path"), st.one_of(st.integers(-30, -4), st.integers(4, 30)), st.just("h"), st.booleans()))
EDGES = sorted({x for b in (1000, 1024) for e in (1, 2, 3, 4) for m in (1, 9, 10, 99, 100, 999, 1000, 1023, Fraction(995, 100), Fraction(9949, 1000),
                Fraction(99995, 100), Fraction(102396, 100)) for d in (-1, 0, 1) for x in [int(m * b ** e) + d] if x < 2 ** 42})


def strategy(tier):
    def nodes(n):
        return tree.nodes(min_size=n, max_size=10, meta=True,
                          sizes=st.one_of(st.integers(0, 3000), st.sampled_from(EDGES), st.integers(0, 2 ** 40)),
                          name_st=tree.names(extra=["a", "xa", "bc.d", "xx.y", "f"]))
    return st.fixed_dictionaries({
        "tree": st.one_of(nodes(1), nodes(4)),
        "fields": st.lists(FIELD, min_size=1, max_size=5),
        "sep": st.sampled_from([None, None, "", " ", ",", "|", "\t", "\n", ": ", "ä", "--", "\udcff", "%s", "{}", "$", "'", " - "]),
        "zero": st.booleans(), "all": st.sampled_from([False, False, True]), "si": st.sampled_from([False, False, True]),
        "abs": st.booleans(), "strict": st.booleans(), "style": st.integers(0, 3),
        "tz": st.sampled_from(TZS), "jobs": JOBS, "opt": st.booleans(), "sched": SCHED,
        "sort": st.booleans(),
    })


def human_sizes(n, base):
    """All renderings of n that are correct to the displayed precision."""
    if n < base:
        return [str(n)]
    units = ["", "K", "M", "G", "T", "P", "E", "Z", "Y"]
    out = []
    for e in range(1, 9):
        v = Fraction(n, base ** e)
        unit = units[e] + ("B" if base == 1000 else "")
        if not Fraction(9, 10) <= v < base:
            continue
        tenths = [int(v * 10), int(v * 10) + 1]
        for t in sorted(tenths, key=lambda t: abs(v * 10 - t)):
            if 10 <= t < 100 and abs(v * 10 - t) <= Fraction(11, 20):
                out.append(f"{t // 10}.{t % 10}{unit}")
        for i in (int(v), int(v) + 1):
            if 10 <= i < base and (i <= v or i - v <= Fraction(1, 10) or i - v <= Fraction(1, 2)):
                out.append(f"{i}{unit}")
    return out


def mode_text(mode, types=True):
    letters = "".join(c if mode >> (8 - i) & 1 else "-" for i, c in enumerate("rwxrwxrwx"))
    m = list(letters)
    for bit, pos, ch in ((0o4000, 2, "s"), (0o2000, 5, "s"), (0o1000, 8, "t")):
        if mode & bit:
            m[pos] = ch if m[pos] == "x" else ch.upper()
    t = {0o040000: "d", 0o100000: "-", 0o120000: "l", 0o140000: "s", 0o010000: "p", 0o020000: "c", 0o060000: "b", 0: "?"}
    return t[mode & 0o170000] + "".join(m)


def duration_text(s):
    h, m, s = s // 3600, s // 60 % 60, s % 60
    return f"{h}h{m:02d}m{s:02d}s" if h else f"{m}m{s:02d}s"


def render(e, attr, width, mod, spec):
    """Acceptable texts of a field; None if the entry has no value."""
    if attr not in e:
        if spec["all"] or mod == "n":
            return ["", " " * abs(width)] if width else [""]
        return None
    v, kind = e[attr], KIND[attr]
    if mod == "x":
        texts = [f"{v:x}"]
    elif mod == "o":
        texts = [f"{v:o}"]
    elif mod == "h" and kind == "size":
        texts = human_sizes(v, 1000 if spec["si"] else 1024)
    elif mod == "h" and kind == "time":
        texts = [datetime.datetime.fromtimestamp(v, zoneinfo.ZoneInfo(spec["tz"])).strftime("%Y-%m-%d %H:%M:%S")]
    elif mod == "h" and kind == "mode":
        texts = [mode_text(v)]
    elif mod == "h" and kind == "dur":
        texts = [duration_text(v)]
    elif mod == "h" and attr == "path" and e["type"] == "symlink":
        texts = [f"{v} -> {e['link']}"]
    elif kind == "bool":
        texts = ["true" if v else "false"]
    elif kind == "list":
        texts = [",".join(v)]
    else:
        texts = [str(v)]
    if width is not None:
        texts = [t.ljust(-width) if width < 0 else t.rjust(width) for t in texts]
    return texts


def assign(got, want):
    """Match records with entries: got is a list of strings, want a list of sets of strings."""
    index = collections.defaultdict(list)
    for i, g in enumerate(got):
        index[g].append(i)
    taken = {}

    def augment(w, seen):
        for cand in want[w]:
            for i in index.get(cand, ()):
                if i in seen:
                    continue
                seen.add(i)
                if i not in taken or augment(taken[i], seen):
                    taken[i] = w
                    return True
        return False
    missing = [w for w in range(len(want)) if not augment(w, set())]
    return missing, [g for i, g in enumerate(got) if i not in taken]


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    tree.build(root, spec["tree"])
    es = c11.extra_values(gen.add_plugin_values(model.entries([(".", root)], absolute=spec["abs"])))
    env = gen.plugin_env(ctx, spec["opt"], c11.PLUGIN, "c11")
    env["TZ"] = spec["tz"]
    argv = ["--no-cache", f"-j{spec['jobs']}"]
    argv += ["-0"] if spec["zero"] else []
    argv += ["--all"] if spec["all"] else []
    argv += ["--si"] if spec["si"] else []
    argv += ["-a"] if spec["abs"] else []
    if spec["sep"] is not None:
        argv += [["--sep", spec["sep"]], ["--sep=" + spec["sep"]]][spec["style"] % 2]
    text = ",".join((c11.full(a) if q else a) + (":" if w is not None or m else "") + ("" if w is None else str(w)) + m
                    for a, w, m, q in spec["fields"])
    argv += [["-o", text], ["--output", text], ["-o" + text], ["--output=" + text]][spec["style"]]
    if spec["sort"]:
        argv += ["-S", "path"]
    res = ctx.run(argv, root, opt=spec["opt"], env=env, sched=spec["sched"], strict=spec["strict"])
    expect_clean(res, argv)
    sep = " " if spec["sep"] is None else spec["sep"]
    want = []
    left_out = 0
    for e in es:
        parts = [render(e, a, w, m, spec) for a, w, m, _ in spec["fields"]]
        if None in parts:
            left_out += 1
            continue
        want.append([sep.join(p) for p in itertools.product(*parts)])
    end = "\0" if spec["zero"] else "\n"

    def enc(s):
        s += end
        try:
            return s.encode("utf-8") if spec["strict"] else os.fsencode(s)
        except UnicodeEncodeError:
            return s.encode("utf-8", "backslashreplace")
    want = [[enc(s) for s in w] for w in want]
    e = end.encode()
    multi = any(e in s[:-1] for w in want for s in w)
    if multi:
        # Records that contain the terminator: judge the output as a bag of lines.
        if all(len(w) == 1 for w in want):
            a, b = sorted(res.out.split(e)), sorted(b"".join(w[0] for w in want).split(e))
            if a != b:
                fail("text output differs", res, argv=argv, expected=[repr(x) for x in b[:20]])
    else:
        got = [x + e for x in res.out.split(e)]
        if got[-1] != e:
            fail("the last record is not terminated", res, argv=argv)
        missing, extra = assign(got[:-1], want)
        if missing or extra:
            fail(f"text output differs: {len(missing)} records missing, {len(extra)} unexpected", res, argv=argv,
                 missing=[repr(want[i]) for i in missing[:5]], unexpected=[repr(x) for x in extra[:5]])
    ctx.nontrivial = bool(want)
    for a, w, m, _ in spec["fields"]:
        ctx.mark(f"{KIND[a]}:{m}" if m else KIND[a])
        if w:
            ctx.mark("width")
    if left_out:
        ctx.mark("entries without a value left out")
    if multi:
        ctx.mark("terminator inside of a record")


# ------------------------------------------------------------------ numbers: many values at once

VALUES = '''
import os
from libff.plugin import *
NUMBERS = [int(x) for x in open(os.environ["VF_NUMBERS"]).read().split()]
class Vfval(Plugin):
    """Values from a list."""
    attributes = [("vsize", Size, "s"), ("vdur", Duration, "d"), ("vtime", Time, "t"), ("vmode", Mode, "m")]
    def can_handle(self, entry):
        return True
    def process(self, entry, cached):
        n = NUMBERS[int(entry.name[1:])]
        yield "vsize", n
        yield "vdur", n
        yield "vtime", n % 2 ** 33
        yield "vmode", n % 65536 & 0o7777 | (0o100000, 0o040000, 0o120000, 0o010000, 0o140000)[n % 5]
'''


def number_strategy(tier):
    big = st.tuples(st.integers(0, 80), st.integers(-3, 3), st.sampled_from([1000, 1024, 2])).map(
        lambda x: max(0, (x[2] ** (x[0] % 25 if x[2] == 2 else x[0] % 8)) * (1 + x[0] % 9) + x[1]))
    near = st.tuples(st.integers(1, 7), st.sampled_from([1000, 1024]), st.fractions(0, 1024, max_denominator=100), st.integers(-2, 2)).map(
        lambda x: max(0, int(x[2] * x[1] ** x[0]) + x[3]))
    n = st.one_of(st.integers(0, 10 ** 5), st.sampled_from(EDGES), near, near, big, st.integers(0, 2 ** 80))
    return st.fixed_dictionaries({"n": st.lists(n, min_size=1, max_size=40), "si": st.booleans(), "opt": st.booleans(),
                                  "tz": st.sampled_from(TZS), "w": st.integers(-12, 12)})


def run_numbers(ctx, spec):
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    for i in range(len(spec["n"])):
        open(os.path.join(root, f"n{i}"), "w").close()
    vfile = os.path.join(ctx.case, "numbers")
    with open(vfile, "w") as f:
        f.write(" ".join(map(str, spec["n"])))
    env = gen.plugin_env(ctx, spec["opt"], VALUES, "c12")
    env.update({"VF_NUMBERS": vfile, "TZ": spec["tz"]})
    argv = ["--no-cache", "-j1", "-0", "--sep", "|", "-o", f"name,vsize:h,vdur:h,vtime:h,vmode:h,vsize:{spec['w']}h,vmode:o,vsize:x"]
    argv += ["--si"] if spec["si"] else []
    res = ctx.run(argv, root, opt=spec["opt"], env=env)
    expect_clean(res, argv)
    got = tree.split0(res.out)
    if len(got) != len(spec["n"]):
        fail("wrong number of records", res, argv=argv)
    for rec in got:
        f = rec.split("|")
        n = spec["n"][int(f[0][1:])]
        sizes = human_sizes(n, 1000 if spec["si"] else 1024)
        mode = n % 65536 & 0o7777 | (0o100000, 0o040000, 0o120000, 0o010000, 0o140000)[n % 5]
        t = datetime.datetime.fromtimestamp(n % 2 ** 33, zoneinfo.ZoneInfo(spec["tz"])).strftime("%Y-%m-%d %H:%M:%S")
        w = spec["w"]
        want = [[f[0]], sizes, [duration_text(n)], [t], [mode_text(mode)],
                [s.ljust(-w) if w < 0 else s.rjust(w) for s in sizes], [f"{mode:o}"], [f"{n:x}"]]
        if n >= 1000 ** 9 - 10 ** 26:      # more than the largest unit
            want[1] = want[5] = None
        for x, acc in zip(f, want):
            if acc is not None and x not in acc:
                fail(f"{x!r} is not the text for {n}", res, argv=argv, expected=acc)
    ctx.nontrivial = True
    ctx.mark("si" if spec["si"] else "1024")


def root_cases(tier, seed):
    for i in range(4):
        yield {"opt": bool(i & 1), "fields": bool(i & 2)}


def run_root(ctx, spec):
    """Entries of the root directory (nothing is written there)."""
    argv = ["--no-cache", "-j2", "-0", "-D", "/", "-d0"] + (["-o", "dir,name,path", "--sep", "|"] if spec["fields"] else [])
    before = os.listdir("/")
    res = ctx.run(argv, ctx.case, opt=spec["opt"])
    if before != os.listdir("/"):
        return
    expect_clean(res, argv)
    want = [f"/|{n}|/{n}" if spec["fields"] else f"/{n}" for n in before]
    expect_same(tree.split0(res.out), want, res, "entries of the root directory", argv)
    ctx.nontrivial = True


CHECK = Check(
    "C12",
    [Part("records", run, strategy, quick=1000), Part("numbers", run_numbers, number_strategy, quick=250),
     Part("root", run_root, cases=root_cases, quick=4)],
    rule="Trees with metadata and lists of attributes with widths, modifiers, separators and terminators against a reference renderer; "
         "numbers around unit boundaries.  Non-trivial: at least one record is printed.",
    assumptions=["A human readable size may be rounded or truncated to the precision it shows.",
                 "Missing values with a width may be padded or not."])
