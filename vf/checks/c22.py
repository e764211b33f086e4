"""C22: equivalent spellings of a command line."""
import collections
import json
import os
import random
import shlex

from hypothesis import strategies as st

from .. import gen, tree
from ..core import Check, Part, Skip
from ..lib import JOBS, SCHED, Recorder, fail
from . import c11

B = [["yes", "true", "1", "on", "y", "t", "YES", "True", "On"], ["no", "false", "0", "off", "n", "f", "NO", "False"]]
SIZES = [["1024", "1K", "1k", "1.0K", "1024b", "1KiB", "1kib", "1024B"], ["1000", "1KB", "1kb", "1000B", "1.0kb"], ["0", "0b", "00"], ["1536", "1.5K", "1.5kib"], ["1048576", "1M", "1024K", "1m"], ["3", "3b", "03"]]
TIMES = [["1700000000", "1700000000.0", "2023-11-14 22:13:20"], ["1589234400", "2020-05-11 22:00", "202005112200", "2020-05-11 22:00:00"],
         ["951782400", "2000-02-29", "20000229", "2000-02-29 00:00"]]
MODES = [["644", "0644", "u=rw,go=r", "u=rw,g=r,o=r", "=644", "a=r,u+w"], ["755", "0755", "u=rwx,go=rx", "a=rx,u+w", "00755"], ["111", "a=x", "=x", "ugo=x", "u=x,g=x,o=x"], ["4000", "u=s", "u+s"], ["0", "000"]]
STRS = [["a"], ["foo"], ["Foo"], ["txt"], ["b.txt"], [".*"], ["*"], ["a b"], ["'x'"], ["é"], ["(a|b)"]]
NUMS = [["0", "00"], ["1", "01", "+1"], ["2"], ["3"], ["5"]]
TYPES = [["f", "file"], ["d", "directory"], ["l", "symlink"], ["p", "pipe", "fifo"], ["s", "socket"]]
NUMOPS = [[">=", "+="], ["<=", "-="], [">", "+"], ["<", "-"], ["="]]
STROPS = [["="], [":"], ["~"], ["%"]]
ATOMS = [(["size", "file.size"], NUMOPS, SIZES), (["mtime", "time", "file.mtime", "file.time"], NUMOPS, TIMES), (["perm", "file.perm"], [["="], [":"], ["~"]], MODES),
         (["mode", "file.mode"], [["="], [":"], ["~"]], MODES), (["type", "file.type"], [["="]], TYPES), (["hidden", "file.hidden"], [["="]], B), (["empty", "file.empty"], [["="]], B),
         (["exec", "file.exec"], [["="]], B), (["hide", "file.hide"], [["="]], B), (["name", "file.name"], STROPS, STRS), (["path", "file.path"], STROPS, STRS), (["ext", "file.ext"], STROPS, STRS),
         (["depth", "file.depth"], NUMOPS, NUMS), (["links", "file.links"], NUMOPS, NUMS), (["slen", "vfslow.slen"], NUMOPS, NUMS), (["sflag", "vfslow.sflag"], [["="]], B),
         (["fup", "vffast.fup"], STROPS, STRS), (["nsize", "vfnorm.nsize"], NUMOPS, SIZES), (["dur", "vfdur.dur"], NUMOPS, [["120", "7200s", "2h", "120m", "1h60m"], ["0s", "0", "0m", "0h"], ["17", "17m", "1020s"]]),
         (["slist", "vfslow.slist"], STROPS[:3], STRS)]
FIELDS = ["path", "name", "size", "size:h", "mode:h", "perm:o", "type", "user", "mtime", "time:h", "depth", "hidden", "ext", "slen", "name:-12", "size:8h", "relpath", "link", "links:x", "dur:h"]
EXPRS = st.tuples(st.integers(0, len(ATOMS) - 1), st.integers(0, 8), st.integers(0, 20)).map(list)
FLAGS = {"abs": ("-a", ["--absolute-path"]), "hide": ("-H", ["--hide"]), "ignore": ("-I", ["--ignore"]), "follow": ("-L", ["--follow"]), "reverse": ("-R", ["--reverse"]),
         "fail": (None, ["--fail"]), "xdev": (None, ["--one-file-system", "--mount", "--xdev"]), "all": (None, ["--all"]), "npi": (None, ["--no-parent-ignore"])}


def tests_strategy():
    leaf = EXPRS.map(lambda a: ["t", a])
    return st.recursive(leaf, lambda ch: st.one_of(
        st.lists(ch, min_size=1, max_size=3).map(lambda x: ["and", x]), st.lists(ch, min_size=1, max_size=3).map(lambda x: ["or", x]),
        ch.map(lambda x: ["not", x])), max_leaves=5)


def strategy(tier):
    return st.fixed_dictionaries({
        "tree": tree.nodes(min_size=3, max_size=16, meta=True, kinds="ddddfffflps",
                           sizes=st.one_of(st.sampled_from([0, 0, 1, 3, 1000, 1024, 1536]), st.integers(0, 2 ** 33)),
                           name_st=tree.names(newline=False, extra=["a", "b", "b.txt", "foo.txt", ".x", "a b", "'x'", "-a", "type=f"])),
        "ignore": st.booleans(),
        "flags": st.lists(st.sampled_from(sorted(set(FLAGS) - {"follow"})), unique=True, max_size=4),
        "mode": st.sampled_from(["list"] * 6 + ["count", "count", "exec", "batch"]),
        "fmt": st.sampled_from(["lines", "0", "0", "json", "jsonl"]),
        "out": st.one_of(st.none(), st.just("v"), st.lists(st.sampled_from(FIELDS), min_size=1, max_size=4, unique=True)),
        "sep": st.sampled_from([None, None, ",", "", "--", " ", "-", "a b"]),
        "sort": st.sampled_from([None, None, "path", "path", ["size", "path"], ["type", "path"], ["name", "path"], ["mtime", "slen", "path"]]),
        "limit": st.one_of(st.none(), st.just([0, 1]), st.tuples(st.integers(-6, 6), st.one_of(st.none(), st.integers(-6, 8))).map(list)),
        "depth": st.one_of(st.none(), st.none(), st.lists(st.tuples(st.integers(0, 3), st.one_of(st.none(), st.integers(0, 3))).map(list), min_size=1, max_size=2)),
        "case": st.sampled_from([None, None, "smart", "ignore", "sensitive"]),
        "excl": st.lists(EXPRS, max_size=2),
        "tests": st.one_of(st.none(), tests_strategy(), tests_strategy()),
        "bad": st.sampled_from([None] * 30 + ["size=x", "nosuch=1", "(", "name", "or", "type=z", "hide=maybe"]),
        "dirs": st.sampled_from(["none", "none", "one", "two", "abs"]), "pick": st.integers(0, 20),
        "cmd": st.lists(st.sampled_from(["{}", "{/}", "{//}", "{.}", "{/.}", "{..}", "x", "{size}", "a{}b", "--", "{name}:{}"]), max_size=3),
        "halt": st.sampled_from([None, None, "soon", "never"]),
        "jobs": JOBS, "opt": st.booleans(),
        "cfields": st.one_of(st.none(), st.lists(st.sampled_from(["type", "size", "ext", "depth", "perm:o", "hidden", "slen", "size:h"]), min_size=1, max_size=3, unique_by=lambda x: x.split(":")[0])),
        "styles": st.tuples(st.integers(0, 10 ** 6), st.integers(0, 10 ** 6)),
    })


class Speller:
    """Writes an abstract command line down in one of many ways.  Without a seed it is the plain one."""

    def __init__(self, spec, seed, dirs):
        self.spec, self.dirs = spec, dirs
        self.r = random.Random(seed) if seed is not None else None

    def pick(self, options):
        return options[0] if self.r is None else self.r.choice(options)

    def maybe(self, p=0.5):
        return self.r is not None and self.r.random() < p

    # --- tests
    def atom(self, a):
        names, ops, values = ATOMS[a[0]]
        name, op, value = self.pick(names), self.pick(ops[a[1] % len(ops)]), self.pick(values[a[2] % len(values)])
        s1, s2, s3 = ((self.pick(["", " "]), self.pick(["", " ", "  "]), self.pick(["", "", " "])) if self.maybe(0.3) else ("", "", ""))
        return f"{s3}{name}{s1}{op}{s2}{value}"

    def word(self, w):
        return self.pick([w.upper(), w, w.lower(), w.capitalize()])

    def group(self, toks):
        a, b = self.pick([("(", ")"), ("{{", "}}")])
        return [a, *toks, b]

    def tests(self, node, prec=0):
        kind, x = node
        if kind == "t":
            toks = [self.atom(x)]
            return self.group(toks) if self.maybe(0.1) else toks
        if kind == "not":
            toks = [self.word("NOT")] + self.tests(x, 2)
            return self.group(toks) if prec == 2 or self.maybe(0.1) else toks
        out = []
        for k, sub in enumerate(x):
            if k and kind == "or":
                out.append(self.word("OR"))
            elif k and self.maybe():
                out.append(self.word("AND"))
            out += self.tests(sub, 1 if kind == "and" else 0)
        if prec == 2 or (prec == 1 and kind == "or") or self.maybe(0.15):
            return self.group(out)
        return out

    # --- options: lists of tokens; flags are (short letter), to be bundled
    def valued(self, short, longs, value):
        how = self.pick(["long", "long", "eq", "eq", "short", "attached"])
        if self.r is not None and short is not None and how in ("short", "attached"):
            if how == "attached" and value != "":
                return [short + value]
            return [short, value]
        name = self.pick(longs)
        if how == "eq" and self.r is not None:
            return [f"{name}={value}"]
        return [name, value]

    def optional(self, short, long, value):
        """Options with an optional argument."""
        how = self.pick(["eq", "long", "attached", "short"])
        if self.r is None or how == "eq":
            return [f"{long}={value}"]
        if short and how == "attached":
            return [short + value]
        return [short if short and how == "short" else long, value]

    def fields(self, items):
        sep = ", " if self.maybe(0.2) else ","
        return sep.join(items)

    def options(self):
        s = self.spec
        mode = s["mode"]
        out, ends = [], []          # ends: options that must not be followed by an argument
        for f in s["flags"]:
            short, longs = FLAGS[f]
            alt = {"hide": "hide=yes", "ignore": "ignored=yes", "xdev": "samedev=no"}.get(f)
            if alt and self.maybe(0.35):
                out.append(self.valued("-e", ["--exclude"], alt))
            elif short and (self.maybe()):
                out.append([short])
            else:
                out.append([self.pick(longs)])
        if mode in ("list", "count") and s["fmt"] in ("json", "jsonl"):
            out.append(["--json"] if s["fmt"] == "json" else [self.pick(["--jsonl", "--ndjson"])])
        elif s["fmt"] == "0" and mode in ("list", "count"):
            out.append([self.pick(["--print0", "-0"])])
        if mode == "list":
            fields = s["out"]
            if fields == "v":
                if self.maybe(0.5):
                    out.append(self.valued("-o", ["--output"], "mode:h,links,user:h,group:h,size:5h,time:h,path:h"))
                else:
                    out.append([self.pick(["--verbose", "-v"])])
            elif fields is not None:
                out.append(self.valued("-o", ["--output"], self.fields(fields)))
            elif self.maybe(0.2):
                out.append(self.valued("-o", ["--output"], "path"))
            if s["sep"] is not None:
                out.append(self.valued(None, ["--sep"], s["sep"]))
            elif self.maybe(0.1):
                out.append(self.valued(None, ["--sep"], " "))
            sort = s["sort"]
            if sort == "path":
                if self.r is None or self.maybe(0.4):
                    out.append(self.optional("-S", "--sort", self.pick(["file.path", "path"])))
                else:
                    ends.append([self.pick(["-S", "--sort"])])
            elif sort:
                out.append(self.optional("-S", "--sort", self.fields(sort)))
            if s["limit"] is not None and sort:
                a, b = s["limit"]
                forms = [f"{a}:{b if b is not None else ''}"]
                if a == 0:
                    forms.append(f":{b if b is not None else ''}")
                    if b is not None and b >= 0:
                        forms.append(f"{b},0")
                if b is not None and 0 <= a < b and a % (b - a) == 0:
                    forms.append(f"{b - a},{a // (b - a)}")
                if [a, b] == [0, 1] and self.maybe(0.6):
                    out.append(["-1"])
                else:
                    out.append(self.valued("-l", ["--limit"], self.pick(forms)))
        if mode == "count":
            cf = s["cfields"]
            if cf is None:
                if self.r is None or self.maybe(0.4):
                    out.append(self.optional(None, "--count", "file.size,file.type" if s["fmt"] in ("json", "jsonl") else "file.size:h,file.type"))
                else:
                    ends.append(["--count"])
            else:
                out.append(self.optional(None, "--count", self.fields(cf)))
        if s["depth"]:
            parts = []
            for a, b in s["depth"]:
                if b is None:
                    parts.append(f"{a}-")
                elif a == b:
                    parts.append(self.pick([str(a), f"{a}-{a}"]))
                else:
                    lo, hi = min(a, b), max(a, b)
                    forms = [f"{lo}-{hi}", f"{hi}-{lo}"] + ([f"-{hi}"] if lo == 0 else [])
                    parts.append(self.pick(forms))
            if self.r is not None:
                self.r.shuffle(parts)
            v = self.fields(parts)
            if v.startswith("-"):
                out.append([f"--depth={v}"])
            else:
                out.append(self.valued("-d", ["--depth"], v))
        if s["case"]:
            out.append(self.valued("-c", ["--case"], s["case"]))
        elif self.maybe(0.2):
            out.append(self.valued("-c", ["--case"], "smart"))
        for a in s["excl"]:
            out.append(self.valued("-e", ["--exclude"], self.atom(a)))
        out.append(self.valued("-j", ["--jobs"], str(s["jobs"])))
        if self.maybe(0.2):
            out.append(self.valued("-C", ["--color"], self.pick(["never", "auto"])))
        if s["halt"] and mode == "exec":
            out.append(self.valued(None, ["--halt", "--halt-on-error"], s["halt"]))
        out.append(["--no-cache"])
        return out, ends

    def bundle(self, groups):
        """Join adjacent short options."""
        if self.r is None:
            return [t for g in groups for t in g]
        out = []
        can = False             # may the last token be extended?
        for g in groups:
            t = g[0]
            short = len(t) >= 2 and t[0] == "-" and t[1] != "-"
            if short and can and self.maybe(0.6):
                out[-1] += t[1:]
                out += g[1:]
            else:
                out += g
            can = short and len(g) == 1 and len(t) == 2 and t != "-S"
        return out

    def argv(self, rec):
        s = self.spec
        opts, ends = self.options()
        pos = []
        if s["tests"] is not None:
            pos = self.tests(s["tests"])
        if s["bad"]:
            pos = pos + [s["bad"]]
        front, back = [], []
        dirs = list(self.dirs)
        positional = self.maybe(0.5)
        if self.r is not None:
            self.r.shuffle(dirs)
        for kind, d in dirs:
            if kind == "default":
                # The current directory.
                how = self.pick(["D", "none", "pos"])
                if how == "D" and self.maybe():
                    opts.append(self.valued("-D", ["--directory"], "."))
                elif how == "pos":
                    (front if self.maybe() else back).append("./")
                continue
            if positional:
                p = d if d.startswith("/") else self.pick([f"./{d}", f"{d}/" if "/" not in d or True else d, f".//{d}/"])
                if p.startswith("-"):
                    p = "./" + p
                (front if self.maybe() else back).append(p)
            else:
                opts.append(self.valued("-D", ["--directory"], d))
        pos = front + pos + back
        if self.r is None:
            groups1, groups2 = opts + ends, []
        else:
            self.r.shuffle(opts)
            k = self.r.randrange(len(opts) + 1)
            groups1, groups2 = opts[:k], opts[k:]
            for e in ends:
                # Followed by an option or by nothing.
                if groups1 and self.maybe():
                    groups1.insert(self.r.randrange(len(groups1)), e)
                else:
                    groups2.insert(self.r.randrange(len(groups2) + 1), e)
        if s["mode"] in ("exec", "batch"):
            cmd = [rec]
            sub = {"{}": ["{}", "{path}", "{file.path}"], "{/}": ["{/}", "{name}", "{file.name}"], "{//}": ["{//}", "{dir}", "{file.dir}"], "{.}": ["{.}", "{pathx}", "{file.pathx}"],
                   "{/.}": ["{/.}", "{namex}", "{file.namex}"], "{..}": ["{..}", "{ext}", "{file.ext}"], "{size}": ["{size}", "{file.size}"]}
            batch = s["mode"] == "batch"
            for c in s["cmd"]:
                if batch and c not in ("{}", "x", "--"):
                    continue
                if c in sub:
                    cmd.append(self.pick(sub[c]))
                elif c == "a{}b":
                    cmd.append("a" + self.pick(sub["{}"]) + "b")
                elif c == "{name}:{}":
                    cmd.append(self.pick(sub["{/}"]) + ":" + self.pick(sub["{}"]))
                else:
                    cmd.append(c)
            if not any("{" in c for c in cmd[1:]) and self.maybe():
                cmd.append(self.pick(sub["{}"]))
            flag = self.pick(["--exec-batch", "-X"] if batch else ["--exec", "-x"])
            groups2.append([flag] + cmd)
        if not pos and groups1 and groups1[-1][0] in ("-S", "--sort", "--count") and len(groups1[-1]) == 1 and not groups2:
            pass
        argv = self.bundle(groups1)
        tail = self.bundle(groups2)
        if groups1 and groups1[-1] in ends and pos:
            raise AssertionError("argument after an optional one")
        return argv + pos + tail

    def split_env(self, argv):
        """Move the first arguments to FF_OPTIONS."""
        if self.r is None or not self.maybe(0.35) or not argv:
            return argv, None
        k = self.r.randrange(1, len(argv) + 1)
        words = []
        for w in argv[:k]:
            how = self.r.randrange(3)
            if how == 0 or not w:
                words.append(shlex.quote(w))
            elif how == 1:
                words.append('"' + w.replace("\\", "\\\\").replace('"', '\\"') + '"')
            else:
                words.append("".join(c if c.isalnum() and c.isascii() or c in "-_=.,/" else "\\" + c for c in w))
        return argv[k:], self.r.choice([" ", "  ", " \t"]).join(words)


def bag(spec, out):
    text = os.fsdecode(out)
    if spec["mode"] == "list":
        if spec["fmt"] == "json":
            return [json.dumps(x, sort_keys=True) for x in json.loads(text)] if text else None
        if spec["fmt"] == "0":
            return text.split("\0")
    if spec["mode"] == "count" and spec["fmt"] in ("json", "jsonl"):
        return [json.dumps(json.loads(text), sort_keys=True)] if text else None
    return text.split("\n")


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    b = tree.build(root, spec["tree"])
    if spec["ignore"]:
        with open(os.path.join(root, ".gitignore"), "w") as f:
            f.write("*.txt\nb/\n")
    top = sorted(e.name for e in os.scandir(root) if e.is_dir(follow_symlinks=False))
    kind = spec["dirs"]
    if kind == "none" or not top:
        dirs = [("default", ".")]
    elif kind == "one":
        d = b.dirs[1:][spec["pick"] % len(b.dirs[1:])]
        dirs = [("dir", d)]
    elif kind == "abs":
        dirs = [("dir", root)]
    else:
        dirs = [("dir", top[spec["pick"] % len(top)])] + ([("dir", top[(spec["pick"] + 1) % len(top)])] if len(top) > 1 else [])
    # These would not be what they are meant for.
    if any(d.startswith("-") or "\udcff" in d for _, d in dirs):
        raise Skip()
    env = gen.plugin_env(ctx, spec["opt"], c11.PLUGIN, "c11")
    results = []
    for k, seed in enumerate([None, *spec["styles"]]):
        rec = Recorder(ctx, f"rec{k}")
        sp = Speller(spec, seed, dirs)
        argv = sp.argv(rec.path)
        rest, ffo = sp.split_env(argv)
        e = {**env, **rec.env}
        if ffo is not None:
            e["FF_OPTIONS"] = ffo
        res = ctx.run(rest, root, opt=spec["opt"], env=e)
        if res.timed_out or res.traceback:
            fail("ff did not end properly", res, argv=rest, ff_options=ffo)
        calls = sorted(map(sorted, rec.calls())) if spec["mode"] == "batch" else sorted(rec.calls())
        results.append((rest, ffo, res, calls))
    a0, _, r0, c0 = results[0]
    ordered = spec["mode"] == "list" and spec["sort"] is not None
    for argv, ffo, res, calls in results[1:]:
        d = {"argv": argv, "ff_options": ffo, "plain": a0, "plain_result": r0.brief()}
        if res.rc != r0.rc:
            fail("the exit code differs from the one of an equivalent command line", res, **d)
        if res.rc not in (0, 1) and not res.err:
            fail("an error without a message", res, **d)
        if ordered:
            if res.out != r0.out:
                fail("the output differs from the one of an equivalent command line", res, **d)
        else:
            x, y = bag(spec, res.out), bag(spec, r0.out)
            if (x is None) != (y is None) or x is not None and collections.Counter(x) != collections.Counter(y):
                fail("the output differs from the one of an equivalent command line", res, **d)
        if calls != c0:
            fail("commands are called in another way than with an equivalent command line", res, calls=calls[:10], plain_calls=c0[:10], **d)
    ctx.nontrivial = any(r[0] != a0 for r in results[1:]) and bool(r0.out or c0)
    ctx.mark(spec["mode"], spec["fmt"], f"rc={r0.rc}", *(["FF_OPTIONS"] if any(r[1] for r in results) else []))


CHECK = Check(
    "C22",
    [Part("spellings", run, strategy, quick=1000)],
    rule="An abstract command line (tests, exclusions, depth, case, start directories, output or count or commands, sorting, limit) is written down in a plain way and in two random ways (short, long, bundled, attached values, aliases of options "
         "and attributes, operators, values and units, order, brackets, FF_OPTIONS); exit code, output and executed commands must be the same; non-trivial: the spellings differ and there is output.",
    assumptions=["Only spellings whose equivalence is documented; options that override one another are used once."])
