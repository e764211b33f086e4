"""C23: the Python API against the command line."""
import collections
import json
import os
import re
import shlex

from hypothesis import strategies as st

from .. import gen, tree
from ..core import Check, Part, Skip
from ..lib import JOBS, fail
from . import c11

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "apidriver.py")) as f:
    DRIVER = f.read()

PLUGIN = c11.PLUGIN + '''

class Vffail(Plugin):
    """Fails."""
    speed = Speed.SLOW
    attributes = [("boom", Number, "fails for files whose name contains an x")]
    def can_handle(self, entry):
        return True
    def process(self, entry, cached):
        if "x" in entry.name:
            raise RuntimeError("boom")
        yield "boom", 1

class Vfkill(Plugin):
    """Kills its process."""
    speed = Speed.SLOW
    attributes = [("bang", Number, "kills the process for files whose name contains an x")]
    def can_handle(self, entry):
        return True
    def process(self, entry, cached):
        import os, multiprocessing
        if "x" in entry.name and multiprocessing.parent_process() is not None:
            os.kill(os.getpid(), 9)
        yield "bang", 1
'''

TESTS = ["type=f", "type=d", "name~o", "size>0", "not type=d", "depth=0", "hidden=no", "size=1K", "size=1KB", "size<=3", "name%*.txt", "NAME=a", "name=A", "path~/", "slen>2", "sflag=yes", "empty=yes", "ext=txt", "link~a",
         "broken=yes", "mtime>2020", "perm~111", "path:b", "samedev=yes", "{{ type=d or size>2 }} name~a", "type=d OR name=foo", "ignored=no", "mime=text/plain", "fup=FOO", "name='a b'", "( type=l )", "nsize>1"]
EXCL = ["type=l", "name=a", "hide=yes", "name~x", "path=foo/**", "size>1000", "depth>1", "ignored=yes"]
OUT = ["name", "size", "type", "mtime", "mode", "depth", "relpath", "dir", "pathx", "ext", "link", "hidden", "perm:n", "file.size", "user", "slen", "srev", "sflag", "slist", "fup", "nsize", "root", "time:n", "size:n", "dur", "empty", "vfslow.slen", "links"]
SORT = [[], [], ["path"], ["size", "path"], ["type", "path"], ["slen", "path"], ["name", "path"], ["mtime", "path"], ["relpath", "path"]]
BAD = [("output", "nosuch"), ("output", "size:"), ("output", ""), ("output", "a.b.c"), ("sort", "nosuch"), ("sort", ""), ("exclude", "nosuch=1"), ("exclude", "size=x"), ("query", "nosuch=1"), ("query", "("), ("query", "name"),
       ("query", "or"), ("query", "mtime=zz"), ("case", "foo"), ("case", ""), ("directories", "./does-not-exist"), ("directories", "sub"), ("jobs", -1), ("cache", "/dev/null/x/c.db"), ("fail", "output"), ("fail", "query"), ("fail", "sort"), ("modifier", "size:h")]


def search_strategy(bad):
    return st.fixed_dictionaries({
        "query": st.lists(st.sampled_from(TESTS), max_size=2), "as_list": st.booleans(), "none": st.booleans(),
        "dirs": st.sampled_from(["default", "default", "dot", "one", "two", "abs", "pos"]), "pick": st.integers(0, 20),
        "exclude": st.lists(st.sampled_from(EXCL), max_size=2), "output": st.one_of(st.none(), st.lists(st.sampled_from(OUT), max_size=4, unique=True)),
        "file": st.booleans(),
        "sort": st.sampled_from(SORT), "reverse": st.booleans(), "hide": st.sampled_from([False, False, True]), "ignore": st.booleans(),
        "ignore_files": st.sampled_from([None, None, [".gitignore"], [".fdignore", ".ffignore"], []]), "xdev": st.sampled_from([False, False, True]),
        "case": st.sampled_from([None, None, "smart", "ignore", "sensitive"]), "si": st.booleans(), "follow": st.sampled_from([False, False, False, True]),
        "abs": st.booleans(), "jobs": st.one_of(st.none(), JOBS, st.just(0)), "cache": st.sampled_from([None, None, "c0", "c1", "default"]),
        "bad": st.one_of(st.none(), st.none(), st.none(), st.sampled_from(BAD).map(list)) if bad else st.none(),
        "explicit": st.integers(0, 2 ** 16 - 1),
    })


OPS = ["list", "list", "again", "make_first", "thread", "interleave", "interleave", "nested", "abandon", "throw"]


def strategy(tier):
    op = st.fixed_dictionaries({"op": st.sampled_from(OPS), "n": st.integers(0, 12), "searches": st.lists(search_strategy(True), min_size=1, max_size=3)})
    return st.fixed_dictionaries({
        "tree": tree.nodes(min_size=1, max_size=20, meta=True, kinds="ddddfffflps", name_st=tree.names(newline=True, extra=["a", "b", "foo.txt", ".x", "x.txt", "a b", "foo"])),
        "ignore": st.booleans(), "opt": st.booleans(),
        "ops": st.lists(op, min_size=1, max_size=4),
    })


def normal(v):
    """What sorting looks at, roughly: values with the same result may be in any order."""
    if isinstance(v, str):
        v = re.sub(r"\d+", lambda m: str(int(m.group())), v.lower())
        return "/".join(c.lstrip(".") for c in v.split("/"))
    return v


PATHS = {"path", "dir", "pathx", "file.path", "file.dir", "file.pathx", "root", "file.root"}


def canon(rec, root):
    out = {}
    for k, v in rec.items():
        if k in ("atime", "file.atime"):
            continue
        if k in PATHS and isinstance(v, str):
            v = os.path.normpath(os.path.join(root, v))
        out[k] = v
    return json.dumps(out, sort_keys=True)


class Planned:
    """A search: keyword arguments and the corresponding command line."""

    def __init__(self, s, b, root, scratch):
        kw, opts = {}, []
        x = [s["explicit"]]

        def explicit():
            x[0], bit = x[0] >> 1, x[0] & 1
            return bit
        toks = []
        for t in s["query"]:
            toks += shlex.split(t)
        top = sorted(e.name for e in os.scandir(root) if e.is_dir(follow_symlinks=False) and not e.name.startswith("-"))
        kind = s["dirs"]
        dirs, pos = None, []
        if kind == "one" and top:
            d = [x for x in b.dirs[1:] if not x.startswith("-")]
            dirs = [d[s["pick"] % len(d)]] if d else ["."]
        elif kind == "two" and len(top) > 1:
            k = s["pick"] % len(top)
            dirs = [top[k], top[(k + 1) % len(top)]]
        elif kind == "abs":
            dirs = [root]
        elif kind == "pos" and top:
            dirs, pos = [], ["./" + top[s["pick"] % len(top)]]
        elif kind == "dot":
            dirs = ["."]
        self.dirs = dirs if dirs else (pos or ["."])
        output, sort, excl = [*(s["output"] or []), "path"], list(s["sort"]), list(s["exclude"])
        if s["output"] is None:
            output = ["file"] if s["file"] else ["path"]
        elif s["file"]:
            output.insert(len(output) // 2, "file")
        if not s["abs"]:
            # With --jsonl paths are always absolute.
            toks = [re.sub("^path", "relpath", t) for t in toks]
            excl = [re.sub("^path", "relpath", t) for t in excl]
        jobs, case, cache = s["jobs"], s["case"], s["cache"]
        self.bad = s["bad"]
        if s["bad"]:
            what, v = s["bad"]
            if what == "output":
                output.append(v)
            elif what == "modifier":
                output.append(v)
            elif what == "sort":
                sort.append(v)
            elif what == "exclude":
                excl.append(v)
            elif what == "query":
                toks.append(v)
            elif what == "case":
                case = v
            elif what == "directories":
                if v == "sub":
                    if not top:
                        raise Skip()
                    dirs, pos = [".", top[0]], []
                else:
                    dirs, pos = [v], []
            elif what == "jobs":
                jobs = v
            elif what == "cache":
                cache = v
            elif v == "output":
                output.append("boom")
            elif v == "sort":
                sort = ["boom"]
            else:
                toks = ["boom=1"]
        # Keyword arguments.
        q = pos + toks
        if s["as_list"]:
            kw["query"] = q
        elif q or not s["none"]:
            kw["query"] = shlex.join(q)
        elif explicit():
            kw["query"] = None
        if dirs is not None:
            kw["directories"] = dirs
        for name, val, default in (("exclude", excl, []), ("output", output, ["file"]), ("sort", sort, []), ("reverse", s["reverse"], False), ("hide", s["hide"], False),
                                   ("ignore", s["ignore"], False), ("one_file_system", s["xdev"], False), ("si", s["si"], False), ("follow_symlinks", s["follow"], False), ("absolute_path", s["abs"], False)):
            if val != default or explicit():
                kw[name] = val
        if s["ignore_files"] is not None:
            kw["ignore_files"] = s["ignore_files"]
        if case is not None:
            kw["case"] = case
        if jobs is not None:
            kw["jobs"] = jobs
        if cache in ("c0", "c1"):
            cache = os.path.join(scratch, cache + ".db")
        if cache != "default":
            kw["cache"] = cache
        self.kw = kw
        self.sort = sort
        # Command line.
        opts += [f"--exclude={e}" for e in excl] + [f"--output={','.join(output)}"]
        if sort:
            opts.append(f"--sort={','.join(sort)}")
        opts += [f for f, on in (("-R", s["reverse"]), ("-H", s["hide"]), ("-I", s["ignore"]), ("--mount", s["xdev"]), ("--si", s["si"]), ("-L", s["follow"]), ("-a", s["abs"])) if on]
        if s["ignore_files"] is not None:
            opts.append("--ignore-files=" + ",".join(s["ignore_files"]))
        if case is not None:
            opts.append("--case=" + case)
        if jobs is not None:
            opts.append(f"--jobs={jobs}")
        opts += [f"--directory={d}" for d in dirs or []]
        self.opts = opts
        self.tokens = q
        self.cache = cache
        self.relative = not s["abs"]

    def command(self, ctx, root, env, opt, fmt, cache):
        argv = [*fmt, *self.opts, *cache, *self.tokens]
        res = ctx.run(argv, root, opt=opt, env=env)
        if res.timed_out:
            fail("ff did not end", res, argv=argv)
        return argv, res


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    b = tree.build(root, spec["tree"])
    if any(s["follow"] for op in spec["ops"] for s in op["searches"]):
        # No cycles and nothing from outside.
        for dp, ds, fs in os.walk(root):
            for n in ds + fs:
                p = os.path.join(dp, n)
                if os.path.islink(p) and (not os.path.isfile(p) or not os.path.realpath(p).startswith(root + "/")):
                    os.unlink(p)
    if spec["ignore"]:
        for k, name in enumerate((".gitignore", ".fdignore", ".ffignore")):
            with open(os.path.join(root, name), "w") as f:
                f.write(["*.txt\n", "a/\n", "foo*\n!foo\n"][k])
    env = gen.plugin_env(ctx, spec["opt"], PLUGIN, "c23")
    home = os.path.join(ctx.case, "home")
    os.makedirs(os.path.join(home, ".cache"))
    empty = os.path.join(ctx.case, "empty")
    os.mkdir(empty)
    planned = [[Planned(s, b, root, ctx.case) for s in op["searches"]] for op in spec["ops"]]
    path = os.path.join(ctx.case, "api.json")
    with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
        json.dump({"warmup": empty, "ops": [{"op": op["op"], "n": op["n"], "searches": [{"kw": p.kw} for p in ps]} for op, ps in zip(spec["ops"], planned)]}, f)
    res = ctx.run([], root, opt=spec["opt"], env={**env, "VF_API": path}, script=DRIVER, timeout=150)
    if res.timed_out or res.rc != 0 or not os.path.exists(path + ".out"):
        fail("a script with several searches failed", res, ops=[[p.kw for p in ps] for ps in planned])
    if res.leftover:
        fail("the script left processes behind", res)
    if res.out:
        fail("the Python API printed something", res)
    with open(path + ".out") as f:
        data = json.load(f)
    if data["fds"][1] > data["fds"][0]:
        fail("file descriptors are left open", res, fds=data["fds"], ops=[op["op"] for op in spec["ops"]])
    some = False
    expect_err = False
    for op, ps, out in zip(spec["ops"], planned, data["results"]):
        if out["children"]:
            fail("processes are left after a search", res, op=op["op"], searches=[p.kw for p in ps])
        for p, r in zip(ps, out["searches"]):
            some |= judge(ctx, spec, op, p, r, root, env)
            expect_err |= r["error"] is not None
            # ff warns that such tests have no effect.
            expect_err |= bool(p.kw.get("hide")) and "hid" in str([p.kw.get("query"), p.kw.get("exclude")])
        ctx.mark(op["op"])
    if res.err and not expect_err:
        fail("the Python API printed messages", res)
    ctx.nontrivial = some


def judge(ctx, spec, op, p, r, root, env):
    argv, cli = p.command(ctx, root, env, spec["opt"], ["--jsonl"], ["--no-cache"] if p.cache is None or p.cache.endswith(".db") and p.bad is None else [] if p.cache == "default" else [f"--cache={p.cache}"])
    d = {"arguments": p.kw, "argv": argv, "op": op["op"], "cli": cli.brief(), "error": r["error"]}
    if r["problems"]:
        fail("records or arguments are not as they should be", **d, problems=r["problems"][:5])
    if r.get("children"):
        fail("an abandoned search left processes behind", **d)
    if p.bad and p.bad[0] == "modifier":
        if r["error"] is None:
            fail("a modifier is not supported but accepted", **d)
        ctx.mark("error")
        return True
    if cli.rc != 0:
        if r.get("partial"):
            return False
        if r["error"] is None:
            fail("the command line reports an error, the Python API does not", **d)
        code = r["error"].get("exitcode")
        if code is not None and code != cli.rc and not {code, cli.rc} <= {4, 10}:
            fail("the Python API reports another error than the command line", **d)
        ctx.mark("error")
        return True
    if r["error"] is not None:
        fail("the Python API reports an error, the command line does not", **d)
    want = [json.loads(x) for x in cli.out.decode().splitlines()]
    a = [canon(x, root) for x in want]
    got = r["records"]
    g = [canon(x, root) for x in got]
    if r.get("partial"):
        if collections.Counter(g) - collections.Counter(a):
            fail("an abandoned search gave records that the command line does not print", **d, got=got[:5])
    else:
        for k, recs in enumerate([got, *r.get("again", [])]):
            g = [canon(x, root) for x in recs]
            if collections.Counter(g) != collections.Counter(a):
                fail("the Python API does not give the records that the command line prints", **d, iteration=k, extra=list((collections.Counter(g) - collections.Counter(a)).elements())[:4],
                     missing=list((collections.Counter(a) - collections.Counter(g)).elements())[:4])
    if want and got and list(got[0]) != list(want[0]):
        fail("the keys of the records differ", **d, got=list(got[0]), want=list(want[0]))
    if p.sort and "path" in (got[0] if got else {}):
        x, y = [normal(os.path.normpath(os.path.join(root, z["path"]))) for z in got], [normal(z["path"]) for z in want][:len(got)]
        if x != y:
            fail("the order differs from the one of the command line", **d, got=x[:10], want=y[:10])
    if got and not r.get("partial") and "path" in got[0]:
        # The paths themselves, including whether they are absolute.
        _, text = p.command(ctx, root, env, spec["opt"], ["-0"], ["--no-cache", "--output=path"])
        x = collections.Counter(os.fsdecode(text.out).split("\0")[:-1])
        y = collections.Counter(z["path"] for z in got)
        if x != y:
            fail("the paths differ from the ones that the command line prints", **d, got=list((y - x).elements())[:5], want=list((x - y).elements())[:5])
    return bool(got)


def killed_strategy(tier):
    return st.fixed_dictionaries({"n": st.integers(2, 40), "at": st.integers(0, 39), "sort": st.booleans(), "jobs": st.integers(1, 4), "opt": st.booleans(), "query": st.booleans()})


def run_killed(ctx, spec):
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    for k in range(spec["n"]):
        os.mkdir(os.path.join(root, f"d{k}"))
        with open(os.path.join(root, f"d{k}", "x" if k == spec["at"] % spec["n"] else "f"), "w"):
            pass
    env = gen.plugin_env(ctx, spec["opt"], PLUGIN, "c23")
    empty = os.path.join(ctx.case, "empty")
    os.mkdir(empty)
    kw = {"query": "bang=1" if spec["query"] else "vfkill.bang>0 depth-=1", "directories": ["."], "output": ["path"], "cache": None, "jobs": spec["jobs"], "sort": ["path"] if spec["sort"] else []}
    path = os.path.join(ctx.case, "api.json")
    with open(path, "w") as f:
        json.dump({"warmup": empty, "ops": [{"op": "list", "n": 0, "searches": [{"kw": kw}]}]}, f)
    res = ctx.run([], root, opt=spec["opt"], env={**env, "VF_API": path}, script=DRIVER, timeout=150)
    if res.timed_out or res.rc != 0 or not os.path.exists(path + ".out"):
        fail("a search with a killed process does not end", res, arguments=kw)
    with open(path + ".out") as f:
        data = json.load(f)
    r = data["results"][0]
    if r["searches"][0]["error"] is None:
        fail("a search does not report that one of its processes was killed", res, arguments=kw, records=len(r["searches"][0]["records"]))
    if r["children"]:
        fail("processes are left after a search", res, arguments=kw)
    ctx.nontrivial = True


CHECK = Check(
    "C23",
    [Part("scripts", run, strategy, quick=300), Part("killed", run_killed, killed_strategy, quick=12)],
    rule="Scripts with several searches (one after the other, iterated repeatedly, set up in advance, in another thread, interleaved, nested, abandoned, interrupted) with generated arguments, valid or not; every search must give the records, the order or "
         "the kind of error that ff gives for the corresponding command line, leave arguments, processes and file descriptors alone and print nothing; non-trivial: some search gives records or an error.",
    assumptions=["--jsonl prints absolute paths: path attributes are compared relative to the directory, the paths themselves also with the output of ff -0.", "The order of equal sort keys is not compared."])
