"""C26: plugins of the user."""
import json
import os
import shutil

from hypothesis import strategies as st

from .. import model, tree
from ..core import Check, Part
from ..lib import JOBS, SCHED, expect_clean, expect_same, fail
from ..runner import REPO

HEAD = '''
import json, os
from libff.plugin import *

def log(plugin, what, path):
    fd = os.open(os.environ["VF_PLOG"], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps([plugin, what, path]) + "\\n").encode())
    os.close(fd)
'''
CLASS = '''
class {cls}({base}):
    """The {name} plugin."""
    speed = Speed.{speed}
    use_cache = {cache}
    attributes = {attributes}
    vals = {vals}
    def setup(self):
        log({name!r}, "setup", "")
    def can_handle(self, entry):
        log({name!r}, "handle", entry.abspath)
        return {handle}
    def data(self, entry):
        log({name!r}, "process", entry.abspath)
        out = {{}}
        for i, (key, vals) in enumerate(self.vals):
            value = vals[(len(os.fsencode(entry.name)) + i) % len(vals)]
            if value is not None:
                out[key] = value
        return out
    {body}
'''
BODIES = {
    "yield": '''def process(self, entry, cached):
        for key, value in self.data(entry).items():
            yield key, value''',
    "dict": '''def process(self, entry, cached):
        return self.data(entry)''',
    "list": '''def process(self, entry, cached):
        return list(self.data(entry).items())''',
    "nodata": '''def process(self, entry, cached):
        if len(entry.name) % 3 == 0:
            raise NoData
        yield from self.data(entry).items()''',
    "late": '''def process(self, entry, cached):
        for key, value in self.data(entry).items():
            yield key, value
        if len(entry.name) % 3 == 0:
            raise NoData''',
    "cached": '''def cache(self, entry):
        if len(entry.name) % 3 == 0:
            raise NoData
        return {"data": self.data(entry)}
    def process(self, entry, cached):
        return cached["data"]''',
    # Nothing to remember, process() does it all.
    "cachednone": '''def process(self, entry, cached):
        assert cached is None
        return self.data(entry)''',
    "cachedfalse": '''def cache(self, entry):
        if len(entry.name) % 3 == 0:
            raise NoData
        return (0, "", [], False, {}, None)[len(entry.name) % 6]
    def process(self, entry, cached):
        assert not cached
        return self.data(entry)''',
}
HANDLE = {"all": "True", "file": 'entry.is_file()', "link": "entry.is_symlink()", "special": "entry.is_socket() or entry.is_fifo()", "exec": "entry.is_executable()",
          "asked": 'entry.get_attribute("size") > 0 and entry.dirname == os.path.abspath(entry.dir) and entry.basename == entry.name', "dir": 'entry.is_dir()', "even": "len(entry.name) % 2 == 0", "none": "False", "ext": 'entry.ext == "txt"',
          "truthy": 'entry.name.count("a")'}


def handles(rule, e):
    n = e["name"]
    return {"all": True, "file": e["type"] == "file", "link": e["type"] == "symlink", "special": e["type"] in ("socket", "fifo"), "exec": e["exec"], "asked": e["size"] > 0, "dir": e["type"] == "directory", "even": len(n) % 2 == 0, "none": False, "ext": e["ext"] == "txt",
            "truthy": "a" in n}[rule]


TEXT = st.one_of(st.text(alphabet="abA0 .,=:~%{}äß\udcff日\n\t'\"\\", max_size=6), st.sampled_from(["x", "yes", "12", "foo"]))
VALUES = {
    "String": TEXT, "Path": TEXT, "Number": st.integers(0, 10 ** 12), "Size": st.integers(0, 2 ** 40), "Duration": st.integers(0, 10 ** 6),
    "Time": st.integers(0, 2 ** 31), "Boolean": st.booleans(), "Mode": st.integers(0, 0o177777), "FileType": st.sampled_from(["file", "directory", "other"]),
    "ListOfStrings": st.lists(TEXT, max_size=3)}
ATTR = st.sampled_from(["foo", "foo", "bar", "baz", "x_y", "A", "size", "name", "type", "lines", "members", "ignored", "uno", "due", "tre"])
# Attribute names of bundled plugins that are used above.
BUNDLED = {"lines": {"grep"}, "members": {"tar"}, "ignored": {"ignore"}}
ATTRIBUTE = st.tuples(ATTR, st.sampled_from(sorted(VALUES))).flatmap(
    lambda t: st.tuples(st.just(t[0]), st.just(t[1]), st.lists(st.one_of(VALUES[t[1]], VALUES[t[1]], st.none()), min_size=1, max_size=4)))
PLUGIN = st.fixed_dictionaries({
    "cls": st.sampled_from(["Vpa", "Vpb", "Vpc", "VpD", "Vp_e", "VPF9"]), "dir": st.integers(0, 2), "file": st.integers(0, 2),
    "attrs": st.lists(ATTRIBUTE, min_size=1, max_size=4, unique_by=lambda a: a[0]), "body": st.sampled_from(sorted(BODIES)),
    "handle": st.sampled_from(sorted(HANDLE) + ["all", "all", "file"]), "speed": st.sampled_from(["FAST", "NORMAL", "SLOW"]),
    "sets": st.booleans(), "base": st.booleans()})


def strategy(tier):
    return st.fixed_dictionaries({
        "tree": tree.nodes(min_size=1, max_size=12, name_st=tree.names(extra=["aa.txt", "b.txt", "bb", "abc"])),
        "plugins": st.lists(PLUGIN, min_size=1, max_size=4, unique_by=lambda p: p["cls"]),
        "ask": st.lists(st.tuples(st.integers(0, 30), st.booleans()), min_size=1, max_size=4),
        "test": st.one_of(st.none(), st.tuples(st.integers(0, 30), st.integers(0, 10), st.booleans(), st.sampled_from(["", "", "before", "after"]))),
        "decoys": st.lists(st.sampled_from(["underscore", "text", "directory", "broken", "link", "pyc"]), max_size=3),
        "dirs": st.sampled_from(["", "", "missing", "empty"]), "cache": st.booleans(),
        "opt": st.booleans(), "jobs": JOBS, "sched": SCHED})


def spec_values(plugin, typ, vals):
    if typ == "ListOfStrings" and plugin["sets"]:
        return "[" + ", ".join("None" if v is None else f"set({v!r})" for v in vals) + "]"
    return repr(vals)


def render(plugin):
    attributes = "[" + ", ".join(f"({n!r}, {t}, 'about {n}')" for n, t, _ in plugin["attrs"]) + "]"
    vals = "[" + ", ".join(f"({n!r}, {spec_values(plugin, t, v)})" for n, t, v in plugin["attrs"]) + "]"
    return CLASS.format(cls=plugin["cls"], name=plugin["cls"].lower(), base="Plugin", speed=plugin["speed"], cache=plugin["body"].startswith("cached"),
                        attributes=attributes, vals=vals, handle=HANDLE[plugin["handle"]], body=BODIES[plugin["body"]])


def values(plugin, e):
    """What the plugin reports for an entry."""
    if not handles(plugin["handle"], e):
        return {}
    if plugin["body"] in ("nodata", "late", "cached", "cachedfalse") and len(e["name"]) % 3 == 0:
        return {}
    out = {}
    for i, (name, typ, vals) in enumerate(plugin["attrs"]):
        v = vals[(len(os.fsencode(e["name"])) + i) % len(vals)]
        if v is not None:
            out[name] = sorted(set(v)) if typ == "ListOfStrings" and plugin["sets"] else v
    return out


class Setup:
    """Plugin files in the directories ff looks at."""

    def __init__(self, ctx, spec):
        self.ctx = ctx
        self.home = os.path.join(ctx.runner.home, ".ff")
        self.dirs = [os.path.join(ctx.case, "pa"), os.path.join(ctx.case, "pb"), self.home]
        self.log = os.path.join(ctx.case, "plog")
        shutil.rmtree(self.home, ignore_errors=True)
        for d in self.dirs:
            os.mkdir(d)

    def write(self, d, name, text):
        with open(os.path.join(self.dirs[d], name), "w", encoding="utf-8") as f:
            f.write("# -*- coding: utf-8 -*-\n" + text)

    def env(self, opt, extra=""):
        dirs = self.dirs[:2]
        if extra == "missing":
            dirs = ["/nonexistent/plugins", *dirs]
        elif extra == "empty":
            dirs = ["", dirs[0], "", dirs[1], ""]
        if opt:
            dirs.append(os.path.join(REPO, "plugins"))
        return {"FF_PLUGIN_DIRS": ":".join(dirs), "VF_PLOG": self.log}

    def calls(self):
        try:
            with open(self.log) as f:
                return [json.loads(x) for x in f]
        except FileNotFoundError:
            return []

    def close(self):
        shutil.rmtree(self.home, ignore_errors=True)


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    tree.build(root, spec["tree"])
    es = model.entries([(".", root)], absolute=True)
    s = Setup(ctx, spec)
    try:
        search(ctx, spec, root, es, s)
    finally:
        s.close()


def search(ctx, spec, root, es, s):
    files = {}
    for p in spec["plugins"]:
        files.setdefault((p["dir"], p["file"]), []).append(p)
    # Names are never used twice, because compiled modules are recognised by their time and size.
    for (d, n), plugins in files.items():
        s.write(d, f"vp{ctx.n}x{n}.py", HEAD + "".join(render(p) for p in plugins))
    boom = "raise RuntimeError('this must not be imported')\n"
    for i, decoy in enumerate(spec["decoys"]):
        base = os.path.join(s.dirs[i % 3], f"vp{ctx.n}d{i}")
        if decoy == "underscore":
            s.write(i % 3, f"_vp{ctx.n}d{i}.py", boom)
        elif decoy == "text":
            s.write(i % 3, f"vp{ctx.n}d{i}.txt", boom)
        elif decoy == "pyc":
            s.write(i % 3, f"vp{ctx.n}d{i}.pyc", boom)
        elif decoy == "directory":
            os.mkdir(base + ".py")
        elif decoy == "broken":
            os.symlink("nowhere", base + ".py")
        elif files:
            # A plugin file may be a symbolic link.
            (d, n), plugins = next(iter(files.items()))
            name = os.path.join(s.dirs[d], f"vp{ctx.n}x{n}.py")
            if not os.path.islink(name):
                os.rename(name, os.path.join(ctx.case, f"vp{ctx.n}real{i}"))
                os.symlink(os.path.join(ctx.case, f"vp{ctx.n}real{i}"), name)

    table = {}              # attribute name -> {plugin}
    kinds = {}
    for k, v in BUNDLED.items():
        table[k] = set(v)
    for p in spec["plugins"]:
        for name, typ, _ in p["attrs"]:
            table.setdefault(name, set()).add(p["cls"].lower())
            kinds[p["cls"].lower(), name] = typ
    plugins = {p["cls"].lower(): p for p in spec["plugins"]}
    known = sorted(kinds)

    def resolve(name):
        """(plugin, attribute) or None if the name cannot be used."""
        plug, dot, attr = name.partition(".")
        if dot:
            return (plug, attr) if (plug, attr) in kinds else None
        if name in ("size", "name", "type"):
            return "file", name
        found = table.get(name, set())
        return (next(iter(found)), name) if len(found) == 1 else None

    asked, used = [], set()
    for k, full in spec["ask"]:
        pool = known + [("vpa", "nosuch"), ("vpnone", "foo"), ("", "nosuch")] if k > 28 else known
        plug, attr = pool[k % len(pool)]
        if k > 28:
            plug, attr = pool[-1 - k % 3]
        name = f"{plug}.{attr}" if plug and (full or k > 28) else attr
        if name not in asked:
            asked.append(name)
    bad = [n for n in asked if resolve(n) is None]
    targets = {n: resolve(n) for n in asked}
    test = None
    keep = lambda e: True
    argv_test = []
    prefilter = None
    if spec["test"] is not None and not bad:
        which, pick, negate, fast = spec["test"]
        plug, attr = known[which % len(known)]
        p = plugins[plug]
        typ, vals = next((t, v) for n, t, v in p["attrs"] if n == attr)
        v = [x for x in vals if x is not None]
        v = v[pick % len(v)] if v else None
        if typ == "ListOfStrings" and v is not None:
            v = sorted(set(v))[0] if v else None
        made = None
        if isinstance(v, str) and typ != "FileType":
            if v and v == v.strip() and not v.startswith("{") and "\0" not in v:
                made = f"{plug}.{attr}={v}", (lambda x: v in x) if typ == "ListOfStrings" else (lambda x: x == v)
        elif isinstance(v, bool):
            made = f"{plug}.{attr}={'yes' if v else 'no'}", lambda x: x == v
        elif typ in ("Number", "Size"):
            if v is not None:
                made = f"{plug}.{attr}+={v}", lambda x: x >= v
        elif typ == "Duration" and v is not None:
            made = f"{plug}.{attr}={v}s", lambda x: x == v
        if made:
            argv_test = (["not"] if negate else []) + [made[0]]
            used.add(plug)

            def keep(e, p=p, attr=attr, made=made):
                d = values(p, e)
                return (attr in d and made[1](d[attr])) != negate
            if fast:
                argv_test = ["type=f"] + argv_test if fast == "before" else argv_test + ["type=f"]
                inner = keep

                def keep(e):
                    return e["type"] == "file" and inner(e)
                if p["speed"] == "SLOW":
                    prefilter = plug
    argv = ["--jsonl", "--case=sensitive", "-o", ",".join(["path"] + asked), f"-j{spec['jobs']}"]
    if spec["cache"]:
        argv.append("--cache=" + os.path.join(ctx.case, "c.db"))
    else:
        argv.append("--no-cache")
    argv += argv_test
    res = ctx.run(argv, root, opt=spec["opt"], env=s.env(spec["opt"], spec["dirs"]), sched=spec["sched"])
    ctx.nontrivial = len(es) > 0
    ctx.mark("opt" if spec["opt"] else "debug")
    if bad:
        ctx.mark("bad name")
        if res.timed_out or res.rc != 11 or res.out or not res.err or res.traceback:
            fail(f"attributes {bad} were not rejected", res, argv=argv)
        return
    expect_clean(res, argv)
    if res.err:
        fail("messages on standard error", res, argv=argv)
    want = {}
    for e in es:
        if not keep(e):
            continue
        row = {}
        for name, (plug, attr) in targets.items():
            if plug == "file":
                row[name] = e[attr]
            elif plug in plugins:
                row[name] = values(plugins[plug], e).get(attr)
        want[e["path"]] = row
    got = {}
    for line in res.out.decode("utf-8").splitlines():
        row = json.loads(line)
        got[row.pop("path")] = row
    expect_same(list(got), list(want), res, argv=argv)
    if spec["cache"] and any(plugins[plug]["body"].startswith("cached") for plug, _ in targets.values() if plug in plugins):
        again = ctx.run(argv, root, opt=spec["opt"], env={**s.env(spec["opt"], spec["dirs"]), "VF_PLOG": s.log + "2"}, sched=spec["sched"])
        expect_clean(again, argv)
        # Sets have no order.
        one, two = (sorted(repr(sorted((k, sorted(v) if isinstance(v, list) else v) for k, v in json.loads(x).items())) for x in r.out.decode("utf-8").splitlines())
                    for r in (again, res))
        expect_same(one, two, again, argv=argv, what="results of the second search")
        ctx.mark("from the cache")
    for path, row in want.items():
        for name, value in row.items():
            g = got[path][name]
            plug, attr = targets[name]
            if kinds.get((plug, attr)) == "ListOfStrings" and plugins[plug]["sets"] and g is not None:
                g = sorted(g)
            if g != value or type(g) is not type(value):
                fail(f"{name} differs", res, argv=argv, path=path, got=repr(g), expected=repr(value))
    used.update(plug for plug, _ in targets.values())
    by_path = {e["path"]: e for e in es}
    for plug, what, path in s.calls():
        if plug not in used:
            fail("a plugin was used that the search does not need", res, argv=argv, call=[plug, what, path])
        if what == "process" and not handles(plugins[plug]["handle"], by_path[path]):
            fail("a plugin was asked for data of an entry it cannot handle", res, argv=argv, call=[plug, what, path])
        if plug == prefilter and what != "setup" and plug not in {t[0] for t in targets.values()} and by_path[path]["type"] != "file":
            fail("a slow plugin was asked for an entry that fails another test", res, argv=argv, call=[plug, what, path])
    for plug, attr in targets.values():
        ctx.mark("short" if attr in asked else "full", "file" if plug == "file" else kinds.get((plug, attr), "bundled"))
    if argv_test:
        ctx.mark("test")
    for d in spec["decoys"]:
        ctx.mark("decoy:" + d)


# --- modules and plugins that fail ---------------------------------------------------------------

LOAD = {
    "syntax": "def f(:\n", "import": "import no_such_module_xyz\n", "raise": "raise ValueError('boom')\n", "oserror": "open('/nonexistent/file')\n",
    "type": "class Vbad(Plugin):\n    attributes = [('foo', int, 'x')]\n    def can_handle(self, entry):\n        return True\n    def process(self, entry, cached):\n        yield 'foo', 1\n",
    "runtime": "class Vbad(Plugin):\n    attributes = [('foo', String, 'x')]\n    1 / 0\n", "keyerror": "{}['x']\n", "nul": "x = 1\0\n",
    "tag": "class Vbad(Plugin):\n    cache_tag = -1\n    attributes = [('foo', String, 'x')]\n"}
METHODS = {
    "setup-raise": ("setup", "def setup(self):\n        raise ValueError('boom')"),
    "setup-missing": ("setup", "def setup(self):\n        raise MissingImport('nosuchmodule')"),
    "setup-oserror": ("setup", "def setup(self):\n        open('/nonexistent/x')"),
    "process-raise": ("process", "def process(self, entry, cached):\n        raise ValueError('boom')"),
    "process-oserror": ("process", "def process(self, entry, cached):\n        open('/nonexistent/x')"),
    "process-pipe": ("process", "def process(self, entry, cached):\n        raise BrokenPipeError"),
    "process-keyerror": ("process", "def process(self, entry, cached):\n        {}['foo']"),
    "process-late": ("process", "def process(self, entry, cached):\n        yield 'foo', 'x'\n        raise ValueError('boom')"),
    "process-none": ("process", "def process(self, entry, cached):\n        return None"),
    "process-missing": ("process", ""),
    "process-some": ("process", "def process(self, entry, cached):\n        if entry.name == 'f7':\n            raise IndexError('boom')\n        yield 'foo', 'x'"),
    "handle-raise": ("process", "def can_handle(self, entry):\n        raise ValueError('boom')"),
    "cache-raise": ("process", "use_cache = True\n    def cache(self, entry):\n        raise ValueError('boom')\n    def process(self, entry, cached):\n        yield 'foo', 'x'"),
    "cache-oserror": ("process", "use_cache = True\n    def cache(self, entry):\n        open('/nonexistent/x')\n    def process(self, entry, cached):\n        yield 'foo', 'x'"),
    "tag-raise": ("process", "use_cache = True\n    def get_entry_cache_tag(self, entry):\n        raise ValueError('boom')\n    def process(self, entry, cached):\n        yield 'foo', 'x'"),
    "type-int": ("debug", "def process(self, entry, cached):\n        yield 'foo', 1"),
    "type-none": ("debug", "def process(self, entry, cached):\n        yield 'foo', None"),
    "type-bytes": ("debug", "def process(self, entry, cached):\n        yield 'foo', b'x'"),
    "type-number": ("debug", "def process(self, entry, cached):\n        yield 'num', 'x'"),
    "type-list": ("debug", "def process(self, entry, cached):\n        yield 'lst', ['a', 1]"),
    "type-list2": ("debug", "def process(self, entry, cached):\n        yield 'lst', 'abc'"),
    "unknown": ("debug", "def process(self, entry, cached):\n        yield 'nosuch', 'x'")}
USES = {"output": ["-o", "path,foo"], "test": ["vbad.foo=x"], "sort": ["-S", "foo"], "count": ["--count", "foo"], "exclude": ["-e", "vbad.foo=x"], "json": ["--json", "-o", "foo"],
        "exec": ["-x", "true", "{vbad.foo}"], "or": ["name=zzz", "or", "foo=x"], "none": [], "file": ["-o", "path,size", "size+=0"]}


def error_cases(tier, seed):
    for opt in (False, True):
        for name in LOAD:
            for use in ("none", "test"):
                yield {"load": name, "use": use, "opt": opt, "jobs": 2, "dir": (len(name) + opt) % 3}
        for i, name in enumerate(METHODS):
            for j, use in enumerate(USES):
                yield {"method": name, "use": use, "opt": opt, "jobs": 1 + (i + j) % 3, "dir": (i + j) % 3}


def run_error(ctx, spec):
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    for i in range(12):
        open(os.path.join(root, f"f{i}"), "w").close()
    s = Setup(ctx, spec)
    try:
        if "load" in spec:
            text = HEAD + LOAD[spec["load"]]
            stage = "load"
        else:
            stage, method = METHODS[spec["method"]]
            handle = "" if spec["method"] == "handle-raise" else "def can_handle(self, entry):\n        return True\n    "
            text = HEAD + ("class Vbad(Plugin):\n    attributes = [('foo', String, 'x'), ('num', Number, 'x'), ('lst', ListOfStrings, 'x')]\n    "
                           + handle + method + "\n")
        s.write(spec["dir"], f"vp{ctx.n}bad.py", text)
        argv = ["--no-cache", f"-j{spec['jobs']}"] + USES[spec["use"]]
        res = ctx.run(argv, root, opt=spec["opt"], env=s.env(spec["opt"]), timeout=60)
    finally:
        s.close()
    ctx.nontrivial = True
    ctx.mark("stage:" + stage)
    if res.timed_out:
        fail("ff did not terminate", res, argv=argv)
    if spec.get("load") == "tag" and spec["opt"] or stage == "debug" and spec["opt"]:
        # Values are verified in debug mode only.
        return
    unused = spec["use"] in ("none", "file")
    if stage == "load":
        codes = (10,)
    elif unused:
        codes = (0,)
    elif stage == "setup":
        codes = (10,)
    else:
        codes = (4, 10, 11) if spec["method"] == "unknown" else (4, 10)
    if res.rc not in codes:
        fail(f"exit code {res.rc}, expected {codes}", res, argv=argv)
    if res.rc and not res.err:
        fail("no error message", res, argv=argv)
    if res.rc == 10 and stage in ("load", "setup") and res.out:
        fail("results in spite of an error", res, argv=argv)
    if res.rc == 0 and (res.err or len(res.out.splitlines()) != 12):
        fail("unexpected output", res, argv=argv)


CHECK = Check(
    "C26",
    [Part("plugins", run, strategy, quick=1100), Part("errors", run_error, cases=error_cases, quick=40)],
    rule="Generated modules with up to four plugins (attributes of all types with given values, name clashes, ways to return data, entries they handle) in the "
         "three plugin directories, among files that are no plugins; all ways to fail with all ways to use the plugin.  Non-trivial: there are entries.",
    assumptions=["Two plugins of the same name are not generated: which one is used is not specified.",
                 "Types of values are verified by ff in debug mode only (not with -O)."])
