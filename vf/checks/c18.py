"""C18: histories of searches and modifications over a shared metadata cache."""
import collections
import json
import os
import time

from hypothesis import strategies as st

from .. import tree
from ..core import Check, Part
from ..lib import JOBS, SCHED, diff_multiset, expect_clean, fail
from ..runner import REPO, killpg
from ..tree import split0

PLUGIN = '''
import os, json
from libff.plugin import *
VERSION = %(version)d

def log(plugin, entry, tag):
    fd = os.open(os.environ["VF_CLOG"], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps([plugin, VERSION, entry.abspath, tag]) + "\\n").encode())
    os.close(fd)

def content(entry):
    if entry.type == "symlink":
        return os.fsencode(os.readlink(entry.path))
    with open(entry.path, "rb") as f:
        return f.read()

class Vc(Plugin):
    """Content of files, keyed by the modification time."""
    use_cache = True
    attributes = [("ctext", String, "content"), ("clen", Number, "length")]
    def can_handle(self, entry):
        return entry.type == "file"
    def cache(self, entry):
        log("vc", entry, [entry.mtime])
        data = content(entry)
        if data.startswith(b"n"):
            raise NoData
        return data
    def process(self, entry, cached):
        yield "ctext", f"{VERSION}:{cached[:12].hex()}"
        yield "clen", len(cached) * VERSION

class Vc_1(Plugin):
    """Also symbolic links, with another tag and without values for empty files."""
    use_cache = True
    speed = Speed.SLOW
    attributes = [("xlist", ListOfStrings, "characters"), ("xsum", Number, "sum")]
    def can_handle(self, entry):
        return entry.type in ("file", "symlink") and "z" not in entry.name
    def get_entry_cache_tag(self, entry):
        return [entry.size, entry.time]
    def cache(self, entry):
        log("vc_1", entry, [entry.size, entry.mtime])
        data = content(entry)
        if not data:
            return None
        return {"l": sorted(set(chr(c) for c in data)), "s": sum(data) + VERSION}
    def process(self, entry, cached):
        if cached is not None:
            yield "xlist", cached["l"]
            yield "xsum", cached["s"]

class Vc1(Plugin):
    """A fixed version number."""
    use_cache = True
    cache_tag = 7
    speed = Speed.FAST
    attributes = [("first", String, "first byte"), ("odd", Boolean, "length is odd")]
    def can_handle(self, entry):
        return True
    def cache(self, entry):
        log("vc1", entry, [entry.mtime])
        if entry.type == "directory":
            raise NoData
        data = content(entry)
        return [data[:1].decode("latin-1"), bool(len(data) & 1)]
    def process(self, entry, cached):
        return {"first": "=" + cached[0], "odd": cached[1]}
'''

ATTRS = {"ctext": "vc", "clen": "vc", "xlist": "vc_1", "xsum": "vc_1", "first": "vc1", "odd": "vc1"}
NAMES = ["a", "b", "c.txt", "z", "A", "d e", "\n", "\udcff", "ä", "'", "a%", "x\"y"]
CONTENT = st.one_of(st.sampled_from([b"", b"a", b"n", b"nodata", b"xyz" * 5, b"\0\xff", b"b" * 100]), st.binary(max_size=9)).map(lambda b: b.decode("latin-1"))

SEARCH = st.fixed_dictionaries({
    "form": st.sampled_from(["json", "json", "json", "test", "sort", "count", "exclude", "ref"]),
    "attrs": st.lists(st.sampled_from(sorted(ATTRS)), min_size=1, max_size=4, unique=True),
    "n": st.integers(0, 40), "start": st.sampled_from(["rel", "rel", "rel", "abs", "up"]), "cwd": st.sampled_from([0, 0, 1, 2]), "dir": st.sampled_from([0, 0, 0, 1, 1, 2]),
    "a": st.sampled_from([[], ["-a"]]), "jobs": JOBS, "opt": st.booleans(), "sched": SCHED,
})
OP = st.one_of(
    st.fixed_dictionaries({"op": st.just("create"), "dir": st.integers(0, 2), "name": st.sampled_from(NAMES), "content": CONTENT, "link": st.sampled_from([False, False, False, True]), "twin": st.one_of(st.none(), st.integers(0, 20))}),
    st.fixed_dictionaries({"op": st.just("modify"), "i": st.integers(0, 20), "content": CONTENT}),
    st.fixed_dictionaries({"op": st.just("touch"), "i": st.integers(0, 20)}),
    st.fixed_dictionaries({"op": st.just("remove"), "i": st.integers(0, 20)}),
    st.fixed_dictionaries({"op": st.just("rename"), "i": st.integers(0, 20), "dir": st.integers(0, 2), "name": st.sampled_from(NAMES)}),
    # Remove, clean the cache, create again with the same time stamp.
    st.fixed_dictionaries({"op": st.just("reborn"), "i": st.integers(0, 20), "content": CONTENT}),
    st.fixed_dictionaries({"op": st.just("version"), "to": st.integers(1, 3)}),
    st.fixed_dictionaries({"op": st.just("clean")}),
    st.fixed_dictionaries({"op": st.just("search"), "s": st.lists(SEARCH, min_size=1, max_size=1)}),
    st.fixed_dictionaries({"op": st.just("search"), "s": st.lists(SEARCH, min_size=1, max_size=1)}),
    st.fixed_dictionaries({"op": st.just("search"), "s": st.lists(SEARCH, min_size=1, max_size=1)}),
    st.fixed_dictionaries({"op": st.just("search"), "s": st.lists(SEARCH, min_size=2, max_size=4), "clean": st.booleans()}),
    # All processes of a search are killed.
    st.fixed_dictionaries({"op": st.just("kill"), "s": st.lists(SEARCH, min_size=1, max_size=2), "ms": st.sampled_from([0, 10, 20, 30, 40, 60, 100]), "n": st.integers(1, 3)}),
)


def strategy(tier):
    first = st.lists(st.fixed_dictionaries({"op": st.just("create"), "dir": st.integers(0, 2), "name": st.sampled_from(NAMES), "content": CONTENT,
                                            "link": st.sampled_from([False, False, False, True]), "twin": st.one_of(st.none(), st.integers(0, 20))}), min_size=1, max_size=6)
    return st.fixed_dictionaries({"first": first, "ops": st.lists(OP, min_size=2, max_size=18 if tier == "thorough" else 9)})


class History:
    def __init__(self, ctx):
        self.ctx = ctx
        self.root = os.path.join(ctx.case, "t")
        self.dirs = ["", "sub/", "sub/x/"]
        os.makedirs(os.path.join(self.root, "sub/x"))
        self.files = {}         # relative path -> [content, is link, mtime]
        self.clock = 10 ** 9
        self.used = set()       # (relative path, mtime)
        self.db = os.path.join(ctx.case, "ff.db")
        self.log = os.path.join(ctx.case, "log")
        self.pos = 0
        self.known = {}         # (plugin, absolute path) -> (version, tag)
        self.version = 1
        self.hits = 0
        self.changed = False
        self.set_version(1)
        self.fix_dirs()

    def tick(self):
        self.clock += 100
        return self.clock

    def fix_dirs(self):
        for i, d in enumerate(self.dirs):
            os.utime(os.path.join(self.root, d), (i + 5, i + 5))

    def set_version(self, v):
        # All versions of the plugin file have the same length, the same characters, the same
        # beginning and the same modification time.
        self.version = v = {1: 123, 2: 132, 3: 213}[v]
        d = os.path.join(self.ctx.case, f"plugins{v}")
        if not os.path.isdir(d):
            os.mkdir(d)
            path = os.path.join(d, f"vfcache_{os.getpid()}_{v}.py")
            with open(path, "w") as f:
                f.write("# A test plugin.\n" * 300 + PLUGIN % {"version": v} + "\n# The end.\n" * 300)
            os.utime(path, (10 ** 9, 10 ** 9))
        self.plugdir = d

    def write(self, rel, content, link, mtime):
        path = os.path.join(self.root, rel)
        if os.path.lexists(path):
            os.unlink(path)
        if link:
            os.symlink(content, path)
        else:
            with open(path, "wb") as f:
                f.write(content.encode("latin-1"))
        os.utime(path, (mtime, mtime), follow_symlinks=False)
        self.used.add((rel, mtime))
        self.files[rel] = [content, link, mtime]

    def pick(self, i):
        return sorted(self.files)[i % len(self.files)] if self.files else None

    def values(self, rel, name_is_dir=False):
        if name_is_dir:
            return {}
        content, link, _ = self.files[rel]
        data = content.encode("utf-8", "surrogateescape") if link else content.encode("latin-1")
        name = rel.split("/")[-1]
        out = {}
        if not link and not data.startswith(b"n"):
            out["ctext"] = f"{self.version}:{data[:12].hex()}"
            out["clen"] = len(data) * self.version
        if "z" not in name and data:
            out["xlist"] = sorted(set(chr(c) for c in data))
            out["xsum"] = sum(data) + self.version
        # This plugin claims to give the same values in all versions.
        out["first"] = "=" + data[:1].decode("latin-1")
        out["odd"] = bool(len(data) & 1)
        return out

    def entries(self, start):
        prefix = self.dirs[start]
        out = {}
        for rel in list(self.files) + [d[:-1] for d in self.dirs[1:]]:
            if rel.startswith(prefix) and rel != prefix[:-1]:
                out[rel] = self.values(rel, rel not in self.files)
        return out

    def command(self, s):
        form, attrs = s["form"], s["attrs"]
        cwd, target = os.path.join(self.root, self.dirs[s["cwd"]]), os.path.join(self.root, self.dirs[s["dir"]])
        start = os.path.relpath(target, cwd) if s["start"] == "rel" else os.path.normpath(target)
        if s["start"] == "up":
            start = os.path.join(self.root, "sub/..", self.dirs[s["dir"]])
        argv = [f"--cache={self.db}", f"-j{s['jobs']}"] + (["-D", start] if start != "." else []) + s["a"]
        used = set(attrs)
        if form == "json":
            argv += ["--jsonl", "-o", ",".join(["path"] + attrs)]
        elif form == "test":
            used = {"clen", "xsum"}
            argv += ["-0", "clen+%d" % s["n"], "or", "not", "xsum-=%d" % (s["n"] * 5)]
        elif form == "exclude":
            used = {"odd"}
            argv += ["-0", "-e", "odd=yes", "type=f"]
        elif form == "sort":
            argv += ["-0", "-S", ",".join(attrs)]
        elif form == "count":
            argv += ["--json", "--count=" + ",".join(a for a in attrs if a != "xlist") if attrs != ["xlist"] else "--count=clen"]
            used = {a for a in attrs if a != "xlist"} or {"clen"}
        elif form == "ref":
            rel = self.pick(s["n"])
            used = {"first"}
            argv += ["-0", "first={}" + os.path.join(self.root, rel)] if rel else ["-0", "first==a"]
        return argv, used

    def check(self, s, argv, res):
        expect_clean(res, argv)
        form, attrs = s["form"], s["attrs"]
        es = self.entries(s["dir"])
        cwd = os.path.join(self.root, self.dirs[s["cwd"]])

        def paths():
            return [os.path.relpath(os.path.join(cwd, p), self.root) for p in split0(res.out)]

        if form == "json":
            got = {}
            for line in res.out.splitlines():
                r = json.loads(line)
                got[os.path.relpath(r.pop("path"), self.root)] = r
            want = {rel: {a: v.get(a) for a in attrs} for rel, v in es.items()}
            if got != want:
                bad = [(k, got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
                fail("values differ from those of a search without cache", res, argv=argv, first=bad[:4])
            return
        if form == "count":
            want = {"_total": len(es)}
            for a in [a for a in attrs if a != "xlist"] or ["clen"]:
                c = collections.Counter(("true" if v[a] else "false") if isinstance(v[a], bool) else str(v[a]) for v in es.values() if a in v)
                if c:
                    want[a] = dict(c)
            got = json.loads(res.out)
            if got != want:
                fail("counts differ from those of a search without cache", res, argv=argv, got=got, want=want)
            return
        got = paths()
        if form == "test":
            want = [r for r, v in es.items() if v.get("clen", -1) > s["n"] or not ("xsum" in v and v["xsum"] <= s["n"] * 5)]
        elif form == "exclude":
            want = [r for r, v in es.items() if r in self.files and not self.files[r][1] and not v.get("odd")]
        elif form == "ref":
            rel = self.pick(s["n"])
            ref = self.values(rel)["first"] if rel else "=a"
            case = ref == ref.lower()
            want = [r for r, v in es.items() if "first" in v and (v["first"].lower() == ref.lower() if case else v["first"] == ref)]
        else:
            want = list(es)
        missing, extra = diff_multiset(got, want)
        if missing or extra:
            fail("results differ from those of a search without cache", res, argv=argv, missing=missing[:5], unexpected=extra[:5])
        if form == "sort":
            def key(v):
                # The keys that can be told apart for sure.
                return v.get("clen", 0) if attrs[0] == "clen" else v.get("xsum", 0) if attrs[0] == "xsum" else 0
            keys = [key(es[r]) for r in got]
            if keys != sorted(keys):
                fail("wrong order", res, argv=argv, keys=keys)

    def start(self, s):
        argv, used = self.command(s)
        env = {"VF_CLOG": self.log, "FF_PLUGIN_DIRS": self.plugdir + (":" + os.path.join(REPO, "plugins") if s["opt"] else "")}
        return argv, {ATTRS[a] for a in used}, self.ctx.runner.start(argv, os.path.join(self.root, self.dirs[s["cwd"]]), opt=s["opt"], env=env, sched=s["sched"])

    def new_lines(self):
        """What was computed since the last call?"""
        if not os.path.exists(self.log):
            return []
        with open(self.log) as f:
            f.seek(self.pos)
            lines = f.read().splitlines()
            self.pos = f.tell()
        out = []
        for line in lines:
            plugin, version, path, tag = json.loads(line)
            out.append(((plugin, path), (0 if plugin == "vc1" else version, tag)))
        return out

    def forget(self, registered):
        """Only data of the current version is kept."""
        for key in [k for k, (v, _) in self.known.items() if k[0] in registered and k[0] != "vc1" and v != self.version]:
            del self.known[key]

    def kill(self, op):
        for _ in range(op["n"]):
            jobs = [self.start(s) for s in op["s"]]
            for _, _, job in jobs:
                job.wait_pid()
            time.sleep(op["ms"] / 1000)
            for _, registered, job in jobs:
                killpg(job.wait_pid())
                self.forget(registered)
            for _, _, job in jobs:
                job.finish()
            # This data is there or not.
            for key, _ in self.new_lines():
                self.known.pop(key, None)

    def searches(self, op):
        jobs = []
        registered = set()
        for s in op["s"]:
            argv, reg, job = self.start(s)
            registered |= reg
            jobs.append((s, argv, job))
        if op.get("clean"):
            jobs.append((None, ["--clean-cache"], self.ctx.runner.start([f"--cache={self.db}", "--clean-cache"], self.root)))
        results = [(s, argv, j.finish()) for s, argv, j in jobs]
        for s, argv, res in results:
            if s is None:
                self.expect_cleaned(res)
            else:
                self.check(s, argv, res)
        self.forget(registered)
        fresh = {}
        for key, val in self.new_lines():
            if self.known.get(key) == val:
                fail(f"data of {key[0]} that is in the cache was computed again", results[0][2], argv=[a for _, a, _ in results], path=key[1])
            fresh[key] = val
        self.hits += sum(1 for k in self.known if k[0] in registered)
        self.known.update(fresh)

    def clean(self):
        argv = [f"--cache={self.db}", "--clean-cache"]
        self.expect_cleaned(self.ctx.run(argv, self.root))

    def expect_cleaned(self, res):
        expect_clean(res, ["--clean-cache"])
        if res.out:
            fail("output of --clean-cache", res)
        for key in [k for k in self.known if not os.path.lexists(k[1])]:
            del self.known[key]

    def apply(self, op):
        kind = op["op"]
        if kind == "create":
            rel = self.dirs[op["dir"]] + op["name"]
            link = op["link"] and op["content"].replace("\0", "") != ""
            content = op["content"].replace("\0", "") if link else op["content"]
            if link and (content.startswith("/") or "/" in content):
                link = False
            mtime = self.tick()
            if op["twin"] is not None and self.files:
                # The same time as another file, but not one this path has had.
                other = self.files[self.pick(op["twin"])][2]
                if (rel, other) not in self.used:
                    mtime = other
            self.write(rel, content, link, mtime)
        elif kind == "search":
            self.searches(op)
        elif kind == "kill":
            self.kill(op)
        elif kind == "version":
            self.set_version(op["to"])
        elif kind == "clean":
            self.clean()
        elif self.files:
            rel = self.pick(op["i"])
            content, link, mtime = self.files[rel]
            path = os.path.join(self.root, rel)
            if kind == "modify" and not link:
                self.write(rel, op["content"], False, self.tick())
            elif kind == "touch":
                self.files[rel][2] = self.tick()
                self.used.add((rel, self.clock))
                os.utime(path, (self.clock, self.clock), follow_symlinks=False)
            elif kind == "remove":
                os.unlink(path)
                del self.files[rel]
            elif kind == "rename":
                new = self.dirs[op["dir"]] + op["name"]
                if new != rel:
                    os.rename(path, os.path.join(self.root, new))
                    self.files[new] = self.files.pop(rel)
                    if (new, mtime) in self.used:
                        self.files[new][2] = self.tick()
                        os.utime(os.path.join(self.root, new), (self.clock, self.clock), follow_symlinks=False)
                    self.used.add((new, self.files[new][2]))
            elif kind == "reborn" and not link:
                os.unlink(path)
                self.clean()
                self.write(rel, op["content"], False, mtime)
        self.fix_dirs()


def run(ctx, spec):
    h = History(ctx)
    for op in spec["first"]:
        h.apply(op)
    kinds = []
    for op in spec["ops"]:
        h.apply(op)
        kinds.append(op["op"] if op["op"] != "search" else "concurrent" if len(op["s"]) > 1 else "search")
    # At the end everything is still right.
    h.apply({"op": "search", "s": [{"form": "json", "attrs": sorted(ATTRS), "n": 0, "start": "rel", "cwd": 0, "dir": 0, "a": [], "jobs": 2, "opt": False, "sched": None}]})
    ctx.nontrivial = h.hits > 0 and len(set(kinds)) > 1
    ctx.mark(*{k for k in kinds})


# ------------------------------------------------------------------ many entries (several commits), bundled plugins

def big_cases(tier, seed):
    for i in range(3 if tier == "quick" else 12):
        yield {"n": [700, 1300, 60][i % 3], "jobs": [1, 2, 8][i % 3], "conc": [1, 2, 4][i % 3], "ms": [150, 350, 60, 250][(i + seed) % 4], "opt": (i + seed) % 2 == 0}


def run_big(ctx, spec):
    """More entries than fit in one commit; two rounds with changes in between."""
    h = History(ctx)
    for i in range(spec["n"]):
        h.write(h.dirs[i % 3] + f"f{i}", f"content {i}", False, h.tick())
    h.fix_dirs()
    s = {"form": "json", "attrs": sorted(ATTRS), "n": 0, "start": "rel", "cwd": 0, "dir": 0, "a": [], "jobs": spec["jobs"], "opt": spec["opt"], "sched": None}
    h.apply({"op": "search", "s": [s] * spec["conc"]})
    if len([k for k in h.known if k[0] == "vc1"]) != spec["n"] + 2:
        fail("not all entries were computed in the first search")
    for i in range(0, spec["n"], 9):
        h.write(h.dirs[i % 3] + f"f{i}", f"other {i}", False, h.tick())
    h.apply({"op": "search", "s": [s] * spec["conc"], "clean": True})
    # Killed while the data of another version is computed and stored.
    h.set_version(2)
    h.apply({"op": "kill", "s": [s] * spec["conc"], "ms": spec["ms"], "n": 3})
    h.apply({"op": "search", "s": [s]})
    ctx.nontrivial = True


BUNDLED = st.fixed_dictionaries({
    "files": st.lists(st.tuples(st.sampled_from(["a.py", "b.txt", "c.tar", "d", "e.png"]), CONTENT), min_size=1, max_size=5),
    "changes": st.lists(st.tuples(st.integers(0, 4), CONTENT, st.booleans()), max_size=4), "opt": st.booleans(), "jobs": JOBS})


def run_bundled(ctx, spec):
    """The plugins that come with ff: with and without cache after each change."""
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    clock = 10 ** 9
    names = []

    def put(name, content):
        nonlocal clock
        clock += 1
        p = os.path.join(root, name)
        with open(p, "wb") as f:
            f.write(content.encode("latin-1"))
        os.utime(p, (clock, clock))
    for name, content in spec["files"]:
        put(name, content)
        names.append(name)
    argv = [f"-j{spec['jobs']}", "--jsonl", "-o", "path,md5,sha1.sha1,mime.type,mime.mime,mime.name,tar.members,size"]
    db = os.path.join(ctx.case, "x.db")

    def both():
        for _ in range(2):
            res = ctx.run([f"--cache={db}"] + argv, root, opt=spec["opt"])
            ref = ctx.run(["--no-cache"] + argv, root, opt=spec["opt"])
            expect_clean(res, argv)
            expect_clean(ref, argv)
            if sorted(res.out.splitlines()) != sorted(ref.out.splitlines()):
                fail("results with and without cache differ", res, argv=argv, without=ref.out.decode())
    both()
    for i, content, fill in spec["changes"]:
        name = names[i % len(names)]
        put(name, content * (50 if fill else 1))
        both()
    ctx.nontrivial = bool(spec["changes"])


CHECK = Check(
    "C18",
    [Part("history", run, strategy, quick=320), Part("big", run_big, cases=big_cases, quick=3),
     Part("bundled", run_bundled, BUNDLED, quick=24)],
    rule="Histories of create, modify, touch, remove, rename, plugin update, killed searches, --clean-cache and (concurrent) searches of six kinds over one cache; plugins log what they compute.  "
         "Non-trivial: cached data was available to a later search and the history has several kinds of operations.",
    assumptions=["Each version of a file has a modification time of its own (whole seconds), unless the cache was cleaned in between.",
                 "Concurrent searches use the same version of the plugins.", "Within one search an entry may be computed more than once (in different processes)."])
