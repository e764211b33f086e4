"""C19: files that vanish during the search, failing plugins, killed processes."""
import json
import os
import random
import signal
import time

from hypothesis import strategies as st

from .. import tree
from ..core import Check, Part, Skip
from ..lib import JOBS, SCHED, Recorder, fail
from ..runner import REPO, killpg
from ..tree import split0

NOBODY = 65534

# Executed in the ff process before it starts: makes the module "vffaults" available to the plugin, which carries out
# what it finds in the file VF_FAULTS.
PRE = r'''
import sys, types, os
m = types.ModuleType("vffaults")
code = """
import json, os, shutil, signal, time, sqlite3
real_scandir = os.scandir
try:
    with open(os.environ["VF_FAULTS"]) as f:
        conf = json.load(f)
except (KeyError, OSError):
    conf = {"faults": [], "scan": [], "delay": 0}

def once(i):
    try:
        os.mkdir(conf["marker"] + str(i))
        return True
    except OSError:
        return False

def change(ops):
    for kind, path, arg in ops:
        if os.path.realpath(os.path.dirname(path)) != os.path.dirname(path) or kind in ("chmod", "write", "fill") and os.path.islink(path) or \\
                kind == "rename" and os.path.realpath(os.path.dirname(arg)) != os.path.dirname(arg):
            continue    # Something else would be changed.
        try:
            if kind == "remove":
                if os.path.isdir(path) and not os.path.islink(path):
                    shutil.rmtree(path)
                else:
                    os.unlink(path)
            elif kind == "rename":
                os.rename(path, arg)
            elif kind == "chmod":
                os.chmod(path, arg)
            elif kind == "file":
                change([["remove", path, None]])
                with open(path, "w") as f:
                    f.write(arg)
            elif kind == "dir":
                change([["remove", path, None]])
                os.mkdir(path)
            elif kind == "symlink":
                change([["remove", path, None]])
                os.symlink(arg, path)
            elif kind == "write":
                with open(path, "r+") as f:
                    f.truncate(0)
                    f.write(arg)
            elif kind == "fill":
                for i in range(arg):
                    with open(os.path.join(path, "new%d" % i), "x"):
                        pass
                    os.mkdir(os.path.join(path, "newdir%d" % i))
        except (OSError, ValueError):
            pass

ERRORS = {"RuntimeError": RuntimeError("boom"), "OSError": FileNotFoundError(2, "boom"), "KeyError": KeyError("boom"), "BrokenPipeError": BrokenPipeError(32, "boom"),
          "UnicodeError": UnicodeDecodeError("utf-8", bytes(2), 0, 1, "boom"), "MemoryError": MemoryError(), "RecursionError": RecursionError(), "AssertionError": AssertionError(),
          "sqlite3": sqlite3.OperationalError("boom"), "NotImplementedError": NotImplementedError(), "ZeroDivisionError": ZeroDivisionError(), "EOFError": EOFError(),
          "StopIteration": StopIteration(), "TypeError": TypeError("boom"), "NameError": NameError("boom"), "IndexError": IndexError("boom"), "AttributeError": AttributeError("boom")}

def die(how):
    if how == "exit0":
        os._exit(0)
    elif how == "exit1":
        os._exit(1)
    elif how == "SystemExit":
        raise SystemExit(0)
    else:
        os.kill(os.getpid(), getattr(signal, how))
        time.sleep(10)

def at(hook, entry):
    if hook == "process" and conf.get("delay"):
        time.sleep(conf["delay"])
    for i, (h, rel, what, arg) in enumerate(conf["faults"]):
        if h == hook and rel == entry.relpath:
            if what == "change":
                if once(i):
                    change(arg)
            elif what == "raise":
                raise ERRORS[arg]
            elif what == "die":
                if once(i):
                    die(arg)
            elif what == "yield":
                return arg

class Scan:
    # The whole directory has been read, and then something happens.
    def __init__(self, path, ops):
        with real_scandir(path) as it:
            self.entries = iter(list(it))
        change(ops)
    def __enter__(self):
        return self
    def __exit__(self, *exc):
        return False
    def __iter__(self):
        return self
    def __next__(self):
        return next(self.entries)
    def close(self):
        pass

def scandir(path="."):
    for i, (target, when, ops) in enumerate(conf["scan"]):
        if isinstance(path, str) and os.path.realpath(path) == target and once("s%d" % i):
            if when == "before":
                change(ops)
            else:
                return Scan(path, ops)
    return real_scandir(path)

if conf["scan"]:
    os.scandir = scandir

if conf.get("timescale"):
    # A clock that runs faster, so that nobody has to wait for the timeouts.
    def scale(f, n):
        start = f()
        return lambda: start + (f() - start) * n
    time.time = scale(time.time, conf["timescale"])
    time.monotonic = scale(time.monotonic, conf["timescale"])
"""
exec(compile(code, "<vffaults>", "exec"), m.__dict__)
sys.modules["vffaults"] = m
'''

PLUGIN = '''
import vffaults
from libff.plugin import *

class Vffault(Plugin):
    """Faults."""
    attributes = [("vfok", Boolean, "true"), ("vfval", Number, "a number"), ("vfstr", String, "a string")]
    use_cache = vffaults.conf.get("use_cache", False)
    speed = Speed.SLOW if vffaults.conf.get("slow") else Speed.FAST

    def setup(self):
        pass

    def can_handle(self, entry):
        vffaults.at("can_handle", entry)
        return True

    def get_entry_cache_tag(self, entry):
        vffaults.at("tag", entry)
        return entry.mtime

    def cache(self, entry):
        vffaults.at("cache", entry)
        return None

    def process(self, entry, cached):
        x = vffaults.at("process", entry)
        if x == "none":
            return None
        if x == "int":
            return 5
        if x == "triple":
            return [("vfok", True, 1)]
        return self.values(entry, x)

    def values(self, entry, x):
        vffaults.at("generator", entry)
        yield "vfok", "yes" if x == "type" else True
        if x == "name":
            yield "vfnosuch", 1
        yield "vfval", len(entry.name)
        yield "vfstr", entry.name
'''

HEAVY = "text,lines,linecount,md5,mime.mime,tar.members,xattrs,fs.type,git.tracked,shebang,py.imports,link,target,broken,empty,mount,user,perm,time,ignored"
STABLE = ["path", "type", "size", "md5", "text", "lines", "mime.mime", "link", "xattrs", "user"]


def install(ctx, conf, opt):
    d = os.path.join(ctx.case, "plugins")
    if not os.path.isdir(d):
        os.mkdir(d)
        with open(os.path.join(d, f"vffault_{os.getpid()}.py"), "w") as f:
            f.write(PLUGIN)
    path = os.path.join(ctx.case, f"faults{len(os.listdir(ctx.case))}.json")
    marker = path + ".m"
    os.mkdir(marker)
    os.chmod(marker, 0o777)
    with open(path, "w") as f:
        json.dump(dict(conf, marker=marker + "/"), f)
    return {"FF_PLUGIN_DIRS": d + (":" + os.path.join(REPO, "plugins") if opt else ""), "VF_FAULTS": path}


def inside(rel, top):
    return rel == top or rel.startswith(top + "/")


# ------------------------------------------------------------------ A: changes at defined moments

CHANGE = st.fixed_dictionaries({
    "at": st.integers(0, 40), "when": st.sampled_from(["eval", "eval", "scan", "scan", "before"]),
    "ops": st.lists(st.tuples(st.sampled_from(["remove", "remove", "rename", "move", "chmod", "file", "dir", "symlink", "write", "fill"]), st.integers(0, 40), st.integers(0, 40)),
                    min_size=1, max_size=4)})


def strategy_a(tier):
    name = st.one_of(tree.names(extra=("x.tar", "y.py", ".gitignore", "a.sh")))
    return st.fixed_dictionaries({
        "nodes": tree.nodes(max_size=26 if tier == "thorough" else 16, min_size=2, kinds="dddfffflps", sizes=st.sampled_from([0, 1, 50, 3000]), name_st=name),
        "changes": st.lists(CHANGE, min_size=1, max_size=3), "form": st.sampled_from(["jsonl", "jsonl", "json", "sort", "test", "exec", "text", "count"]),
        "jobs": JOBS, "sched": SCHED, "opt": st.booleans(), "ignore": st.booleans(), "start": st.sampled_from([".", "abs"])})


def run_a(ctx, spec):
    root = os.path.join(ctx.case, "t")
    tree.build(root, spec["nodes"])
    rels = sorted(r for r, _ in tree.walk(root))
    if not rels:
        raise Skip()
    dirs = [""] + [r for r in rels if os.path.isdir(os.path.join(root, r)) and not os.path.islink(os.path.join(root, r))]
    for d, _, files in os.walk(ctx.case):
        for n in [d] + [os.path.join(d, x) for x in files]:
            os.lchown(n, NOBODY, NOBODY)
    for r in rels:
        os.lchown(os.path.join(root, r), NOBODY, NOBODY)

    touched = set()
    faults, scan = [], []
    for c in spec["changes"]:
        ops = []
        for kind, i, j in c["ops"]:
            rel = rels[i % len(rels)]
            path = os.path.join(root, rel)
            arg = None
            if kind in ("rename", "move"):
                to = os.path.join(os.path.dirname(rel) if kind == "rename" else dirs[j % len(dirs)], f"moved{j}")
                arg = os.path.join(root, to)
                touched.add(to)
                kind = "rename"
            elif kind == "chmod":
                arg = [0, 0o100, 0o400][j % 3]
            elif kind in ("file", "write"):
                if kind == "write" and (rel in dirs or not os.path.isfile(path) or os.path.islink(path)):
                    kind = "file"
                arg = ["", "x" * 100, "#!/bin/sh\n"][j % 3]
            elif kind == "symlink":
                arg = [".", "nowhere", os.path.join(root, dirs[j % len(dirs)]), "/nonexistent"][j % 4]
            elif kind == "fill":
                rel = dirs[i % len(dirs)]
                path = os.path.join(root, rel)
                arg = 1 + j % 60
                for k in range(arg):
                    touched.add(os.path.join(rel, f"new{k}"))
                    touched.add(os.path.join(rel, f"newdir{k}"))
            if kind != "fill":
                touched.add(rel)
            ops.append([kind, path, arg])
        if c["when"] == "eval":
            faults.append(["process", rels[c["at"] % len(rels)], "change", ops])
        else:
            d = os.path.join(root, dirs[c["at"] % len(dirs)]).rstrip("/")
            scan.append([os.path.realpath(d), "before" if c["when"] == "before" else "after", ops])

    def is_touched(rel):
        while rel:
            if rel in touched:
                return True
            rel = rel.rpartition("/")[0]
        return False

    form = spec["form"]
    start = "." if spec["start"] == "." else root
    if start != "." and any(r.startswith("/") for r in rels):
        raise Skip()
    argv = ["--no-cache", f"-j{spec['jobs']}", "-D", start, "-e", "vfok=no"]
    if spec["ignore"]:
        argv.append("-I")
    if form in ("jsonl", "json"):
        argv += [f"--{form}", "-o", "path,type,size," + HEAVY]
    elif form == "sort":
        argv += ["-0", "-S", "md5,text,mime.mime,empty,path"]
    elif form == "test":
        argv += ["-0", "(", "md5=a", "or", "not", "text=no", "or", "mime.type=c", ")", "or", "not", "(", "linecount+3", "and", "mount=yes", ")"]
    elif form == "text":
        argv += ["-0", "-o", "path"]
    elif form == "count":
        argv += ["--json", "--count=type,md5,mime.type,empty"]
    rec = None
    if form == "exec":
        rec = Recorder(ctx)
        argv += ["-x", rec.path, "{}", "{path:h}", "{type}"]

    def once(conf, measure):
        env = dict(install(ctx, conf, spec["opt"]), **(rec.env if rec else {}))
        return ctx.run(argv, root, opt=spec["opt"], env=env, uid=NOBODY, pre=PRE, sched=None if measure else spec["sched"])

    def records(res):
        """Relative path -> list of records."""
        out = {}
        if form == "jsonl":
            rs = [json.loads(line) for line in res.out.splitlines()]
        elif form == "json":
            rs = json.loads(res.out)
        elif form == "count":
            return {}
        elif form == "exec":
            rs = [{"path": args[0]} for args in rec.calls()]
        else:
            rs = [{"path": p} for p in split0(res.out)]
        for r in rs:
            p = r["path"]
            rel = os.path.relpath(p, root) if p.startswith("/") else p
            out.setdefault(rel, []).append({k: v for k, v in r.items() if k in STABLE})
        return out

    base = once({"faults": [], "scan": []}, True)
    if base.rc != 0 or base.timed_out:
        fail("search without changes failed", base, argv=argv)
    want = records(base)
    if rec:
        rec = Recorder(ctx, "rec2")
        argv[argv.index("-x") + 1] = rec.path
    res = once({"faults": faults, "scan": scan, "slow": spec["opt"]}, False)
    plan = {"faults": faults, "scan": scan}
    if res.timed_out:
        fail("ff did not terminate", res, argv=argv, plan=plan)
    if res.rc != 0 or res.traceback:
        fail(f"exit code {res.rc} although files were only changed or removed", res, argv=argv, plan=plan)
    got = records(res)
    if form == "count":
        n = json.loads(res.out)["_total"]
        low = len([r for r in rels if not is_touched(r)])
        if spec["ignore"]:
            low = 0
        if n < low:
            fail("entries are missing in the count", res, argv=argv, plan=plan, at_least=low, got=n)
    else:
        # A changed ignore file or git repository changes what is ignored below.
        ignoring = spec["ignore"]
        for rel, rs in want.items():
            if is_touched(rel) or ignoring:
                continue
            if rel not in got:
                fail("an entry that was not touched is missing", res, argv=argv, plan=plan, entry=rel)
            if rs != got[rel]:
                fail("an entry that was not touched is reported with other values", res, argv=argv, plan=plan, entry=rel, want=rs, got=got[rel])
        for rel, rs in got.items():
            if len(rs) > 1:
                fail("an entry was reported more than once", res, argv=argv, plan=plan, entry=rel)
            if rel not in want and not is_touched(rel):
                fail("an unexpected entry was reported", res, argv=argv, plan=plan, entry=rel)
    ctx.nontrivial = any(is_touched(r) for r in rels) and any(not is_touched(r) for r in rels)
    ctx.mark(form, *{c["when"] for c in spec["changes"]}, *{k for c in spec["changes"] for k, _, _ in c["ops"]})


# ------------------------------------------------------------------ B: failing plugins

ERRORS = ["RuntimeError", "OSError", "KeyError", "BrokenPipeError", "UnicodeError", "MemoryError", "RecursionError", "AssertionError", "sqlite3", "NotImplementedError",
          "ZeroDivisionError", "EOFError", "StopIteration", "TypeError", "NameError", "IndexError", "AttributeError"]
FORMS = ["test", "not", "exclude", "output", "jsonl", "json", "sort", "count", "exec", "batch"]


def strategy_b(tier):
    return st.fixed_dictionaries({
        "nodes": tree.nodes(max_size=16, min_size=1, kinds="ddfffl"), "at": st.lists(st.integers(0, 40), min_size=1, max_size=3),
        "hook": st.sampled_from(["process", "process", "generator", "can_handle", "cache", "tag", "yield"]), "error": st.sampled_from(ERRORS),
        "yield": st.sampled_from(["none", "int", "triple", "type", "name"]), "form": st.sampled_from(FORMS),
        "cache": st.booleans(), "slow": st.booleans(), "jobs": JOBS, "sched": SCHED, "opt": st.booleans()})


def command(form, rec):
    argv = {"test": ["-0", "vfok=yes"], "not": ["-0", "not", "vfval=0"], "exclude": ["-0", "-e", "vfok=no"], "output": ["-0", "-o", "path", "vfok=yes"],
            "jsonl": ["--jsonl", "-o", "path,vfstr,vfval"], "json": ["--json", "-o", "path,vfstr,vfval"], "sort": ["-0", "-S", "vfval,path"],
            "count": ["--json", "--count=vfval", "type=f", "or", "not", "type=f"]}.get(form)
    if argv is None:
        argv = (["-x", rec.path, "{}", "{vfstr}"] if form == "exec" else ["vfok=yes", "-X", rec.path])
    return argv


def got_paths(form, res, rec, root):
    if form == "jsonl":
        return [os.path.relpath(json.loads(line)["path"], root) for line in res.out.splitlines()]
    if form == "json":
        try:
            return [os.path.relpath(r["path"], root) for r in json.loads(res.out)]
        except ValueError:
            return []       # incomplete
    if form == "count":
        return []
    if form == "exec":
        return [args[0] for args in rec.calls()]
    if form == "batch":
        return [a for args in rec.calls() for a in args]
    return split0(res.out)


def check_reported(res, form, rec, root, rels, argv, **details):
    """The failure was reported, nothing wrong was printed."""
    if res.timed_out:
        fail("ff did not terminate", res, argv=argv, **details)
    if res.rc not in (4, 10):
        fail(f"exit code {res.rc} although the search failed", res, argv=argv, **details)
    if not res.err.strip():
        fail("nothing on standard error although the search failed", res, argv=argv, **details)
    check_sane(res, form, rec, root, rels, argv, **details)


def check_sane(res, form, rec, root, rels, argv, **details):
    got = got_paths(form, res, rec, root)
    if len(set(got)) != len(got):
        fail("an entry was printed twice", res, argv=argv, **details)
    extra = set(got) - set(rels)
    if extra:
        fail("entries that do not exist were printed", res, argv=argv, extra=sorted(extra)[:5], **details)


def run_b(ctx, spec):
    root = os.path.join(ctx.case, "t")
    tree.build(root, spec["nodes"])
    rels = sorted(r for r, _ in tree.walk(root))
    if not rels:
        raise Skip()
    form, hook = spec["form"], spec["hook"]
    cache = spec["cache"] or hook in ("cache", "tag")
    at = {rels[i % len(rels)] for i in spec["at"]}
    if hook == "yield":
        if spec["opt"] and spec["yield"] in ("type", "name"):
            raise Skip()    # Types are verified in debug mode only.
        faults = [["process", r, "yield", spec["yield"]] for r in at]
    else:
        faults = [[hook, r, "raise", spec["error"]] for r in at]
    rec = Recorder(ctx) if form in ("exec", "batch") else None
    argv = [f"-j{spec['jobs']}", "--cache=" + os.path.join(ctx.case, "x.db") if cache else "--no-cache"] + command(form, rec)
    env = install(ctx, {"faults": faults, "scan": [], "use_cache": cache, "slow": spec["slow"]}, spec["opt"])
    env.update(rec.env if rec else {})
    res = ctx.run(argv, root, opt=spec["opt"], env=env, pre=PRE, sched=spec["sched"], timeout=60)
    check_reported(res, form, rec, root, rels, argv, faults=faults)
    if set(got_paths(form, res, rec, root)) & at and form not in ("exec", "batch"):
        fail("an entry was printed although its plugin failed", res, argv=argv, faults=faults)
    # The next search is not affected.
    if rec:
        rec = Recorder(ctx, "rec2")
        env["VF_REC"] = rec.dir
    env.update(install(ctx, {"faults": [], "scan": [], "use_cache": cache}, spec["opt"]))
    res = ctx.run(argv, root, opt=spec["opt"], env=env, pre=PRE)
    if res.rc != 0 or res.timed_out or res.traceback:
        fail("the search after a failed search fails, too", res, argv=argv)
    if form != "count" and sorted(got_paths(form, res, rec, root)) != rels:
        fail("the search after a failed search is incomplete", res, argv=argv)
    ctx.nontrivial = True
    ctx.mark(form, hook, spec["error"] if hook != "yield" else spec["yield"])


# ------------------------------------------------------------------ C: killed processes

HOWS = ["SIGKILL", "SIGSEGV", "SIGTERM", "SIGABRT", "exit0", "exit1", "SystemExit"]


def strategy_c(tier):
    return st.fixed_dictionaries({
        "dirs": st.integers(1, 8), "files": st.one_of(st.integers(1, 60), st.integers(1, 60), st.sampled_from([150, 300])), "name": st.integers(1, 200), "how": st.sampled_from(HOWS), "hook": st.sampled_from(["process", "can_handle", "generator", "outside", "outside", "outside"]),
        "at": st.integers(0, 500), "ms": st.integers(0, 400), "which": st.integers(0, 7), "delay": st.sampled_from([0.001, 0.003, 0.01]),
        "form": st.sampled_from(["test", "exclude", "output", "jsonl", "json", "sort", "exec", "count"]), "slow": st.booleans(),
        "jobs": st.sampled_from([1, 2, 3, 4, 8]), "sched": SCHED, "opt": st.booleans(), "fast": st.sampled_from([True, True, True, False]),
        # Killed after the first check for dead processes.
        "late": st.sampled_from([False, False, False, True])})


def children(pid):
    out = []
    for name in os.listdir("/proc"):
        if name.isdigit():
            try:
                with open(f"/proc/{name}/stat", "rb") as f:
                    rest = f.read().rsplit(b")", 1)[1].split()
            except OSError:
                continue
            if int(rest[1]) == pid and rest[0] != b"Z":
                out.append(int(name))
    return sorted(out)


def run_c(ctx, spec):
    root = os.path.join(ctx.case, "t")
    rels = []
    for i in range(spec["dirs"]):
        d = f"d{i}"
        os.makedirs(os.path.join(root, d))
        rels.append(d)
        for j in range(spec["files"]):
            rels.append(f"{d}/f{j}" + "x" * spec["name"])
            with open(os.path.join(root, rels[-1]), "w"):
                pass
    rels.sort()
    form = spec["form"]
    if form == "exec" and len(rels) > 100:
        form = "jsonl"
    rec = Recorder(ctx) if form == "exec" else None
    argv = [f"-j{spec['jobs']}", "--no-cache", "-e", "vfok=no"] + command(form, rec)
    outside = spec["hook"] == "outside"
    victim = rels[spec["at"] % len(rels)]
    conf = {"faults": [] if outside else [[spec["hook"], victim, "die", spec["how"]]], "scan": [], "delay": min(spec["delay"], 1.5 / len(rels)), "slow": spec["slow"], "timescale": 8 if spec["fast"] else None}
    late = outside and spec["late"] and form != "exec"
    if late:
        conf.update(delay=4 * spec["jobs"] / len(rels), timescale=8)
    env = dict(install(ctx, conf, spec["opt"]), **(rec.env if rec else {}))
    job = ctx.runner.start(argv, root, opt=spec["opt"], env=env, pre=PRE, sched=spec["sched"])
    killed = False
    if outside:
        pid = job.wait_pid()
        end = time.time() + (1.4 if late else 0) + spec["ms"] / 1000
        while time.time() < end:
            job.pump(0.01)
        kids = children(pid) if not job.done() else []
        if kids:
            try:
                os.kill(kids[spec["which"] % len(kids)], signal.SIGKILL)
                killed = True
            except ProcessLookupError:
                pass
    res = job.finish(75)
    details = {"conf": conf, "killed": killed}
    if outside and res.rc == 0:
        # Then the process was not needed anymore.
        got = sorted(got_paths(form, res, rec, root))
        if form == "count":
            if json.loads(res.out)["_total"] != len(rels):
                fail("the count is incomplete, but the exit code is 0", res, argv=argv, **details)
        elif got != rels:
            fail("the result is not complete, but the exit code is 0", res, argv=argv, missing=len(rels) - len(got), **details)
    else:
        check_reported(res, form, rec, root, rels, argv, **details)
    if res.leftover:
        fail("processes are left behind", res, argv=argv, **details)
    ctx.nontrivial = not outside or killed
    ctx.mark(form, "outside" if outside else spec["how"])


CHECK = Check(
    "C19",
    [Part("changes", run_a, strategy_a, quick=300), Part("plugin errors", run_b, strategy_b, quick=260), Part("killed", run_c, strategy_c, quick=32, confirm=6)],
    rule="Changes: files are removed, renamed, replaced, made unreadable or created while a given entry is evaluated, or before or after a given directory is read, as an unprivileged user; everything else must be "
         "reported once and with the same values as without changes; non-trivial: some entries are touched and some are not.  Plugin errors: every hook, 17 exceptions and bad values, ten forms of output.  Killed: a worker "
         "dies at a given entry, or is killed at any moment; non-trivial: it was.",
    assumptions=["The order in which the kernel lists a directory decides what has been processed when a change happens.",
                 "A search that is complete in spite of a killed (idle) process may end with exit code 0.",
                 "In most of the killed cases the clocks of ff run eight times as fast, so that its timeouts (10 s) pass quickly.",
                 "An exception of a plugin in the main process (e.g. for --sort) gives exit code 10, in other processes 4."])
