"""C20: the attributes of the file plugin."""
import errno
import json
import os
import stat
import subprocess

from hypothesis import strategies as st

from .. import model, tree
from ..core import Check, Part, Skip
from ..lib import JOBS, SCHED, expect_clean, fail
from ..runner import PY, base_env
from ..tree import split0
from .c01 import break_cycles

SEP = "\2/\2"
ATTRS = ["path", "root", "relpath", "dir", "name", "ext", "pathx", "namex", "mode", "perm", "type", "device", "inode", "samedev", "depth", "exec",
         "size", "mtime", "ctime", "atime", "time", "links", "uid", "gid", "user", "group", "hide", "hidden", "empty", "link", "target", "broken", "mount"]
TARGETS = [".", "..", "nowhere", "./a", "../b", "a", "/nonexistent/x", "a/b/../c", "foo/", "a/", "a/.", "a/..", "foo/..", "x" * 300, " ", "self", "/dev/null",
           "/", "foo.txt", "a.txt/"]
STARTS = ["dot", "dot", "dotslash", "name", "name", "dotname", "slash", "up", "abs", "abs", "absslash", "hid", "sub", "subdot", "link", "linkslash", "poslash", "posdot", "posabs",
          "two"]


def strategy(tier):
    n = tree.node(tree.names(extra=["a", "a", "foo", "a.b.c", "..a.b", ".a.", "a..", "....", ".a..b", "-.x", "x.-", ".x.y.z", "a. b"]), kinds="dddffffllps", meta=True,
                  sizes=st.one_of(st.sampled_from([0, 0, 1, 4096, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 43]), st.integers(0, 2 ** 42)))
    n = st.tuples(n, st.sampled_from(TARGETS), st.booleans()).map(lambda x: {**x[0], "l": ("s", x[1])} if x[2] and x[0]["t"] == "l" else x[0])
    return st.fixed_dictionaries({
        "tree": st.one_of(st.lists(n, max_size=6), st.lists(n, min_size=5, max_size=26 if tier == "thorough" else 18)),
        "own": st.lists(st.tuples(st.integers(0, 30), st.sampled_from([0, 1, 2, 65534, 12345, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2]),
                                  st.sampled_from([0, 1, 5, 65534, 54321, 2 ** 31])), max_size=5),
        "hard": st.lists(st.tuples(st.integers(0, 30), st.integers(0, 9)), max_size=3),
        "ns": st.lists(st.tuples(st.integers(0, 30), st.one_of(st.sampled_from([0, -1, 1, 999999999, -10 ** 9, -10 ** 9 - 1, -1999999999, 10 ** 18 + 999999999, 2 ** 31 * 10 ** 9]),
                                                                st.integers(-2 ** 30 * 10 ** 9, 2 ** 33 * 10 ** 9)), st.sampled_from([0, 5 * 10 ** 9 + 1, -7])), max_size=4),
        "start": st.sampled_from(STARTS), "pick": st.integers(0, 20),
        "abs": st.sampled_from([False, False, True]), "follow": st.sampled_from([False, False, True]),
        "form": st.sampled_from(["text", "text", "text", "jsonl", "json", "tests"]),
        "only": st.one_of(st.none(), st.lists(st.sampled_from(ATTRS), min_size=1, max_size=5, unique=True)),
        "nobody": st.sampled_from([False, False, False, True]),
        "jobs": JOBS, "opt": st.booleans(), "sched": SCHED,
    })


def start_of(spec, root, b, case):
    """-> arguments, [(spelling, real directory)], working directory"""
    s, pick = spec["start"], spec["pick"]
    base = os.path.dirname(root)
    name = os.path.basename(root)
    dirs = [d for d in b.dirs[1:]]
    sub = dirs[pick % len(dirs)] if dirs else ""
    if s in ("sub", "subdot", "two") and not dirs:
        s = "dot"
    if s == "dot":
        return ([], ["-D", "."])[pick % 2], [(".", root)], root
    if s == "dotslash":
        return ["-D", "./"], [("./", root)], root
    if s == "name":
        return ["-D", name], [(name, root)], base
    if s == "dotname":
        return ["-D", "./" + name], [("./" + name, root)], base
    if s == "slash":
        return ["-D", name + "/"], [(name + "/", root)], base
    if s == "up":
        other = os.path.join(base, "other")
        os.mkdir(other)
        return ["-D", f"../{name}"], [(f"../{name}", root)], other
    if s == "abs":
        return ["-D", root], [(root, root)], "/"
    if s == "absslash":
        return ["-D", root + "/"], [(root + "/", root)], base
    if s == "sub":
        return ["-D", sub], [(sub, os.path.join(root, sub))], root
    if s == "subdot":
        return ["./" + sub], [(os.path.normpath(sub), os.path.join(root, sub))], root
    if s in ("link", "linkslash"):
        os.symlink(name, os.path.join(base, "lnk.d"))
        sl = "/" if s == "linkslash" else ""
        return ["-D", "lnk.d" + sl], [("lnk.d" + sl, os.path.join(base, "lnk.d"))], base
    if s == "poslash":
        return [name + "/"], [(name, root)], base
    if s == "posdot":
        return ["./"], [(".", root)], root
    if s == "posabs":
        return [root], [(root, root)], base
    if s == "two":
        top = [d for d in dirs if "/" not in d]
        two = [top[pick % len(top)]] + ([top[(pick + 1) % len(top)]] if len(top) > 1 else [])
        return [x for d in two for x in ("-D", d)], [(d, os.path.join(root, d)) for d in two], root
    # hid
    hid = os.path.join(base, ".h.d")
    os.rename(root, hid)
    b.root = hid
    return ["-D", ".h.d"], [(".h.d", hid)], base


def text(v):
    return ("true" if v else "false") if isinstance(v, bool) else str(v)


def build(ctx, spec):
    base = os.path.join(ctx.case, "w")
    os.mkdir(base)
    root = os.path.join(base, "t")
    nodes = spec["tree"]
    if spec["nobody"]:
        # The directories are readable for everybody or for root only.
        nodes = [{**n, "m": 0o755 if n["m"] & 1 else 0o700, "rawmode": True} if n["t"] == "d" else n for n in nodes]
    b = tree.build(root, nodes)
    if spec["follow"]:
        break_cycles(root)
        for r in list(b.order):
            p = os.path.join(root, r)
            # Dangling links with -L are not specified.
            if os.path.islink(p) and not os.path.exists(p):
                os.unlink(p)
    left = [r for r in b.order if os.path.lexists(os.path.join(root, r))]
    for i, uid, gid in spec["own"]:
        if left:
            r = left[i % len(left)]
            p = os.path.join(root, r)
            mode = os.lstat(p).st_mode
            os.lchown(p, uid, gid)
            if not stat.S_ISLNK(mode):
                os.chmod(p, stat.S_IMODE(mode))
    for i, j in spec["hard"]:
        if left:
            r = left[i % len(left)]
            if not stat.S_ISDIR(os.lstat(os.path.join(root, r)).st_mode):
                q = os.path.join(root, b.dirs[j % len(b.dirs)], f"hard{j}.ln")
                if os.path.isdir(os.path.dirname(q)) and not os.path.lexists(q):
                    os.link(os.path.join(root, r), q, follow_symlinks=False)
    for i, ns, delta in spec["ns"]:
        if left:
            try:
                os.utime(os.path.join(root, left[i % len(left)]), ns=(ns + delta, ns), follow_symlinks=False)
            except OverflowError:
                pass
    return root, b


def readable(e, starts):
    """Can everybody get there?"""
    real = dict(starts)[e["_spelled"]]
    parts = e["relpath"].split("/")[:-1]
    while parts:
        if not os.stat(os.path.join(real, *parts)).st_mode & 1:
            return False
        parts.pop()
    return reachable(os.path.realpath(real))


def reachable(real):
    while len(real) > 1:
        if not os.stat(real).st_mode & 1:
            return False
        real = os.path.dirname(real)
    return True


def loops(e, starts):
    try:
        os.stat(os.path.join(dict(starts)[e["_spelled"]], e["relpath"]))
    except OSError as exc:
        return exc.errno == errno.ELOOP
    return False


def run(ctx, spec):
    root, b = build(ctx, spec)
    args, starts, cwd = start_of(spec, root, b, ctx.case)
    if spec["follow"] and spec["nobody"]:
        raise Skip()
    absolute = spec["abs"] or spec["form"] in ("json", "jsonl")
    es = []
    for spelled, real in starts:
        for e in model.entries([(spelled, real)], follow=spec["follow"], absolute=absolute):
            e["_spelled"] = spelled
            if absolute:
                e["root"] = real
            es.append(e)
    skip = set()
    if spec["nobody"]:
        if any(os.stat(real).st_uid == 65534 for _, real in starts) or any(e["uid"] == 65534 or e["gid"] == 65534 for e in es if e["type"] == "directory"):
            raise Skip()
        if not all(reachable(os.path.dirname(os.path.realpath(real))) for _, real in starts):
            raise Skip()
        es = [e for e in es if readable(e, starts)]
        for e in es:
            if e["type"] == "directory" and not e["mode"] & 1:
                e["empty"] = False
        skip |= {"target", "broken"}
    if spec["start"] == "up" and not absolute:
        skip.add("hidden")
    attrs = [a for a in (spec["only"] or ATTRS) if a not in skip]
    if not attrs:
        raise Skip()
    for e in es:
        if e["type"] in ("directory", "symlink"):
            e.pop("atime")          # the search itself changes it
    argv = ["--no-cache", f"-j{spec['jobs']}"]
    if spec["abs"]:
        argv.append("-a")
    if spec["follow"]:
        argv.append("-L")
    form = spec["form"]
    kw = {"opt": spec["opt"], "sched": spec["sched"], "uid": 65534 if spec["nobody"] else None}
    if form == "tests":
        check_tests(ctx, spec, argv, args, cwd, es, attrs, kw, starts)
        return
    use = list(dict.fromkeys(["path"] + attrs))
    if form == "text":
        argv += ["-0", "--sep", SEP, "-o", ",".join(a + ":n" for a in use)]
    else:
        argv += ["--" + form, "-o", ",".join(a + ":n" for a in use)]
    argv += args
    res = ctx.run(argv, cwd, **kw)
    expect_clean(res, argv)
    want = {}
    for e in es:
        if e["path"] in want:
            raise Skip()
        want[e["path"]] = e
    got = {}
    if form == "text":
        records = [dict(zip(use, r.split(SEP))) for r in split0(res.out)]
    elif form == "json":
        records = json.loads(res.out)
    else:
        records = [json.loads(line) for line in res.out.decode().splitlines()]
    for r in records:
        if r["path"] in got:
            fail("an entry is reported twice", res, argv=argv, path=r["path"])
        got[r["path"]] = r
    if set(got) != set(want):
        fail("other paths than expected", res, argv=argv, missing=sorted(set(want) - set(got))[:5], unexpected=sorted(set(got) - set(want))[:5])
    bad = []
    for path, e in want.items():
        for a in use:
            g = got[path].get(a)
            if a == "atime" and "atime" not in e:
                continue
            if a == "target" and e["type"] == "symlink" and loops(e, starts):
                continue
            if form == "text":
                w = text(e[a]) if a in e else ""
            else:
                w = e.get(a)
                g = None if g == "" and a not in e else g
            if g != w or type(g) is not type(w):
                bad.append([path, a, g, w])
    if bad:
        fail("attributes differ", res, argv=argv, path_attribute_got_expected=bad[:8])
    ctx.nontrivial = len(es) > 2
    ctx.mark(form, spec["start"], *(["follow"] if spec["follow"] else []), *(["nobody"] if spec["nobody"] else []), *sorted({e["type"] for e in es}))


def check_tests(ctx, spec, argv, args, cwd, es, attrs, kw, starts):
    """Each value selects exactly the entries that have it."""
    n = 0
    for k, a in enumerate(attrs[:3]):
        have = [e for e in es if a in e]
        if a in ("mtime", "ctime", "time", "atime") or a == "target" and any(loops(e, starts) for e in have):
            continue
        value = text(have[(spec["pick"] + k) % len(have)][a]) if have else None
        if a in ("mode", "perm") and value is not None:
            value = f"{int(value) & 0o7777:o}"
        if value is None or not value or value != value.strip() or value[0] in "{=" or value.startswith("-"):
            continue
        want = []
        for e in have:
            v = e[a]
            if a in ("mode", "perm"):
                v = f"{v & 0o7777:o}"
            if text(v) == value:
                want.append(e["path"])
        av = argv + ["-0", "--case", "sensitive", f"{a}={value}"] + args
        res = ctx.run(av, cwd, **kw)
        expect_clean(res, av)
        got = split0(res.out)
        if sorted(got) != sorted(want):
            fail("a test for a value selects other entries", res, argv=av, missing=sorted(set(want) - set(got))[:5], unexpected=sorted(set(got) - set(want))[:5])
        n += bool(want)
    ctx.nontrivial = n > 0 and len(es) > 2
    ctx.mark("tests")


# ------------------------------------------------------------------ file systems

NAMES = ["m", "a b", "m2", "a", "aa", "a\\b", "t\tx", "n\nl", "é", "\udcff", "a\u3000b", "#x", "a\\040b", "mm"]
NS_SCRIPT = r'''
import json, os, subprocess, sys, ctypes, stat
spec = json.load(open(sys.argv[1]), parse_constant=None)
libc = ctypes.CDLL(None, use_errno=True)
base = spec["base"]
os.mkdir(base)
dirs = [base]
devs = {}
mounted = set()
for op in spec["ops"]:
    d = dirs[op["p"] % len(dirs)]
    p = os.path.join(d, op["n"])
    t = op["t"]
    if t == "over":
        p = d
        if p == base:
            continue
        if p not in mounted:
            continue
        t = "tmpfs"
    if t == "f":
        try: open(p, "xb").close()
        except OSError: pass
        continue
    if t == "l":
        try: os.symlink(dirs[op["q"] % len(dirs)], p)
        except OSError: pass
        continue
    if op["t"] != "over":
        try: os.mkdir(p)
        except OSError: continue
    if t != "d":
        r = libc.mount(os.fsencode(op["dev"]), os.fsencode(p), t.encode(), 0, b"newinstance,ptmxmode=0666" if t == "devpts" else None)
        if r != 0:
            print(json.dumps({"skip": f"mount {t}: {os.strerror(ctypes.get_errno())}"}))
            sys.exit(0)
        if op["t"] == "over":
            # What is below is covered now.
            dirs = [x for x in dirs if not x.startswith(p + "/")]
            open(os.path.join(p, "over"), "w").close()
        devs[os.stat(p).st_dev] = [p, op["dev"] or "none", t]
        mounted.add(p)
    if p not in dirs and t != "devpts":
        dirs.append(p)
start = dirs[spec["start"] % len(dirs)]
if spec["via"] == "link":
    os.symlink(start, spec["base"] + ".lnk")
    startarg = spec["base"] + ".lnk"
elif spec["via"] == "rel":
    os.chdir(start)
    startarg = "."
else:
    startarg = start
r = subprocess.run(spec["cmd"] + ["-D", startarg], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
def top(p, dev):
    """The topmost directory with the same device."""
    while p != "/" and os.lstat(os.path.dirname(p)).st_dev == dev:
        p = os.path.dirname(p)
    return p
sdev = os.stat(start).st_dev
es = {}
def walk(p, rel, depth):
    for n in os.listdir(p):
        q = os.path.join(p, n)
        rq = rel + "/" + n if rel else n
        s = os.stat(q, follow_symlinks=spec["follow"])
        isdir = stat.S_ISDIR(s.st_mode)
        if s.st_dev != sdev and spec["xdev"]:
            continue
        real = os.path.realpath(q) if not stat.S_ISLNK(s.st_mode) else os.path.join(os.path.realpath(p), n)
        t = top(real, s.st_dev)
        es[rq] = {"samedev": s.st_dev == sdev, "mount": isdir and t == real, "mpath": t, "device": s.st_dev, "fs": devs.get(s.st_dev), "char": stat.S_ISCHR(s.st_mode)}
        if isdir and depth < 8:
            walk(q, rq, depth + 1)
walk(start, "", 0)
print(json.dumps({"rc": r.returncode, "out": r.stdout.decode("latin-1"), "err": r.stderr.decode("utf-8", "replace"), "entries": es}))
'''


def mount_strategy(tier):
    op = st.fixed_dictionaries({"p": st.integers(0, 8), "q": st.integers(0, 8), "n": st.sampled_from(NAMES),
                                "t": st.sampled_from(["d", "d", "f", "f", "l", "tmpfs", "tmpfs", "tmpfs", "over", "ramfs", "devpts"]),
                                "dev": st.sampled_from(["none", "dev", "a b", "zz", "", "é"])})
    return st.fixed_dictionaries({"ops": st.lists(op, min_size=2, max_size=10), "start": st.sampled_from([0, 0, 0, 1, 2, 3]),
                                  "via": st.sampled_from(["abs", "link", "rel"]), "xdev": st.booleans(),
                                  "follow": st.just(False), "opt": st.booleans()})


MATTRS = ["relpath", "samedev", "mount", "device", "mpath", "devname", "fstype", "pseudofs", "type"]


def run_mounts(ctx, spec):
    conf = {**spec, "base": os.path.join(ctx.case, "mnt")}
    conf["cmd"] = [PY] + (["-O"] if spec["opt"] else []) + ["-m", "ff", "--no-cache", "-j2", "-0", "--sep", SEP, "-o", ",".join(MATTRS)] + (["--one-file-system"] if spec["xdev"] else [])
    conf_path, script = os.path.join(ctx.case, "conf.json"), os.path.join(ctx.case, "ns.py")
    with open(conf_path, "w") as f:
        json.dump(conf, f)
    with open(script, "w") as f:
        f.write(NS_SCRIPT)
    env = base_env(ctx.runner.home)
    try:
        p = subprocess.run(["unshare", "-U", "-r", "-m", PY, script, conf_path], env=env, cwd=ctx.case, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
    except FileNotFoundError:
        raise Skip()
    if p.returncode:
        if b"unshare" in p.stderr:
            ctx.mark("no namespaces")
            raise Skip()
        raise RuntimeError(p.stderr.decode(errors="replace")[-2000:])
    data = json.loads(p.stdout)
    if "skip" in data:
        ctx.mark("no mounts")
        raise Skip()
    argv = conf["cmd"]
    details = {"argv": argv, "stderr": data["err"][-1500:]}
    if data["rc"] != 0 or "Traceback" in data["err"]:
        fail(f"exit code {data['rc']}", None, **details)
    got = {}
    for r in split0(data["out"].encode("latin-1")):
        r = dict(zip(MATTRS, r.split(SEP)))
        got[r["relpath"]] = r
    es = data["entries"]
    if set(got) != set(es):
        fail("other entries than expected", None, missing=sorted(set(es) - set(got)), unexpected=sorted(set(got) - set(es)), **details)
    bad = []
    for rel, e in es.items():
        g = got[rel]
        for a in ("samedev", "mount", "device"):
            if g[a] != text(e[a]):
                bad.append([rel, a, g[a], e[a]])
        if (g["mpath"].rstrip("/") or "/") != e["mpath"]:
            bad.append([rel, "mpath", g["mpath"], e["mpath"]])
        if e["fs"]:
            if g["fstype"] != e["fs"][2]:
                bad.append([rel, "fstype", g["fstype"], e["fs"][2]])
            if g["devname"] != e["fs"][1] and e["fs"][1] != "none":
                bad.append([rel, "devname", g["devname"], e["fs"][1]])
            if e["fs"][2] == "tmpfs" and g["pseudofs"] != "true":
                bad.append([rel, "pseudofs", g["pseudofs"], "true"])
        if e["char"] != (g["type"] == "char"):
            bad.append([rel, "type", g["type"], e["char"]])
    if bad:
        fail("attributes differ", None, path_attribute_got_expected=bad[:8], **details)
    ctx.nontrivial = any(e["fs"] for e in es.values())
    ctx.mark("mounts", spec["via"])


# ------------------------------------------------------------------ the real root and /dev

def system_cases(tier, seed):
    return [{"d": d, "abs": a, "opt": o} for d in ("/", "/dev", "/dev/") for a in (False, True) for o in (False, True)]


def run_system(ctx, spec):
    """Read only: the top level of / and /dev, with what does not change there."""
    attrs = ["path", "root", "relpath", "dir", "name", "ext", "type", "depth", "inode", "uid", "mode", "mount", "samedev", "hidden", "link"]
    argv = ["--no-cache", "-j2", "-0", "--sep", SEP, "-o", ",".join(a + ":n" for a in attrs), "-D", spec["d"], "-e", "depth+0"] + (["-a"] if spec["abs"] else [])
    want = {}
    real = "/" + spec["d"].strip("/")
    for _ in range(3):
        before = sorted((n, os.lstat(os.path.join(real, n)).st_ino) for n in os.listdir(real))
        res = ctx.run(argv, "/", opt=spec["opt"])
        if before == sorted((n, os.lstat(os.path.join(real, n)).st_ino) for n in os.listdir(real)):
            break
    else:
        raise Skip()
    expect_clean(res, argv)
    for n, _ in before:
        s = os.lstat(os.path.join(real, n))
        t = model.TYPES[stat.S_IFMT(s.st_mode)]
        want[n] = {"path": os.path.join(real, n), "relpath": n, "dir": real, "name": n, "ext": os.path.splitext(n)[1][1:],
                   "type": t, "depth": 0, "inode": s.st_ino, "uid": s.st_uid, "mode": s.st_mode, "hidden": n.startswith("."),
                   "mount": t == "directory" and s.st_dev != os.lstat(real).st_dev, "samedev": s.st_dev == os.lstat(real).st_dev,
                   "link": os.readlink(os.path.join(real, n)) if t == "symlink" else ""}
    got = {}
    for r in split0(res.out):
        r = dict(zip(attrs, r.split(SEP)))
        got[r["relpath"]] = r
    if set(got) != set(want):
        fail("other entries than expected", res, argv=argv)
    for n, w in want.items():
        for a, v in w.items():
            g = got[n][a]
            if g != text(v):
                fail("attributes differ", res, argv=argv, path=n, attribute=a, got=g, expected=v)
    ctx.mark("system")


CHECK = Check(
    "C20",
    [Part("attributes", run, strategy, quick=1500), Part("mounts", run_mounts, mount_strategy, quick=48), Part("system", run_system, cases=system_cases, quick=16)],
    rule="Trees of all file types (also hard links, odd owners, negative and fractional times, holes, links of all kinds) below start directories in 20 spellings, all attributes as text or JSON against lstat, stat, readlink and "
         "the path, or as the value of a test; file systems mounted at odd places in a private namespace; the top level of / and /dev; non-trivial: more than two entries, at least one mount.",
    assumptions=["atime of directories and links is not judged, the search changes it.", "Dangling symbolic links with -L are not specified.",
                 "Bind mounts have no device of their own and are not recognised as mountpoints.", "Part mounts needs user namespaces and is skipped without."])
