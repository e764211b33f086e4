"""C17: bad command lines."""
import os
import shlex

from hypothesis import strategies as st

from .. import tree
from ..core import Check, Part, Skip
from ..lib import fail

NOBODY = 65534
CODES = (0, 1, 2, 3, 4, 10, 11, 12)

# Options that take no argument, one, an optional one.
FLAGS = ["--no-cache", "-H", "--hide", "-I", "--ignore", "--no-parent-ignore", "-L", "--follow", "--one-file-system", "--mount", "--xdev", "--fail",
         "-a", "--absolute-path", "-0", "--print0", "-v", "--verbose", "-R", "--reverse", "-1", "--all", "--json", "--jsonl", "--ndjson", "--si"]
INFO = ["--version", "--help-full", "--help-attributes", "--help-plugins", "--help-types", "-h", "--help"]
VALUED = {
    "-j": ["1", "2", "0", "3"], "--jobs": ["2", "1"], "-D": ["d", "./d", "d/", ".", "d/e", "nonexistent", "file", "\udcff", ""], "--directory": ["d", "."],
    "-e": ["not", ")", "or", "name=a", "type=d", "hidden=yes", "size+=1", "nosuch=1", "x", "(", ""], "--exclude": ["name:a"],
    "-d": ["0", "1-2", "0,2", "-1", "1-", "-", ",", "x", "5-2", "1-2-3", "99999999999999999999"], "--depth": ["0-1"],
    "-c": ["smart", "ignore", "sensitive", "foo", ""], "--case": ["ignore"],
    "-l": [":", "0:1", "-3:", ":-1", "2,0", "1", "a:b", "1,2,3", "", "9999999999999999999999:"], "--limit": ["1:2"],
    "-o": ["path", "name,size", "size:h", "5s", "file", "nosuch", "", ",", "file.name", "name:-20", "size:5x", "perm:o", "hash.md5", "x:y:z", "size:q"], "--output": ["path"],
    "--sep": [",", "", "\n", "\udcff", "ä"], "--halt": ["never", "soon", "now", "x"], "--halt-on-error": ["soon"],
    "-C": ["auto", "never", "always", "x"], "--color": ["always"], "--cache": ["cache.db", "", "d", "nonexistent/x", "file", "\udcff"],
    "--ignore-files": [".gitignore", "", ",", "a,b"], "--debug": ["all", "none", "info,cache", "", "foo"],
}
OPTIONAL = {"-S": ["path", "size,name", "name:v", "nosuch", "", ",", "size:q", "lines"], "--sort": ["mtime"],
            "--count": ["type", "size:h", "ext,user", "", "nosuch", ",", "path:q"], "-h": ["file", "grep", "nosuch", "hash", "mime"], "--help": ["git"]}
TESTS = ["name=a", "name:a", "name~^a", "name%*.txt", "path%a/**", "type=f", "type=d", "type=x", "size=0", "size+1K", "size>=1.5MB", "size=x", "size=", "size=1e5",
         "mtime+1d", "mtime=2020-01-01", "mtime-12:00", "mtime=99999999", "mtime=x", "mtime+999999999999999999y", "perm=644", "perm:u+w", "perm~111", "perm=8", "perm=u+z", "mode:a=rwx,",
         "exec=yes", "hidden=no", "hidden=x", "depth+=1", "depth=x", "uid=0", "user=root", "time>0", "link:a", "lines+1", "text:foo", "mime:text", "file.name=a",
         "file.x=1", "x.name=a", "nosuch=1", "name", "name=", "=a", "a=b=c", "name=={}", "name={}file", "name={}nonexistent", "size={size}file", "mtime+{}d", "size={}d", "name={mtime}file",
         "type={}file", "{}=a", "name=\udcff", "name~[", "name~(", "name~*", "name%[", "name%[!", "name%**", "name = a", "size += 5", "name =", " ", "", "!", "name!=a", "size~1", "type:f",
         "name>a", "exec:yes", "inode=1", "links=999999999999999999999999", "size=9e999", "size=1/2", "size=-1", "depth=-1", "mtime=1.5", "dir=d", "target=x", "broken=yes",
         "perm=99999999999", "text~.*", "head=x", "slist=a", "\0"[:0] + "name~\\", "name~(?P<a", "name~a{99999999999}", "ignored=yes", "ignore.path=x", "git.tracked=yes"]
WORDS = ["and", "or", "not", "AND", "OR", "NOT", "(", ")", "{{", "}}", "[", "]", "()", "{}", "{{}}", ",", ";", "a", "*", "?", "-", "--", "---", "--x", "-q", "-Z", "--no", "--json=1", "--hide=",
         "--=", "-=", "-0x", "-H0a", "-Hj2", "-j", "-jd", "-o5", "--exec=a", "d/", "./d", "./", "d/..", "nonexistent/", "file/", "\udcff", "日本", "\n", "-\udcff", "--ä", "-ä", "", " "]
COMMANDS = ["true", "false", "nonexistent", "./file", "d", "{}", "{name}", "", "{nosuch}", "{{", "echo"]
CMDARGS = ["{}", "{/}", "{//}", "{.}", "{/.}", "{..}", "{name}", "{size:h}", "{nosuch}", "{size:q}", "{{", "}}", "{", "}", "a", "-x", ";", "", "{file.name}", "{}{}", "{ }", "{:}", "{text}", "\udcff"]


def option_st():
    valued = st.sampled_from(sorted(VALUED)).flatmap(lambda o: st.tuples(st.just(o), st.sampled_from(VALUED[o]), st.integers(0, 2)))

    def render(t):
        o, v, how = t
        if how == 0:
            return [f"{o}={v}"] if o.startswith("--") else [o + v]
        if how == 1 and o.startswith("--"):
            return [f"{o}={v}"]
        return [o, v]
    optional = st.sampled_from(sorted(OPTIONAL)).flatmap(lambda o: st.tuples(st.just(o), st.one_of(st.none(), st.sampled_from(OPTIONAL[o])), st.integers(0, 2)))
    return st.one_of(
        st.sampled_from(FLAGS).map(lambda x: [x]), valued.map(render),
        optional.map(lambda t: [t[0]] if t[1] is None else render(t)))


TEXT = st.text(st.sampled_from("aAzn0159 =:~%+-<>!{}()[],.;*?\\'\"$\tä\udcff@#&|^_"), max_size=8)
ITEM = st.one_of(option_st(), option_st(), st.sampled_from(TESTS).map(lambda x: [x]), st.sampled_from(TESTS).map(lambda x: [x]),
                 st.sampled_from(WORDS).map(lambda x: [x]), st.sampled_from(INFO).map(lambda x: [x]), TEXT.map(lambda x: [x]),
                 st.tuples(st.sampled_from(["name", "size", "mtime", "perm", "type", "exec", "path", "depth", "text", "atime", "links", "ignored", "mime"]),
                           st.sampled_from(["=", ":", "~", "%", "+=", "-=", "+", "-", "<", ">=", "=!", "%!"]), TEXT).map(lambda t: ["".join(t)]))
COMMAND = st.tuples(st.sampled_from(["-x", "-X", "--exec", "--exec-batch"]), st.sampled_from(COMMANDS), st.lists(st.sampled_from(CMDARGS), max_size=3)).map(lambda t: [t[0], t[1]] + t[2])
MUTATION = st.tuples(st.sampled_from(["del", "dup", "swap", "ins", "delch", "split", "join"]), st.integers(0, 30), st.integers(0, 20),
                     st.sampled_from(list("-=:,{}()+~%!0a \udcffx[]*\\")))


def mutate(argv, muts):
    argv = list(argv)
    for kind, i, j, ch in muts:
        if not argv:
            break
        i %= len(argv)
        t = argv[i]
        j %= len(t) + 1
        if kind == "del":
            del argv[i]
        elif kind == "dup":
            argv.insert(i, t)
        elif kind == "swap":
            k = j % len(argv)
            argv[i], argv[k] = argv[k], argv[i]
        elif kind == "ins":
            argv[i] = t[:j] + ch + t[j:]
        elif kind == "delch":
            argv[i] = t[:j] + t[j + 1:]
        elif kind == "split":
            argv[i:i + 1] = [t[:j], t[j:]]
        elif kind == "join" and i + 1 < len(argv):
            argv[i:i + 2] = [t + argv[i + 1]]
    return argv


def fuzz_strategy(tier):
    return st.fixed_dictionaries({
        "items": st.lists(ITEM, max_size=6), "cmd": st.one_of(st.none(), st.none(), st.none(), COMMAND),
        "muts": st.one_of(st.just([]), st.lists(MUTATION, max_size=3)),
        "nenv": st.sampled_from([0, 0, 0, 1, 2, 9]), "quote": st.sampled_from([True, True, True, False]), "rawenv": st.one_of(st.none(), st.none(), st.none(), st.none(), TEXT),
        "opt": st.booleans(), "tty": st.just(False),
    })


def prepare(ctx, name="t"):
    """A small tree that belongs to nobody, and a PATH with nothing harmful on it.  ff runs as nobody."""
    root = os.path.join(ctx.case, name)
    os.makedirs(os.path.join(root, "d", "e"))
    for p, data in (("file", b"hello\nfoo\n"), ("a.txt", b""), ("d/a", b"\xff\x00"), ("d/e/.hid", b"x" * 2000), ("z z", b"")):
        with open(os.path.join(root, p), "wb") as f:
            f.write(data)
    os.mkdir(os.path.join(root, "zz"))
    os.symlink("file", os.path.join(root, "link"))
    os.symlink("nowhere", os.path.join(root, "broken"))
    # (The fork server has fixed the location of the cache.)
    cache = os.path.join(ctx.runner.home, ".cache")
    os.chmod(cache, 0o777)
    for n in os.listdir(cache):
        os.unlink(os.path.join(cache, n))
    home = os.path.join(ctx.case, "home")
    bin_ = os.path.join(ctx.case, "bin")
    os.mkdir(home)
    os.mkdir(bin_)
    for prog, text in (("true", "exit 0"), ("false", "exit 1"), ("echo", "printf '%s ' \"$@\"; printf '\\n'"), ("man", "while read -r l; do printf '%s\\n' \"$l\"; done")):
        with open(os.path.join(bin_, prog), "w") as f:
            f.write("#!/bin/sh\n" + text + "\n")
        os.chmod(os.path.join(bin_, prog), 0o755)
    for d, dirs, files in os.walk(ctx.case):
        for n in [d] + [os.path.join(d, x) for x in files]:
            os.lchown(n, NOBODY, NOBODY)
    return root, {"HOME": home, "PATH": bin_}


def escapes(root, case, token):
    """Could the token be taken for a directory outside of the scratch directory?"""
    cands = [token] + [token[i:] for i in range(1, len(token)) if token.startswith("-")]
    if "=" in token:
        cands.append(token.split("=", 1)[1])
    for c in cands:
        if c and os.path.exists(os.path.join(root, c)) and not (os.path.realpath(os.path.join(root, c)) + "/").startswith(os.path.realpath(case) + "/"):
            return True
    return False


def judge(res, argv, env=None):
    details = {"argv": argv, "ff_options": (env or {}).get("FF_OPTIONS")}
    if res.timed_out:
        fail("ff did not terminate", res, **details)
    if res.rc not in CODES:
        fail(f"undocumented exit code {res.rc}", res, **details)
    if res.traceback:
        fail("traceback", res, **details)
    if res.rc in (2, 11, 12):
        if res.out:
            fail(f"exit code {res.rc}, but something was printed", res, **details)
        if not res.err.strip():
            fail(f"exit code {res.rc} without a message", res, **details)


def run_fuzz(ctx, spec):
    argv = [t for item in spec["items"] for t in item] + (spec["cmd"] or [])
    argv = [t.replace("\0", "") for t in mutate(argv, spec["muts"])]
    root, env = prepare(ctx)
    if any(escapes(root, ctx.case, t) for t in argv):
        raise Skip()
    n = min(spec["nenv"], len(argv))
    if n:
        env["FF_OPTIONS"] = " ".join(shlex.quote(t) for t in argv[:n]) if spec["quote"] else " ".join(argv[:n])
        argv = argv[n:]
        if not spec["quote"]:
            try:
                if any(escapes(root, ctx.case, t) for t in shlex.split(env["FF_OPTIONS"])):
                    raise Skip()
            except ValueError:
                pass
    elif spec["rawenv"] is not None and "/" not in spec["rawenv"]:
        env["FF_OPTIONS"] = spec["rawenv"]
    if "--profile" in argv:
        raise Skip()
    # (Plugins that fail to run git and so on have no data.)
    res = ctx.run(argv, root, opt=spec["opt"], env=env, uid=NOBODY, timeout=100)
    judge(res, argv, env)
    ctx.nontrivial = len(argv) + n > 1
    ctx.mark(f"exit code {res.rc}")


# ------------------------------------------------------------------ one definite error

GOOD = [["-H"], ["-j2"], ["--no-cache"], ["-a"], ["-0"], ["-S", "path"], ["--sort=size"], ["-o", "path,size"], ["--json"], ["--jsonl"], ["-e", "name=zz"], ["--all"], ["-L"], ["--sep=,"],
        ["-d", "0-3"], ["-c", "ignore"], ["--fail"], ["--count"], ["-C", "always"], ["-v"], ["-I"], ["-R"]]
OKTESTS = [[], [], ["type=f"], ["(", "name:a", "or", "size+0", ")"], ["not", "type=d"], ["depth-=3", "and", "exec=no"]]
WORDCH = st.text(st.sampled_from("abcxyz019-"), min_size=1, max_size=6)

ERRORS = {}


def error(name, code):
    def deco(f):
        ERRORS[name] = (f, code)
        return f
    return deco


# Each function returns (options in front, tests); None for the tests: keep the valid ones.

@error("unknown long option", 2)
def _(d):
    w = d(WORDCH)
    return [["--vf" + w], ["--" + w + "-vf"], ["--vf" + w + "=1"], ["--Hide"], ["--jso"], ["--json-"], ["---json"], ["--"], ["-"], ["--exclud=name=a"]][d(st.integers(0, 9))], None


@error("unknown short option", 2)
def _(d):
    c = d(st.sampled_from("bfgikmnpqrstuwyzABEFGJKMNOPQTUVWYZ23456789._ä"))
    return [["-" + c], ["-H" + c], ["-0a" + c + "H"], ["-" + c + "H"]][d(st.integers(0, 3))], None


@error("missing argument", 2)
def _(d):
    # At the end of the command line, see run_error().
    o = d(st.sampled_from(["-j", "--jobs", "-D", "--directory", "-e", "--exclude", "-d", "--depth", "-c", "--case", "-l", "--limit", "-o", "--output", "--sep", "--halt",
                           "--halt-on-error", "-C", "--color", "--cache", "--ignore-files", "-x", "-X", "--exec", "--exec-batch", "-Hj", "-0o"]))
    return ("end", [o]), []


@error("unexpected argument", 2)
def _(d):
    o = d(st.sampled_from(["--json", "--hide", "--print0", "--no-cache", "--follow", "--all", "--si", "--exec", "--exec-batch", "--version", "--fail", "--reverse", "--verbose"]))
    return [f"{o}={d(st.sampled_from(['', '1', 'yes', 'path']))}"], None


@error("invalid argument", 2)
def _(d):
    o, vals = d(st.sampled_from([
        (("-j", "--jobs"), ["x", "-1", "1.5", "", "0x1", "1 2", "-"]), (("-d", "--depth"), ["x", "1-2-3", "", ",", "1,", "1,,2", "a-b", "1:2", "+1", "1.5", "--1", "²"]),
        (("-c", "--case"), ["foo", "", "SMART", "smart "]), (("-l", "--limit"), ["1", "a:b", "1,2,3", "", "1:2:3", "1,", ",1", "-1,2", "1.5:2", "1,-2", "--1:", "+1:"]),
        (("--halt", "--halt-on-error"), ["x", "", "Never", "never,now"]), (("-C", "--color"), ["x", "", "yes", "Always"])]))
    o, v = d(st.sampled_from(o)), d(st.sampled_from(vals))
    return ([f"{o}={v}"] if o.startswith("--") and d(st.booleans()) else [o, v]), None


@error("invalid field", 2)
def _(d):
    o = d(st.sampled_from(["-o", "--output", "-S", "--sort"]))
    v = d(st.sampled_from([",", "path,", ",path", "size:q", "size:hh", "size:", "5", ":h", "path:1.5", "size:5y", "size:h5h", "a b", "size h", "{}", "path;size", "ä"]))
    # (An empty value behind the attribute's colon is accepted or not depending on the option.)
    if v in ("size:",):
        v = "size:q"
    return [o, v], None


@error("unknown attribute in a field", 11)
def _(d):
    o = d(st.sampled_from(["-o", "--output", "-S", "--sort", "--count"]))
    v = d(st.sampled_from(["vf" + "nosuch", "file.vfnosuch", "vfnosuch.name", "path,vfnosuch", "vfnosuch:h", "Path", "hash.vf", "file_name"]))
    if o == "--count":
        v = v.replace("path,", "size,")
    return [o, v], None


@error("unknown attribute in a command", 11)
def _(d):
    return ("end", [d(st.sampled_from(["-x", "-X"])), "true", d(st.sampled_from(["{vfnosuch}", "a{vfnosuch}b", "{file.vf}", "{vf.name}"]))]), None


@error("unknown attribute in a test", 11)
def _(d):
    t = d(st.sampled_from(["vfnosuch", "file.vfnosuch", "vfnosuch.name", "Name", "hash.vf"])) + d(st.sampled_from(["=", ":", "~", "+=", "%", ">"])) + d(st.sampled_from(["a", "1", "{}file"]))
    if d(st.booleans()):
        return [], [t]
    return ["-e", t], None


@error("no test", 12)
def _(d):
    t = d(st.sampled_from(["name", "x", "=", "=a", ".name=a", "file.=a", "name.=a", "na me=a", "*", "a b", "-"[1:] + "foo bar", "name!a", "name^a", "{}", "name a", "size", "'name=a'",
                           "name=", "size=", "type=", "name:", "path%", "size+"]))
    if d(st.booleans()):
        return [], [t]
    return ["-e", t], None


@error("operator", 12)
def _(d):
    t = d(st.sampled_from(["size~1", "size:1", "size%1", "type:f", "type~f", "type+f", "exec:yes", "exec~yes", "exec>yes", "name+a", "name>=a", "name-=a", "name<a", "mtime~1", "mtime:1",
                           "depth%1", "perm+644", "perm%644", "perm>644", "mode-=1", "uid:0", "mime:text"[:0] + "links~2"]))
    if d(st.booleans()):
        return [], [t]
    return ["-e", t], None


@error("invalid regular expression", 12)
def _(d):
    a = d(st.sampled_from(["name", "path", "dir", "ext", "text", "user", "link"]))
    t = f"{a}~" + d(st.sampled_from(["[", "(", ")", "*", "a**", "(?P<a", "(?z)", "\\", "[z-a]", "a{2,1}", "(?<=a*)b", "+", "(?P=x)", "\\8", "x(", "[[:"[:2]]))
    if d(st.booleans()):
        return [], [t]
    return ["-e", t], None


@error("type choice", 12)
def _(d):
    return [], ["type=" + d(st.sampled_from(["x", "F", "files", "f,d", "0", "f d", "dir"]))]


@error("invalid value", 2)
def _(d):
    t = d(st.sampled_from([
        "size=x", "size=1X", "size=1.2.3", "size=K", "size=1KK", "size+=1e5", "size=0x10", "size=1,5", "size=+1", "size=1 K B", "size=1BK", "size=.", "size=--1", "size=nan", "size=inf", "size=infM",
        "depth=x", "depth=1.5", "depth=1K", "links=", "uid=root", "inode=0x1", "depth==1"[:0] + "depth=1e3", "links=1_x",
        "mtime=x", "mtime=2020-13-01", "mtime=2020-02-30", "mtime=2020-01-01T25:00", "mtime=24:00", "mtime=1x", "mtime=12:60", "mtime=2021-02-29", "ctime=yesterday", "mtime=2020/01/01", "mtime=1.5d",
        "mtime=2020-1", "mtime+=d", "mtime=1dd", "time=12:00:61", "mtime=nan",
        "perm=8", "perm=9999", "perm=u", "perm=x+r", "perm=u+q", "perm=u+", "perm=+"[:7] + "?", "perm=rwx", "perm=0o644", "perm=u=r,", "perm=,u=r", "perm=644x", "perm=a+t+z",
        "exec=x", "exec=2", "exec=yess", "hidden=ja", "empty=-1", "samedev=none", "exec=yes no"]))
    if t == "links=":
        t = "links=x"
    if t in ("perm=+?", "perm=?"):
        t = "perm=?"
    if d(st.booleans()):
        return [], [t]
    return ["-e", t], None


@error("malformed expression", 2)
def _(d):
    return [], d(st.sampled_from([
        ["("], [")"], ["{{"], ["}}"], ["(", "name=a"], ["name=a", ")"], ["(", "name=a", "}}"][:2], ["(", ")"], ["{{", "}}"], ["or"], ["or", "name=a"], ["name=a", "or"], ["name=a", "or", "or", "name=b"],
        ["not"], ["name=a", "not"], ["not", "or", "name=a"], ["(", "or", "name=a", ")"], ["(", "name=a", "or", ")"], ["not", "(", ")"], ["(", "not", ")"], ["name=a", "(", ")"], ["(", "(", "name=a", ")"],
        ["(", "name=a", ")", ")"], ["name=a", "or", "not"], ["not", ")"]]))


@error("malformed exclusion", 2)
def _(d):
    return d(st.sampled_from([["-e", "("], ["-e", "not"], ["-e", ")"], ["-e", "(", "-e", "name=a", "-e", ")"], ["-e", "not", "-e", "name=a"], ["--exclude={{"], ["-e", "name=a", "-e", "("]])), None


@error("overlapping directories", 2)
def _(d):
    two = d(st.sampled_from([["d", "d/e"], ["d/e", "d"], ["./d", "d/e"], ["d/", "d/e/"], ["..", "d"], [".", "d"], ["d/e", "."], ["d/../d", "d/e"], ["d", "./d/./e"]]))
    more = d(st.lists(st.sampled_from(["zz", "zz", "./zz/", "nonexistent"]), max_size=2, unique=True))
    k = d(st.integers(0, 2 + len(more)))
    two = (two + more)[k:] + (two + more)[:k]
    return [t for x in two for t in ("-D", x)], None


@error("reference to a missing file", 2)
def _(d):
    return [], [d(st.sampled_from(["name={}nonexistent", "size={size}nonexistent/x", "mtime+{}nonexistent", "perm={perm}d/nonexistent", "size={}"]))]


@error("missing directory", 2)
def _(d):
    return ["-D", d(st.sampled_from(["nonexistent", "d/nonexistent", "/nonexistent", "./nonexistent/", "\udcff"]))], None


@error("nested directories", 2)
def _(d):
    a, b = d(st.permutations(d(st.sampled_from([[".", "d"], ["d", "d/e"], ["./d/", "d/e/"], [".", "d/e"]]))))
    return ["-D", a, "-D", b], None


@error("arguments between options", 2)
def _(d):
    return ["type=f", "-H", "size=0"], []


@error("conflict", 2)
def _(d):
    return ("alone", d(st.sampled_from([["--count", "-x", "true"], ["--count=type", "-X", "true"], ["--count", "-l", "1:2"], ["-1", "--count=size"], ["-l", "2,1", "--count=type"],
                                        ["-X", "{}"], ["-X", "{name}", "a"], ["-X", "a{}", "{}"]]))), []


class Draw:
    """Takes decisions from a recorded list, so that a case is just JSON."""

    def __init__(self, data):
        self.data = data

    def __call__(self, strategy):
        return self.data.draw(strategy)


@st.composite
def error_strategy(draw, tier=None):
    name = draw(st.sampled_from(sorted(ERRORS)))
    front, tests = ERRORS[name][0](draw)
    where, front = front if isinstance(front, tuple) else ("front", front)
    goods = draw(st.lists(st.sampled_from(GOOD), max_size=3))
    if where == "alone":
        goods = []
    if where == "end" and tests is None:
        goods = [g for g in goods if g != ["--count"]]
    if name == "unknown attribute in a field" or name == "invalid field":
        # The last one wins.
        goods = [g for g in goods if g[0] in ("-H", "-j2", "-a", "-0", "--all", "-L", "-I", "-R", "-d")]
        if front[0] in ("-S", "--sort") or front[0] == "--count":
            goods = [g for g in goods if g[0] != "-d"]
    if name == "unknown attribute in a test" and ["-v"] in goods:
        pass
    ok = draw(st.sampled_from(OKTESTS))
    if tests is None:
        tests = ok
    pre = [t for g in goods for t in g]
    if where == "front":
        k = draw(st.integers(0, len(goods)))
        argv = [t for g in goods[:k] for t in g] + front + [t for g in goods[k:] for t in g]
        if argv and argv[-1] in ("--count", "-S") and tests:
            argv.append("-0")
        argv += tests
        for i, t in enumerate(argv[:-1]):
            # An optional argument would swallow what comes next.
            if t == "--count" and not argv[i + 1].startswith("-") and front[0] != "--count":
                argv[i:i + 1] = ["--count=type"]
    elif where == "end":
        argv = [t if t != "--count" else "--count=type" for t in pre] + tests + front
    else:
        argv = front
    return {"error": name, "argv": argv, "env": draw(st.sampled_from([0, 0, 0, 1, 99])), "opt": draw(st.booleans())}


def run_error(ctx, spec):
    argv = spec["argv"]
    root, env = prepare(ctx)
    if any(escapes(root, ctx.case, t) for t in argv):
        raise Skip()
    n = min(spec["env"], len(argv))
    if n:
        env["FF_OPTIONS"] = " ".join(shlex.quote(t) for t in argv[:n])
        argv = argv[n:]
    res = ctx.run(argv, root, opt=spec["opt"], env=env, uid=NOBODY)
    judge(res, argv, env)
    code = ERRORS[spec["error"]][1]
    if res.rc != code:
        fail(f"{spec['error']}: exit code {res.rc}, expected {code}", res, argv=argv, ff_options=env.get("FF_OPTIONS"))
    ctx.nontrivial = True
    ctx.mark(spec["error"])


# ------------------------------------------------------------------ size and depth

def deep_cases(tier, seed):
    sizes = [10, 200, 2000] if tier == "quick" else [10, 100, 300, 900, 2000, 5000, 20000]
    for n in sizes:
        for kind in ("brackets", "not", "braces", "open", "close", "or", "and", "long value", "long regex", "fields", "excludes"):
            yield {"kind": kind, "n": n, "opt": (n // 10 + seed) % 2 == 0}


def run_deep(ctx, spec):
    root, env = prepare(ctx)
    n, kind = spec["n"], spec["kind"]
    rc, want = (0,), None
    if kind == "brackets":
        argv, want = ["("] * n + ["name=file"] + [")"] * n, 1
    elif kind == "braces":
        argv, want = ["{{"] * n + ["name=file"] + ["}}"] * n, 1
    elif kind == "not":
        argv, want = ["not", "("] * (2 * (n // 2)) + ["name=file"] + [")"] * (2 * (n // 2)), 1
    elif kind == "open":
        argv, rc = ["("] * n + ["name=file"], (2,)
    elif kind == "close":
        argv, rc = ["("] * n + ["name=file"] + [")"] * (n + 1), (2,)
    elif kind == "or":
        argv, want = ["name=x", "or"] * n + ["name=file"], 1
    elif kind == "and":
        argv, want = ["type=f"] * n + ["name=file"], 1
    elif kind == "long value":
        argv, want = ["name=" + "x" * n], 0
    elif kind == "long regex":
        argv, want = ["name~" + "(x" * (n // 20) + ")" * (n // 20) + "|file"], 1
        want = None
    elif kind == "fields":
        argv, want = ["-o", ",".join(["name"] * n), "name=file"], 1
    else:
        argv, want = ["-e", "name=x"] * min(n, 2000) + ["name=file"], 1
    res = ctx.run(argv, root, opt=spec["opt"], env=env, uid=NOBODY)
    judge(res, argv[:3] + ["..."])
    if n > 100 and kind in ("brackets", "braces", "not", "open", "close", "long regex") and res.rc in (2, 12):
        # There may be a limit for nesting.
        ctx.mark("refused")
        return
    if res.rc not in rc:
        fail(f"exit code {res.rc}, expected {rc[0]}", res, kind=kind, n=n)
    if want is not None and res.out.count(b"\n") != want:
        fail(f"{want} results expected", res, kind=kind, n=n)
    ctx.nontrivial = n > 10


# ------------------------------------------------------------------ information

def info_cases(tier, seed):
    for i, argv in enumerate([["-h"], ["--help"], ["--version"], ["--help-full"], ["--help-attributes"], ["--help-plugins"], ["--help-types"], ["-h", "file"], ["-h", "grep"], ["--help=mime"],
                              ["-h", "ignore"], ["-h", "vfnosuch"], ["--help=vf"], ["--fail", "name=nothing"], ["--fail", "name=file"], ["--fail", "--json", "name=nothing"],
                              ["--fail", "--count=type", "name=nothing"], ["--fail", "--jsonl", "-S", "path", "name=nothing"], ["name=nothing"], ["--fail", "-X", "true"], ["--clean-cache"]]):
        yield {"argv": argv, "opt": (i + seed) % 2 == 0}


def run_info(ctx, spec):
    root, env = prepare(ctx)
    argv = spec["argv"]
    res = ctx.run(argv, root, opt=spec["opt"], env=env, uid=NOBODY)
    judge(res, argv)
    want = 0
    if "vf" in argv[-1]:
        want = 2
    elif argv[0] == "--fail" and argv[-1] == "name=nothing":
        want = 1
    if res.rc != want:
        fail(f"exit code {res.rc}, expected {want}", res, argv=argv)
    if argv[0].startswith(("-h", "--help", "--version")) and want == 0 and len(res.out) < 20:
        fail("no information", res, argv=argv)
    ctx.nontrivial = True


CHECK = Check(
    "C17",
    [Part("fuzz", run_fuzz, fuzz_strategy, quick=1100), Part("errors", run_error, lambda tier: error_strategy(), quick=700),
     Part("size", run_deep, cases=deep_cases, quick=33), Part("information", run_info, cases=info_cases, quick=21)],
    rule="Random command lines of options, values, tests, keywords and commands, mutated; valid command lines with one definite error.  ff runs as an unprivileged user with a PATH "
         "of stand-ins.  Non-trivial: more than one argument.",
    assumptions=["A start directory that is no directory or must not be read is not an error of the command line (warning, exit code 0).",
                 "Expressions nested more than 100 deep may be refused, but only with exit code 2 or 12."])
