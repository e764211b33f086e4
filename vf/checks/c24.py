"""C24: colors."""
import itertools
import json
import os

from hypothesis import strategies as st

from .. import gen, model, tree
from ..core import Check, Part
from ..lib import JOBS, Recorder, expect_clean, fail
from . import c11, c12

SEQ = st.one_of(st.sampled_from(["01;34", "31", "0", "38;5;208", "01", "1;3;4;7", "00", "38;2;1;2;3", "48;5;1;38;5;2", "4", ""]), st.integers(0, 107).map(str))
KEY2 = st.sampled_from(["di", "di", "ex", "ex", "ln", "ln", "or", "or", "fi", "no", "pi", "so", "bd", "cd", "mi", "su", "sg", "tw", "ow", "st", "ca", "mh", "do"])
EXTS = ["txt", "c", "py", "x", "gz", "d", "é", "1", "tar", "TXT", "Py"]
PART = st.one_of(st.tuples(KEY2, SEQ), st.tuples(KEY2, SEQ), st.tuples(st.sampled_from(EXTS).map(lambda x: "*." + x), SEQ), st.tuples(st.sampled_from(EXTS).map(lambda x: "*." + x), SEQ),
                 st.sampled_from([("rs", "0"), ("rs", "00"), ("ln", "target"), ("or", "x"), ("ln", "TARGET"), ("*README", "31"), ("*~", "32"), ("", "1"), ("xyz", "1"), ("d1", "1")]),
                 st.sampled_from([("", None), ("junk", None), ("di", None), ("*.txt", None)]))
FIELD = st.sampled_from([*["path"] * 15, *["name"] * 10, *["dir"] * 5, *c12.ALL]).flatmap(
    lambda a: st.tuples(st.just(a), c12.WIDTH, st.sampled_from(c12.MODS[a]), st.booleans()))
PADDED = st.tuples(st.sampled_from(["path", "path", "name", "name", "dir"]), st.one_of(st.integers(4, 40), st.integers(-40, -4)), st.just(""), st.booleans())
PADDED = st.one_of(PADDED, PADDED, st.tuples(st.just("path"), st.one_of(st.integers(4, 40), st.integers(-40, -4)), st.just("h"), st.booleans()))
FIELD = st.one_of(FIELD, FIELD, PADDED)


def strategy(tier):
    return st.fixed_dictionaries({
        "tree": tree.nodes(min_size=4, max_size=14, meta=True, kinds="dddffffffllps",
                   name_st=tree.names(newline=False, extra=["a", "foo.txt", "b.c", "x.py", ".txt", "a.tar.gz", "d.d", "A.TXT", "B.Py", "\x1b[1mb", "\x1b[0m.txt", "a\tb.c", "tar", "b.1", "é.é", "a.", "日本.txt", "\x1b"])),
        "colors": st.one_of(st.none(), st.just([]), *[st.lists(PART, min_size=3, max_size=16).map(lambda x: [list(y) for y in x])] * 8),
        "fields": st.one_of(st.none(), st.lists(FIELD, min_size=1, max_size=4).map(lambda x: [list(y) for y in x])),
        "sep": st.sampled_from([" ", " ", "|", "", "\x1b", "m", "0", "ä", "[0m"]), "zero": st.booleans(), "abs": st.booleans(), "all": st.booleans(),
        "how": st.sampled_from(["always"] * 8 + ["tty"] * 4 + ["never", "tty-never", "no_color", "no_color_empty", "pipe", "json", "jsonl", "tty-json", "count", "exec", "batch", "no_color_always", "env"]),
        "sort": st.booleans(), "jobs": JOBS, "opt": st.booleans(), "strict": st.booleans(), "execs": st.integers(0, 2 ** 14 - 1),
    })


class Colors:
    def __init__(self, parts):
        self.rules, self.exts = {}, {}
        for key, val in parts or []:
            if val is None or any(c not in "0123456789;" for c in val):
                continue
            if len(key) == 2 and key.isalpha():
                self.rules[key] = val
            elif key.startswith("*.") and key[2:]:
                self.exts[key[2:]] = val
        self.reset = f"\x1b[{self.rules.get('rs', '0')}m"
        self.on = True

    def wrap(self, seq, text):
        """Acceptable forms of a text with a color."""
        if seq is None or not self.on:
            return [text]
        if seq == "":
            return [text, text + self.reset]
        full = f"\x1b[{seq}m{text}{self.reset}"
        return [full] if text else [full, ""]

    def directory(self, text):
        return self.wrap(self.rules.get("di"), text)

    def name(self, e):
        """Acceptable forms of the name of an entry."""
        n, t, r = e["name"], e["type"], self.rules
        ext = self.exts.get(e["ext"]) if e["ext"] else None
        cands = []
        if t == "directory":
            cands = [r.get("di")]
        elif t == "symlink":
            cands = [r.get("ln")]
            if e["broken"]:
                cands = [r["or"]] if "or" in r else [None, r.get("ln")]
        elif t != "file":
            # Special files have no colors of their own (yet).
            cands = [None, r.get("ex"), ext]
        elif e["exec"]:
            cands = [r["ex"]] if "ex" in r else [None, ext]
        else:
            cands = [ext]
            if ext is None:
                # Whether case matters is not specified.
                cands += [v for k, v in self.exts.items() if k.lower() == e["ext"].lower()]
        out = []
        for c in cands:
            out += self.wrap(c, n)
        return list(dict.fromkeys(out))


def render(e, attr, width, mod, spec, colors):
    """Acceptable texts of a field with colors."""
    texts = c12.render(e, attr, None, mod, spec)
    if texts is None or attr not in e or attr not in ("path", "name", "dir"):
        return c12.render(e, attr, width, mod, spec)
    plain = texts[0]
    if attr == "dir":
        out = colors.directory(plain)
    elif attr == "name":
        out = colors.name(e)
    elif e["type"] == "directory":
        out = colors.directory(plain)
    else:
        d = e["dir"]
        out = [a + b for a in (colors.directory(d.rstrip("/") + "/") if d else [""]) for b in colors.name(e)]
        if mod == "h" and e["type"] == "symlink":
            out = [x + " -> " + e["link"] for x in out]
    if width is not None:
        fill = " " * max(0, abs(width) - len(plain))
        out = [x + fill if width < 0 else fill + x for x in out]
    return out


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    tree.build(root, spec["tree"])
    k = 0
    for dp, ds, fs in os.walk(root):
        for n in sorted(fs):
            p = os.path.join(dp, n)
            if not os.path.islink(p) and spec["execs"] >> k & 1:
                os.chmod(p, (0o755, 0o010, 0o101)[k % 3])
            k += 1
    es = c11.extra_values(gen.add_plugin_values(model.entries([(".", root)], absolute=spec["abs"])))
    env = gen.plugin_env(ctx, spec["opt"], c11.PLUGIN, "c11")
    env["TZ"] = "UTC"
    how = spec["how"]
    parts = spec["colors"]
    if parts is not None:
        env["LS_COLORS"] = ":".join(key if val is None else f"{key}={val}" for key, val in parts)
    colors = Colors(parts)
    argv = ["--no-cache", f"-j{spec['jobs']}"]
    fields = spec["fields"] or [["path", None, "", False]]
    if spec["fields"]:
        argv += ["-o", ",".join((c11.full(a) if q else a) + (":" if w is not None or m else "") + ("" if w is None else str(w)) + m for a, w, m, q in fields)]
    argv += ["-0"] if spec["zero"] else []
    argv += ["-a"] if spec["abs"] else []
    argv += ["--all"] if spec["all"] else []
    argv += ["--sep=" + spec["sep"]] if spec["sep"] != " " else []
    argv += ["-S", "path"] if spec["sort"] else []
    pty = how.startswith("tty") or how.startswith("no_color")
    rec = None
    colors.on = how in ("always", "tty", "no_color_always", "env")
    if how == "no_color_empty":
        colors.on = False
    if how in ("always", "json", "jsonl", "count", "exec", "batch", "no_color_always"):
        argv += ["--color=always"]
    elif how == "env":
        env["FF_OPTIONS"] = "-Calways"
    elif how.endswith("never"):
        argv += ["-C", "never"]
    if how.startswith("no_color"):
        env["NO_COLOR"] = "" if how == "no_color_empty" else "1"
    if "json" in how:
        argv = [a for a in argv if a not in ("-0", "--all")] + ["--jsonl" if how == "jsonl" else "--json"]
    if how == "count":
        argv = ["--no-cache", "--color=always", "--count"]
    if how in ("exec", "batch"):
        rec = Recorder(ctx, "rec")
        env.update(rec.env)
        argv = [a for i, a in enumerate(argv) if a not in ("-o", "-0", "--all") and (i == 0 or argv[i - 1] != "-o")] + (["-x", rec.path, "{}", "{/}", "{//}"] if how == "exec" else ["-X", rec.path])
    res = ctx.run(argv, root, opt=spec["opt"], env=env, strict=spec["strict"] and not pty, pty=pty)
    warn = not (parts and env.get("LS_COLORS")) and colors.on
    if warn:
        if res.rc != 0 or res.timed_out or res.traceback:
            fail("ff failed", res, argv=argv, LS_COLORS=env.get("LS_COLORS"))
    else:
        expect_clean(res, argv)
    detail = {"argv": argv, "LS_COLORS": env.get("LS_COLORS"), "how": how}
    ctx.mark(how)
    if "json" in how:
        data = [json.loads(x) for x in res.out.decode().splitlines()] if how == "jsonl" else json.loads(res.out.decode())
        keys = {"path"} if not spec["fields"] else {c11.full(a) if q else a for a, w, m, q in fields}
        pkeys = [x for x in ("path", "file.path") if x in keys]
        for r in data:
            for k in ("path", "file.path", "name", "file.name", "dir", "file.dir"):
                if k in r and r[k] is not None:
                    absolute = {e2["name"] for e2 in es} if "name" in k else None
                    if absolute is not None and r[k] not in absolute:
                        fail("colors in JSON output", res, value=r[k], **detail)
                    if "path" in k and not os.path.lexists(r[k]) or "dir" in k and not os.path.isdir(r[k]):
                        fail("colors in JSON output", res, value=r[k], **detail)
        ctx.nontrivial = bool(data) and bool(pkeys)
        return
    if how == "count":
        if b"\x1b" in res.out:
            fail("escape sequences in --count output", res, **detail)
        ctx.nontrivial = bool(es)
        return
    if rec is not None:
        calls = rec.calls()
        if how == "exec":
            got = sorted(map(list, calls))
            want = sorted([e["path"], e["name"], e["dir"]] for e in es)
        else:
            got, want = sorted(x for c in calls for x in c), sorted(e["path"] for e in es)
        if got != want:
            fail("arguments of commands are not as they should be with --color=always", got=got[:5], want=want[:5], **detail)
        ctx.nontrivial = bool(es)
        return
    end = "\0" if spec["zero"] else "\n"

    def enc(s):
        s += end
        try:
            return s.encode("utf-8") if spec["strict"] and not pty else os.fsencode(s)
        except UnicodeEncodeError:
            return s.encode("utf-8", "backslashreplace")
    sp = {**spec, "si": False, "tz": "UTC"}
    want, total = [], 0
    for e in es:
        ps = [render(e, a, w, m, sp, colors) for a, w, m, _ in fields]
        if None in ps:
            continue
        want.append([enc(spec["sep"].join(x)) for x in itertools.product(*ps)])
        total += any("\x1b[" in x for p in ps for x in p)
    e = end.encode()
    got = [x + e for x in res.out.split(e)]
    if got[-1] != e:
        fail("the last record is not terminated", res, **detail)
    missing, extra = c12.assign(got[:-1], want)
    if missing or extra:
        fail("the output is not as it should be", res, missing=[repr(want[i]) for i in missing[:4]], unexpected=[repr(x) for x in extra[:4]], **detail)
    ctx.nontrivial = total > 0 and any(a in ("path", "name", "dir") for a, _, _, _ in fields)
    if colors.on:
        for x in colors.rules:
            if x in ("di", "ex", "ln", "or"):
                ctx.mark("rule " + x)
        if any(en["ext"] in colors.exts and en["type"] == "file" for en in es if en["ext"]):
            ctx.mark("extension")


CHECK = Check(
    "C24",
    [Part("output", run, strategy, quick=2200)],
    rule="Text output for generated trees, LS_COLORS, fields and widths to pipes, terminals (pseudo terminals) and commands, with all ways to switch colors on and off: every record must be the one without colors with the sequences for directories, "
         "links, broken links, executables and extensions around the names and nothing else; non-trivial: there are colored fields.",
    assumptions=["Values of LS_COLORS are numbers separated by semicolons; anything else is ignored.", "The priority of rules other than executable over extension and the color of special files are not specified."])
