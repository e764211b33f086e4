"""C11: counts."""
import collections
import json
import os
import re
import stat

from hypothesis import strategies as st

from .. import gen, model, tree
from ..core import Check, Part
from ..lib import JOBS, SCHED, expect_clean, fail

DURATION = '''
from libff.plugin import *
class Vfdur(Plugin):
    """Durations."""
    attributes = [("dur", Duration, "d"), ("big", Size, "b"), ("word", String, "w")]
    def can_handle(self, entry):
        return entry.type == "file"
    def process(self, entry, cached):
        if len(entry.name) % 3:
            yield "dur", len(entry.name) * 1000 + entry.size
        yield "big", (entry.size + 1) * 2 ** 40
        if "a" in entry.name:
            yield "word", str(entry.size % 3 * 7)
'''
PLUGIN = gen.PLUGIN + DURATION.replace("from libff.plugin import *", "")

PLAIN = ["size", "type", "ext", "name", "depth", "links", "uid", "user", "perm", "mode", "dir", "exec", "hidden", "empty",
         "link", "broken", "mtime", "root", "relpath", "path", "slen", "srev", "sflag", "nlen", "nsize", "fnum", "nmode",
         "dur", "big", "word", "namex", "samedev"]
TOTAL = ("size", "nsize", "dur", "big")
PLUG = {"slen": "vfslow", "srev": "vfslow", "sflag": "vfslow", "slist": "vfslow", "fnum": "vffast", "fup": "vffast", "nlen": "vfnorm",
        "nmode": "vfnorm", "nsize": "vfnorm", "dur": "vfdur", "big": "vfdur", "word": "vfdur"}
MODS = {"size": ["", "", "x", "o"], "perm": ["", "o", "h", "x"], "mode": ["", "h", "o"], "uid": ["", "x", "o"], "mtime": ["", "h"],
        "links": ["", "x"], "nmode": ["", "h", "o"], "big": ["", "x"], "slen": ["", "o"]}


def full(attr):
    return f"{PLUG[attr]}.{attr}" if attr in PLUG else f"file.{attr}"


PREFIX = re.compile(r"^(?:file|vfslow|vffast|vfnorm|vfdur)\.(?=[a-z]+[=\[])", re.M)
FIELD = st.sampled_from(PLAIN).flatmap(
    lambda a: st.tuples(st.just(a), st.sampled_from(MODS.get(a, [""])), st.booleans(), st.booleans()))


def strategy(tier):
    def nodes(n):
        return tree.nodes(min_size=n, max_size=18, meta=True,
                          sizes=st.one_of(st.integers(0, 5000), st.sampled_from([0, 1, 2 ** 33, 2 ** 41])),
                          name_st=tree.names(extra=["a", "12", "007", "x.5", "x.12", "aa.b"]))
    return st.fixed_dictionaries({
        "tree": st.one_of(nodes(0), nodes(4), nodes(8)),
        "bulk": st.one_of(st.none(), st.none(), st.tuples(st.integers(1, 12), st.integers(0, 30))),
        "fields": st.one_of(st.none(), st.lists(FIELD, min_size=1, max_size=5)),
        "eq": st.booleans(),
        "json": st.sampled_from(["", "", "--json", "--jsonl"]),
        "test": st.sampled_from([[], [], ["type=f"], ["size+0"], ["name=nothing-has-this-name"], ["type=d", "or", "depth=0"], ["slen+3"]]),
        "abs": st.booleans(), "jobs": JOBS, "opt": st.booleans(), "sched": SCHED, "strict": st.booleans(),
        "extra": st.sampled_from([[], [], [], ["-S", "size"], ["-0"], ["-R"]]),
    })


def passes(test, e):
    return {"": True, "type=f": e["type"] == "file", "size+0": e["size"] > 0,
            "name=nothing-has-this-name": False, "type=d or depth=0": e["type"] == "directory" or e["depth"] == 0,
            "slen+3": e.get("slen", 0) > 3}[" ".join(test)]


def short(name):
    """Whether the name of the plugin is shown is not judged."""
    return name.split(".")[-1]


def text_of(kind, value, mod):
    if mod == "x":
        return f"{value:x}"
    if mod == "o":
        return f"{value:o}"
    if mod == "h" and kind == "mode":
        return stat.filemode(value)
    if mod == "h" and kind == "time":
        import datetime
        return datetime.datetime.fromtimestamp(value, datetime.timezone.utc).strftime("%Y-%m-%d %H:%M:%S")
    if isinstance(value, bool):
        return "true" if value else "false"
    return str(value)


def extra_values(es):
    for e in es:
        if e["type"] == "file":
            if len(e["name"]) % 3:
                e["dur"] = len(e["name"]) * 1000 + e["size"]
            e["big"] = (e["size"] + 1) * 2 ** 40
            if "a" in e["name"]:
                e["word"] = str(e["size"] % 3 * 7)
    return es


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    tree.build(root, spec["tree"], bulk=spec["bulk"])
    absolute = bool(spec["abs"] or spec["json"])
    es = extra_values(gen.add_plugin_values(model.entries([(".", root)], absolute=absolute)))
    es = [e for e in es if passes(spec["test"], e)]
    env = gen.plugin_env(ctx, spec["opt"], PLUGIN, "c11")
    argv = ["--no-cache", f"-j{spec['jobs']}"]
    if spec["json"]:
        argv.append(spec["json"])
    if spec["abs"]:
        argv.append("-a")
    argv += spec["extra"]
    fields = spec["fields"]
    if fields is None:
        # The bare option would take the following test as its argument.
        argv += ["--case", "smart"] + spec["test"] + ["--count"]
    else:
        text = ",".join((full(a) if q else a) + (f":{m}" if m else "") for a, m, q, _ in fields)
        argv += (["--count=" + text] if spec["eq"] else ["--count", text]) + spec["test"]
    res = ctx.run(argv, root, opt=spec["opt"], env=env, sched=spec["sched"], strict=spec["strict"])
    expect_clean(res, argv)

    if fields is None:
        use = [("size", "" if spec["json"] else "any"), ("type", "")]
    else:
        use = []
        seen = {}
        for a, m, _, _ in fields:
            if a in seen and seen[a] != m:
                # The same attribute with different modifiers: which one is used is not specified.
                seen[a] = None
            else:
                seen[a] = m
        use = [(a, m) for a, m in seen.items()]
    want = {"_total": len(es)}
    loose = {}
    for a, m in use:
        kind = gen.KINDS.get(a) or "number"
        values = [e[a] for e in es if a in e]
        if m is None or (m == "any"):
            loose[full(a)] = True
            continue
        if not values:
            continue
        if a in TOTAL:
            total = sum(values)
            want[full(a)] = text_of(kind, total, m) if m else total
        else:
            want[full(a)] = dict(collections.Counter(text_of(kind, v, m) for v in values))
    out = res.out.decode("utf-8", "surrogateescape")
    if spec["json"]:
        got = json.loads(out)
        plain = {short(k): v for k, v in got.items()}
        if len(plain) != len(got) and not loose:
            fail("an attribute occurs twice", res, argv=argv)
        wantp = {short(k): v for k, v in want.items()}
        loosep = {short(k) for k in loose}
        if {k: v for k, v in plain.items() if k not in loosep} != wantp:
            fail("counts differ", res, argv=argv, expected=wantp)
    else:
        lines = []
        for key, val in want.items():
            key = short(key)
            if isinstance(val, dict):
                # Several values may have the same text.
                for k, v in val.items():
                    if spec["strict"]:
                        k = k.encode("utf-8", "backslashreplace").decode()
                    lines.append((key, k, v))
            else:
                lines.append((key, None, val))
        want_lines = []
        for key, k, v in lines:
            want_lines.append(f"{key}={v}\n" if k is None else f"{key}[{k}]={v}\n")
        got_text = out
        for a in loose:
            starts = tuple(x + c for x in (a, short(a)) for c in "=[")
            got_text = "".join(x for x in got_text.splitlines(True) if not x.startswith(starts))
        strange = any("\n" in w[:-1] or "\r" in w for w in want_lines) or any(
            c in got_text for c in "\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
        got_text = PREFIX.sub("", got_text)
        if strange:
            # Values with line breaks: compare the text as a bag of lines.
            got_l, want_l = sorted(got_text.split("\n")), sorted("".join(want_lines).split("\n"))
            if not loose and got_l != want_l:
                fail("counts differ", res, argv=argv, expected=want_l[:30])
        elif sorted(got_text.splitlines(True)) != sorted(want_lines):
            fail("counts differ", res, argv=argv, expected=sorted(want_lines)[:30])
        if fields is None and es:
            total = sum(e["size"] for e in es)
            line = [x for x in out.splitlines() if x.startswith(("size=", "file.size="))]
            if len(line) != 1:
                fail("the total size is missing", res, argv=argv)
            check_human(line[0].split("=", 1)[1], total, res, argv)
    ctx.nontrivial = len(es) > 1
    ctx.mark("json" if spec["json"] else "text", f"fields:{'default' if fields is None else 'list'}")
    for a, m in use:
        ctx.mark("total" if a in TOTAL else "by value")
    if not es:
        ctx.mark("no entries")
    if len({full(a) for a, _ in use}) < len(fields or use):
        ctx.mark("duplicates")


def check_human(text, number, res=None, argv=None):
    """A human readable size denotes the number with the precision it shows."""
    units = "KMGTPEZY"
    unit = text[-1] if text[-1] in units else ""
    factor = 1024 ** (units.index(unit) + 1) if unit else 1
    digits = text[:-1] if unit else text
    value = float(digits)
    step = 0.1 if "." in digits else 1
    if abs(value * factor - number) > step * factor + 0.06 * factor or (not unit and value != number):
        fail(f"{text} does not stand for {number}", res, argv=argv)


def error_cases(tier, seed):
    for a in ("slist", "vfslow.slist", "size,slist", "type,slist:n", "slist,slist"):
        yield {"arg": a, "json": a == "slist"}


def run_error(ctx, spec):
    """Attributes that cannot be counted."""
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    open(os.path.join(root, "xa"), "w").close()
    for opt in (False, True):
        env = gen.plugin_env(ctx, opt, PLUGIN, "c11")
        argv = ["--no-cache", "--count", spec["arg"]] + (["--json"] if spec["json"] else [])
        res = ctx.run(argv, root, opt=opt, env=env)
        if res.timed_out or res.rc != 2 or res.out or not res.err or res.traceback:
            fail("an attribute that cannot be counted was not rejected", res, argv=argv)
    ctx.nontrivial = True


CHECK = Check(
    "C11",
    [Part("count", run, strategy, quick=900), Part("reject", run_error, cases=error_cases, quick=5)],
    rule="Trees with metadata, lists of attributes of the file plugin and of test plugins (totals, values that are missing for some entries) with modifiers; "
         "counts are recomputed from lstat.  Non-trivial: more than one entry matches.",
    assumptions=["Durations and sizes with the modifier h are judged in C12; here only the default total.",
                 "Attributes that no entry has a value for may be absent from the output."])
