"""C13: JSON output."""
import datetime
import json
import os
import zoneinfo

from hypothesis import strategies as st

from .. import gen, model, tree
from ..core import Check, Part
from ..lib import JOBS, SCHED, expect_clean, fail
from . import c11, c12

ALL = c12.ALL + ["word"]
FIELD = st.sampled_from(ALL).flatmap(
    lambda a: st.tuples(st.just(a), st.sampled_from([None, None, None, 5, -3]), st.sampled_from(c12.MODS[a]), st.booleans()))


def strategy(tier):
    def nodes(n):
        return tree.nodes(min_size=n, max_size=12, meta=True,
                          sizes=st.one_of(st.integers(0, 3000), st.sampled_from(c12.EDGES), st.integers(0, 2 ** 41)),
                          name_st=tree.names(extra=["a", "xa", "bc.d", '"', "\\", "a\"b", "\u2028", "\x7f", "\x1b[0m", "\\u0041", "null"]))
    return st.fixed_dictionaries({
        "tree": st.one_of(nodes(0), nodes(1), nodes(4)),
        "bulk": st.one_of(*[st.none()] * 6, st.tuples(st.integers(1, 10), st.integers(0, 40))),
        "fields": st.one_of(st.none(), st.just("file"), *[st.lists(FIELD, min_size=1, max_size=6)] * 4),
        "file_at": st.one_of(*[st.none()] * 6, st.integers(0, 6)),
        "mode": st.sampled_from(["--json", "--jsonl", "--ndjson"]),
        "flags": st.lists(st.sampled_from(["--all", "-0", "--si", "-a", "--sep=,", "--color=always", "-S", "--fail"]), max_size=3, unique=True),
        "test": st.sampled_from([[], [], [], ["type=f"], ["name=nothing-has-this-name"], ["slen+3"]]),
        "strict": st.booleans(), "tz": st.sampled_from(c12.TZS), "jobs": JOBS, "opt": st.booleans(), "sched": SCHED,
    })


def want_value(e, attr, mod, spec):
    """-> list of acceptable values."""
    if attr not in e:
        return [None]
    v = e[attr]
    if mod != "h":
        return [v]
    kind = c12.KIND[attr]
    if kind == "size":
        return c12.human_sizes(v, 1000 if "--si" in spec["flags"] else 1024)
    if kind == "time":
        return [datetime.datetime.fromtimestamp(v, zoneinfo.ZoneInfo(spec["tz"])).strftime("%Y-%m-%d %H:%M:%S")]
    if kind == "mode":
        return [c12.mode_text(v)]
    if kind == "dur":
        return [c12.duration_text(v)]
    # Other types have no human readable form; whether the value turns to text is not specified.
    return [v, str(v), f"{v} -> {e.get('link')}"]


def same(a, b):
    return a == b and isinstance(a, bool) == isinstance(b, bool) and isinstance(a, str) == isinstance(b, str)


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    tree.build(root, spec["tree"], bulk=spec["bulk"])
    es = c11.extra_values(gen.add_plugin_values(model.entries([(".", root)], absolute=True)))
    passes = {(): lambda e: True, ("type=f",): lambda e: e["type"] == "file", ("name=nothing-has-this-name",): lambda e: False,
              ("slen+3",): lambda e: e.get("slen", 0) > 3}[tuple(spec["test"])]
    es = [e for e in es if passes(e)]
    env = gen.plugin_env(ctx, spec["opt"], c11.PLUGIN, "c11")
    env["TZ"] = spec["tz"]
    argv = ["--no-cache", f"-j{spec['jobs']}", spec["mode"]] + [f for f in spec["flags"] if f != "-S"] + spec["test"]
    # A path that identifies the entry is added.
    fields = spec["fields"]
    if fields is None:
        use = [("path", None, "", False)]
    elif fields == "file":
        use = None
        argv += ["-o", "file"]
    else:
        use = [f for f in fields if f[0] != "path"]
        names = {}
        # The same name twice: one key, the last one counts in Python's dict; leave it out.
        use = [f for f in use if names.setdefault(f[0], f) is f]
        if spec.get("file_at") is None:
            use.append(("path", None, "", False))
        else:
            use = [f for f in use if f[0] not in model.ALL]
        texts = [(c11.full(a) if q else a) + (":" if w is not None or m else "") + ("" if w is None else str(w)) + m for a, w, m, q in use]
        if spec.get("file_at") is not None:
            # All the attributes of the file plugin, besides the others.
            texts.insert(spec["file_at"] % (len(texts) + 1), "file")
        argv += ["-o", ",".join(texts)]
    if "-S" in spec["flags"]:
        argv.append("-S")
    res = ctx.run(argv, root, opt=spec["opt"], env=env, sched=spec["sched"], strict=spec["strict"])
    expect_clean(res, argv, rc=1 if "--fail" in spec["flags"] and not es else 0)
    try:
        text = res.out.decode("ascii")
    except UnicodeDecodeError:
        text = res.out.decode("utf-8")      # fails if it is not valid
    try:
        if spec["mode"] == "--json":
            got = json.loads(text, parse_constant=lambda x: fail(f"{x} is not JSON", res, argv=argv))
        else:
            if text and not text.endswith("\n"):
                fail("the last line is not terminated", res, argv=argv)
            got = [json.loads(line, parse_constant=lambda x: fail(f"{x} is not JSON", res, argv=argv))
                   for line in text.split("\n")[:-1]]
    except ValueError as exc:
        fail(f"the output is not valid JSON: {exc}", res, argv=argv)
    if not isinstance(got, list) or any(not isinstance(g, dict) for g in got):
        fail("not a list of objects", res, argv=argv)
    by_path = {e["path"]: e for e in es}
    seen = set()
    for g in got:
        p = g.get("path", g.get("file.path"))
        if p not in by_path or p in seen:
            fail("an entry is unexpected or occurs twice", res, argv=argv, object=g)
        seen.add(p)
        e = by_path[p]
        if use is None or spec.get("file_at") is not None and isinstance(fields, list):
            keys = {k.split(".")[-1]: v for k, v in g.items()}
            missing = [k for k in model.ALL if k not in keys]
            if missing:
                fail("attributes of the file plugin are missing", res, argv=argv, missing=missing)
            for k in model.ALL:
                if k not in ("atime", "mount") and not same(keys[k], e.get(k)):
                    fail(f"value of {k} is {keys[k]!r}", res, argv=argv, expected=e.get(k))
            if use is None:
                continue
            ctx.mark("all file attributes and others")
        elif len(g) != len(use):
            fail("an object has not exactly the requested attributes as keys", res, argv=argv, object=g)
        for a, w, m, q in use:
            key = c11.full(a) if q else a
            if key not in g:
                fail(f"no key {key!r}", res, argv=argv, object=g)
            acc = want_value(e, a, m, spec)
            if not any(same(g[key], v) for v in acc):
                fail(f"value of {key} is {g[key]!r}", res, argv=argv, expected=acc)
    if len(seen) != len(es):
        fail(f"{len(es) - len(seen)} entries are missing", res, argv=argv, missing=sorted(set(by_path) - seen)[:10])
    if "-S" in spec["flags"] and [g.get("path", g.get("file.path")) for g in got] != \
            sorted((g.get("path", g.get("file.path")) for g in got), key=lambda p: "/".join(c.lstrip(".") for c in p.lower().split("/"))):
        fail("not sorted", res, argv=argv)
    ctx.nontrivial = len(es) > 0
    ctx.mark(spec["mode"], "empty result" if not es else "result")
    if use is None:
        ctx.mark("all file attributes")
    else:
        for a, w, m, q in use:
            ctx.mark(f"{c12.KIND[a]}:{m}" if m else c12.KIND[a])
            if any(a not in e for e in es):
                ctx.mark("null")
    if any("\udc80" <= c <= "\udcff" for e in es for c in e["name"]):
        ctx.mark("undecodable name")


CHECK = Check(
    "C13",
    [Part("json", run, strategy, quick=1200)],
    rule="Trees with arbitrary names and metadata, lists of attributes with modifiers; the output is parsed and every value compared with the reference.  "
         "Non-trivial: at least one object is expected.",
    assumptions=["For types without a human readable form the modifier h may leave the value or turn it to text."])
