"""C02: Boolean expressions."""
import os

from hypothesis import strategies as st

from .. import gen, model, tree
from ..core import Check, Part, Skip
from ..lib import JOBS, SCHED, expect_clean, expect_same, fail
from ..tree import split0


def tree_strategy(n=12):
    return tree.nodes(n, min_size=3, kinds="ddfffflp", meta=True, sizes=st.sampled_from([0, 1, 2, 5, 100, 1024, 1536]))


def strategy(tier):
    return st.fixed_dictionaries({
        "tree": tree_strategy(16 if tier == "thorough" else 12),
        "expr": gen.expr_strategy(gen.ATTRS_ALL, 14 if tier == "thorough" else 8),
        "style": st.lists(st.integers(0, 19), min_size=1, max_size=12),
        "case": st.sampled_from(["smart", "smart", "ignore", "sensitive"]),
        "jobs": JOBS, "opt": st.booleans(),
    })


def prepare(ctx, spec):
    root = os.path.join(ctx.case, "t")
    tree.build(root, spec["tree"])
    return root, gen.add_plugin_values(model.entries([(".", root)]))


def run(ctx, spec):
    root, es = prepare(ctx, spec)
    expr = spec["expr"]
    toks = gen.Renderer(spec["style"], es).render(expr)
    want = [e["path"] for e in es if gen.evaluate(expr, e, es, spec["case"])]
    argv = ["--no-cache", "-0", f"-j{spec['jobs']}", "-c", spec["case"]] + toks
    res = ctx.run(argv, root, opt=spec["opt"], env=gen.plugin_env(ctx, spec["opt"]))
    expect_clean(res, argv)
    expect_same(split0(res.out), want, res, argv=argv, what="selected entries", entries=len(es))
    ctx.nontrivial = 0 < len(want) < len(es)
    ctx.mark(f"atoms:{min(gen.count_atoms(expr), 6)}", f"top:{expr[0]}")


# ---------------------------------------------------------------- token strings

TOKENS = ["name:a", "type=f", "size+=1", "hidden=yes", "slen+3", "sflag=yes", "or", "OR", "and", "not", "NOT", "(", ")", "{{", "}}"]


def token_strategy(tier):
    return st.fixed_dictionaries({"toks": st.lists(st.integers(0, len(TOKENS) - 1), max_size=9), "opt": st.booleans()})


def token_cases(tier, seed):
    """All short token strings over one test and the connectives."""
    import itertools
    alpha = [0, 6, 9, 11, 12] if tier == "quick" else [0, 1, 6, 8, 9, 11, 12]
    for n in range(0, 4 if tier == "quick" else 5):
        for toks in itertools.product(alpha, repeat=n):
            yield {"toks": list(toks), "opt": (sum(toks) + n) % 2 == 0}


class Bad(Exception):
    pass


def parse(toks):
    """Grammar: expr = alt ('or' alt)*; alt = item (['and'] item)*; item = test | ['not'] test |
    ['not'] '(' expr ')'.  Returns a predicate, None if the meaning is not specified (stray ANDs,
    mixed or empty brackets), raises Bad."""
    toks = list(toks)
    unspecified = [False]
    depth = 0
    for t in toks:
        if t in ("(", "{{"):
            depth += 1
        elif t in (")", "}}"):
            depth -= 1
            if depth < 0:
                raise Bad("closing")
    if depth:
        raise Bad("unbalanced")

    def peek():
        return toks[0] if toks else None

    def expr(top):
        alts = [alt(top)]
        while peek() is not None and peek().lower() == "or":
            toks.pop(0)
            alts.append(alt(top))
        if len(alts) > 1 and any(not a for a in alts) or not top and any(not a for a in alts):
            raise Bad("empty")
        if top and alts == [[]]:
            return lambda e: True
        return lambda e: any(all(t(e) for t in a) for a in alts)

    def alt(top):
        items = []
        while True:
            t = peek()
            if t is None or t.lower() == "or" or t in (")", "}}"):
                return items
            toks.pop(0)
            if t.lower() == "and":
                if not items or peek() is None or peek().lower() in ("or", "and") or peek() in (")", "}}"):
                    unspecified[0] = True
                continue
            items.append(item(t))

    def item(t):
        if t.lower() == "not":
            n = peek()
            if n is None or n.lower() in ("and", "or", "not") or n in (")", "}}"):
                raise Bad("not")
            toks.pop(0)
            sub = item(n)
            return lambda e: not sub(e)
        if t in ("(", "{{"):
            sub = expr(False)
            if peek() not in (")", "}}"):
                raise Bad("bracket")
            toks.pop(0)
            return sub
        attr, op, val = {"name:a": ("name", ":", "a"), "type=f": ("type", "=", "f"), "size+=1": ("size", "+=", 1),
                         "hidden=yes": ("hidden", "=", True), "slen+3": ("slen", "+", 3), "sflag=yes": ("sflag", "=", True)}[t]
        return lambda e: model.test(e, attr, op, val, "smart", gen.KINDS)

    p = expr(True)
    if toks:
        raise Bad("superfluous")
    return None if unspecified[0] else p


FIXED_TREE = [{"p": 0, "n": n, "t": t, "s": s} for n, t, s in
              [("a", "d", 0), ("b", "d", 0), (".hid", "d", 0), ("abc", "f", 1), ("foo", "f", 0), ("x.a", "f", 5)]] + [
    {"p": 1, "n": "aa", "t": "f", "s": 1}, {"p": 1, "n": "zz", "t": "f", "s": 0}, {"p": 2, "n": "yyyy", "t": "p"},
    {"p": 3, "n": "quux", "t": "f", "s": 2}]


def run_tokens(ctx, spec):
    toks = [TOKENS[i] for i in spec["toks"]]
    root, es = prepare(ctx, {"tree": FIXED_TREE})
    try:
        p = parse(toks)
    except Bad:
        p = "bad"
    argv = ["--no-cache", "-0"] + toks
    res = ctx.run(argv, root, opt=spec["opt"], env=gen.plugin_env(ctx, spec["opt"]))
    if res.timed_out or res.traceback:
        fail("timeout or traceback", res, argv=argv)
    if p == "bad":
        ctx.mark("malformed")
        if res.rc != 2 or res.out or not res.err:
            fail(f"malformed expression accepted or reported with exit code {res.rc}", res, argv=argv)
    elif p is None:
        ctx.mark("unspecified")
        ctx.nontrivial = False
        if res.rc not in (0, 2):
            fail(f"exit code {res.rc}", res, argv=argv)
    else:
        ctx.mark("well-formed")
        expect_clean(res, argv)
        expect_same(split0(res.out), [e["path"] for e in es if p(e)], res, argv=argv)


# ---------------------------------------------------------------- slow plugins: work is shared between processes

SLOW_PLUGIN = '''
import os, time
from libff.plugin import *

class Vfsleep(Plugin):
    """Takes its time."""
    speed = Speed.SLOW
    attributes = [("zlen", Number, "length of the path"), ("zodd", Boolean, "odd")]
    def can_handle(self, entry):
        return not entry.name.startswith("x")
    def process(self, entry, cached):
        time.sleep(float(os.environ["VF_SLEEP"]))
        yield "zlen", len(entry.relpath)
        yield "zodd", len(entry.name) % 2 == 1
'''


def slow_strategy(tier):
    return st.fixed_dictionaries({
        # Directories with many entries: (number of files, number of other subdirectories, parent)
        "dirs": st.lists(st.tuples(st.sampled_from([0, 1, 9, 11, 12, 20, 40, 80, 150, 250]), st.integers(0, 12), st.integers(0, 3)), min_size=1, max_size=4),
        "ms": st.sampled_from([1, 3, 10, 20]), "jobs": st.integers(2, 8), "opt": st.booleans(),
        "form": st.sampled_from(["test", "not", "or", "exclude", "sort"]), "n": st.integers(1, 12), "sched": SCHED})


def run_slow(ctx, spec):
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    rels = []
    dirs = [""]
    for k, (files, subdirs, parent) in enumerate(spec["dirs"]):
        d = dirs[parent % len(dirs)] + f"d{k}"
        os.mkdir(os.path.join(root, d))
        rels.append(d)
        dirs.append(d + "/")
        for i in range(subdirs):
            os.mkdir(os.path.join(root, d, "s" * (i % 3 + 1) + str(i)))
            rels.append(f"{d}/{'s' * (i % 3 + 1)}{i}")
        for i in range(files):
            rels.append(f"{d}/{'x' if i % 7 == 3 else 'f'}{i}" + "y" * (i % 4))
            open(os.path.join(root, rels[-1]), "w").close()
    total = len(rels) * spec["ms"] / 1000 / 2
    n = spec["n"]

    def val(r):
        name = r.split("/")[-1]
        return None if name.startswith("x") else (len(r), len(name) % 2 == 1)
    form = spec["form"]
    tests, pred = {
        "test": ([f"zlen+{n}"], lambda v: v is not None and v[0] > n),
        "not": (["not", f"zlen+{n}"], lambda v: v is None or v[0] <= n),
        "or": (["zodd=yes", "or", f"zlen={n}"], lambda v: v is not None and (v[1] or v[0] == n)),
        "exclude": (["zodd=yes"], lambda v: v is not None and v[1]),
        "sort": ([f"zlen+{n}"], lambda v: v is not None and v[0] > n)}[form]
    want = [r for r in rels if pred(val(r))]
    argv = ["--no-cache", "-0", f"-j{spec['jobs']}"]
    if form == "exclude":
        # An excluded directory is left out with everything below.
        argv += ["-e", "zlen=%d" % n]
        gone = [r for r in rels if val(r) and val(r)[0] == n]
        want = [r for r in want if not any(r == g or r.startswith(g + "/") for g in gone)]
    if form == "sort":
        argv += ["-S", "zlen,path"]
    argv += tests
    env = gen.plugin_env(ctx, spec["opt"], SLOW_PLUGIN, "sleep")
    env["VF_SLEEP"] = str(spec["ms"] / 1000)
    res = ctx.run(argv, root, opt=spec["opt"], env=env, sched=spec["sched"])
    expect_clean(res, argv)
    got = split0(res.out)
    expect_same(got, want, res, argv=argv, what="selected entries", entries=len(rels))
    if form == "sort" and [len(r) for r in got] != sorted(len(r) for r in got):
        fail("wrong order", res, argv=argv)
    ctx.nontrivial = 0 < len(want) and max(f + d for f, d, _ in spec["dirs"]) > 10 and total > 0.05


CHECK = Check(
    "C02",
    [Part("expr", run, strategy, quick=900),
     Part("tokens", run_tokens, token_strategy, cases=token_cases, quick=300),
     Part("slow", run_slow, slow_strategy, quick=100)],
    rule="expr: random AST over attributes of all kinds and speeds, rendered with random spelling, evaluated by a "
         "reference; non-trivial: some but not all entries match.  tokens: token strings against an independent "
         "recursive-descent grammar; strings whose meaning is not documented (stray AND) count as trivial.  slow: plugins that take 1 to 20 ms per "
         "entry, so that processes share the entries of large directories; non-trivial: more than 10 entries in a directory.",
    assumptions=["Leading, trailing and doubled ANDs are not specified and only checked for a clean exit."])
