"""C31: debug mode, debug messages and profiling."""
import collections
import os

from hypothesis import strategies as st

from .. import gen, tree
from ..core import Check, Part
from ..lib import Recorder, fail
from ..runner import REPO
from . import c11, c22

# The slow plugin with something to store in the cache.
CACHING = c11.PLUGIN.replace("class Vfslow(Plugin):\n", "class Vfslow(Plugin):\n    use_cache = True\n    def cache(self, entry):\n        return entry.name\n", 1)
assert CACHING != c11.PLUGIN
CATEGORIES = ["info", "cache", "walk", "mp"]


def strategy(tier):
    return st.tuples(c22.strategy(tier), st.fixed_dictionaries({
        "debug": st.one_of(st.just(["all"]), st.just(["none"]), st.lists(st.sampled_from(CATEGORIES + ["nosuch"]), min_size=1, max_size=3, unique=True)),
        "cache": st.booleans(), "style": st.one_of(st.none(), st.integers(0, 10 ** 6)), "eq": st.booleans(), "profile": st.booleans(), "bin": st.integers(0, 12)}))


def run(ctx, spec):
    s, o = spec
    root = os.path.join(ctx.case, "t")
    tree.build(root, s["tree"])
    if s["ignore"]:
        with open(os.path.join(root, ".gitignore"), "w") as f:
            f.write("*.txt\nb/\n")
    top = sorted(e.name for e in os.scandir(root) if e.is_dir(follow_symlinks=False) and not e.name.startswith("-"))
    dirs = [("default", ".")] if s["dirs"] == "none" or not top else [("dir", root)] if s["dirs"] == "abs" else [("dir", top[s["pick"] % len(top)])]
    categories = ["--debug=" + ",".join(o["debug"])] if o["eq"] else ["--debug", ",".join(o["debug"])]
    variants = [("optimized", True, [], None), ("debug mode", False, [], None), ("debug messages", False, categories, None)]
    if o["profile"] and s["mode"] in ("list", "count"):
        variants.append(("profile", False, ["--profile"], None))
    if o["bin"] == 0:
        variants.append(("bin/ff", True, [], os.path.join(REPO, "bin/ff")))
    base = None
    for k, (what, opt, more, script) in enumerate(variants):
        rec = Recorder(ctx, f"rec{k}")
        argv = c22.Speller(s, o["style"], dirs).argv(rec.path)
        if o["cache"]:
            argv = [f"--cache={ctx.case}/c{k}.db" if a == "--no-cache" else a for a in argv]
        text, tag = (CACHING, "c31") if o["cache"] else (c11.PLUGIN, "c11")
        # (In debug mode the plugins of the repository are loaded by themselves.)
        env = {**gen.plugin_env(ctx, opt, text, tag), **rec.env}
        res = ctx.run(more + argv, root, opt=opt, env=env, **({"script": script, "cold": True} if script else {}))
        d = dict(what=what, argv=more + argv)
        if res.timed_out or res.traceback or res.leftover:
            fail("ff did not end properly", res, **d)
        calls = sorted(map(sorted, rec.calls())) if s["mode"] == "batch" else sorted(rec.calls())
        if base is None:
            base = (argv, res, calls)
            continue
        d["optimized"] = base[1].brief()
        if res.rc != base[1].rc:
            fail("the exit code depends on the mode", res, **d)
        if what == "profile":
            # Except for the brackets of an empty list and the count the output is suppressed.
            if s["mode"] == "list" and res.out.strip() not in (b"", b"[]"):
                fail("output of --profile", res, **d)
            if s["mode"] == "list":
                continue
        if s["mode"] == "list" and s["sort"] is not None:
            if what != "profile" and res.out != base[1].out:
                fail("the output depends on the mode", res, **d)
        else:
            x, y = c22.bag(s, res.out), c22.bag(s, base[1].out)
            if (x is None) != (y is None) or x is not None and collections.Counter(x) != collections.Counter(y):
                fail("the output depends on the mode", res, **d)
        if calls != base[2]:
            fail("commands are called in another way", res, calls=calls[:10], expected=base[2][:10], **d)
        if what == "profile":
            continue
        lines = os.fsdecode(res.err).splitlines()
        debug = [ln for ln in lines if ln.startswith("DEBUG:")]
        rest = [ln for ln in lines if not ln.startswith("DEBUG:")]
        if collections.Counter(rest) != collections.Counter(os.fsdecode(base[1].err).splitlines()):
            fail("the messages depend on the mode", res, **d)
        shown = {ln.split(":")[1] for ln in debug}
        allowed = set(CATEGORIES) if "all" in o["debug"] else set(o["debug"])
        if what == "debug messages":
            if not shown <= allowed:
                fail("debug messages of another category", res, categories=sorted(shown), **d)
            if base[1].rc in (0, 1) and not allowed & {"none"} and not shown >= allowed & {"info", "mp"}:
                fail("there are no debug messages", res, categories=sorted(shown), **d)
        elif shown:
            fail("debug messages without --debug", res, **d)
    ctx.nontrivial = bool(base[1].out or base[2])
    ctx.mark(s["mode"], *[v[0] for v in variants[2:]], f"rc={base[1].rc}")


CHECK = Check(
    "C31", [Part("modes", run, strategy, quick=350)],
    rule="Command lines as in C22 run in optimized mode, in debug mode, with --debug and random categories, with --profile and through bin/ff: exit code, output, executed commands and messages (apart from the debug messages) must be the same; "
         "non-trivial: there is output or a command.",
    assumptions=["Types of plugin values are verified in debug mode only; the plugins used here keep to their types."])
