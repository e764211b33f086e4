"""C27: the reader of the output goes away."""
import collections
import json
import os
import time

from hypothesis import strategies as st

from .. import gen, model, tree
from ..core import Check, Part
from ..lib import JOBS, SCHED, fail

SLOWPLUGIN = '''
import time
from libff.plugin import *
class Vfsleep(Plugin):
    """Takes its time."""
    speed = Speed.SLOW
    attributes = [("slow", Number, "x")]
    def can_handle(self, entry):
        return True
    def process(self, entry, cached):
        time.sleep(0.02)
        yield "slow", 1
'''
# Arguments, whether the order of the records is determined.
MODES = {
    "text": [], "zero": ["-0"], "jsonl": ["--jsonl", "-o", "path,size"], "json": ["--json", "-o", "path,size"], "fields": ["-o", "path,type,depth", "--sep", "|"],
    "sort": ["-S", "path"], "sortjson": ["-S", "path", "--jsonl"], "limit": ["-S", "path", "--limit=:30"], "color": ["--color=always"], "slow": ["-o", "path,slen"], "colorslow": ["slen+=0"],
    "count": ["--count=type"], "countjson": ["--count=type,depth", "--json"], "or": ["type=f", "or", "type=d", "or", "type=l"], "sortslow": ["-S", "slen", "--jsonl", "-o", "path,srev"]}
ORDERED = ("sort", "sortjson", "limit", "count", "countjson")
HELP = [["--help"], ["--version"]]


def strategy(tier):
    return st.fixed_dictionaries({
        "tree": tree.nodes(max_size=6), "bulk": st.tuples(st.integers(1, 20), st.sampled_from([20, 60, 3, 0])),
        "mode": st.sampled_from(sorted(MODES)), "jobs": JOBS, "sched": SCHED, "opt": st.booleans(), "strict": st.booleans(),
        # Part of the output that is read before the pipe is closed, in thousandths.
        "read": st.one_of(st.integers(1, 1000), st.integers(1, 60), st.integers(0, 1000), st.just(1000)),
        "wait": st.sampled_from([0, 0, 0, 0.005, 0.03, 0.1, 0.3]),
        "pipe": st.sampled_from([4096, 4096, 65536]), "cache": st.booleans(),
        "again": st.booleans()})


def records(data, mode):
    """Complete records and the rest."""
    if mode == "json":
        text = data.decode("utf-8")
        out = []
        if not text.startswith("["):
            return out, text
        text = text[1:]
        decoder = json.JSONDecoder()
        while text:
            if out:
                if not text.startswith(","):
                    return out, text
                text = text[1:]
            try:
                obj, end = decoder.raw_decode(text)
            except ValueError:
                return out, text
            out.append(text[:end])
            text = text[end:]
        return out, text
    sep = b"\0" if mode == "zero" else b"\n"
    parts = data.split(sep)
    return parts[:-1], parts[-1]


def start(ctx, argv, cwd, spec, **kw):
    return ctx.runner.start(argv, cwd, opt=spec["opt"], sched=spec["sched"], pipe_size=spec["pipe"], **kw)


def close_reader(job):
    if job.out_r in job.open:
        os.close(job.out_r)
        job.open.discard(job.out_r)


def finish(job, argv, limit, stage):
    t0 = time.time()
    res = job.finish(90)
    if res.timed_out:
        fail("ff did not terminate", res, argv=argv, stage=stage)
    if getattr(res, "leftover", False):
        fail("processes are left behind", res, argv=argv, stage=stage)
    if res.rc != 0:
        fail(f"exit code {res.rc}", res, argv=argv, stage=stage)
    if res.err:
        fail("messages on standard error", res, argv=argv, stage=stage)
    if time.time() - t0 > limit:
        fail(f"it took {time.time() - t0:.1f} s to stop", res, argv=argv, stage=stage)
    return res


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    tree.build(root, spec["tree"], bulk=spec["bulk"])
    mode = spec["mode"]
    env = gen.plugin_env(ctx, spec["opt"], gen.PLUGIN, "c27")
    argv = [f"-j{spec['jobs']}"] + (["--cache=" + os.path.join(ctx.case, "c.db")] if spec["cache"] else ["--no-cache"]) + MODES[mode]
    env["LS_COLORS"] = "di=01;34:ln=01;36:*.txt=32"
    kw = {"env": env, "strict": spec["strict"]}
    full = ctx.run(argv, root, opt=spec["opt"], **kw)
    if full.timed_out or full.rc != 0 or full.err:
        fail("the search fails", full, argv=argv)
    whole = full.out
    want = min(len(whole), max(len(whole) * spec["read"] // 1000, bool(spec["read"])))
    job = start(ctx, argv, root, spec, **kw)
    if spec["wait"]:
        end = time.time() + spec["wait"]
        while time.time() < end and len(job.bufs[job.out_r]) < want and not job.done():
            job.pump(0.005)
    else:
        while len(job.bufs[job.out_r]) < want and job.out_r in job.open:
            if not job.pump(10) and job.done():
                break
            if time.time() > job.t0 + 60:
                break
    done_before = job.done()
    close_reader(job)
    res = finish(job, argv, 40, "output")
    got = res.out
    stage = f"{len(got)} of {len(whole)} bytes"
    if mode in ORDERED:
        if not whole.startswith(got):
            fail("what was read is not the start of the output", res, argv=argv, stage=stage)
    else:
        have, rest = records(got, mode)
        all_, tail = records(whole, mode)
        left = collections.Counter(all_)
        left.subtract(collections.Counter(have))
        wrong = [k for k, v in left.items() if v < 0]
        if wrong:
            # The last record of a text may look complete, e.g. names with line breaks.
            fail("records that are not part of the output", res, argv=argv, wrong=wrong[:5], stage=stage)
        if rest and mode == "json":
            comma = rest[1:] if rest.startswith(",") else rest
            if not (rest in ("[", "]\n", "]", ",") or any(k.startswith(comma) for k, v in left.items() if v > 0)):
                fail("the last record is broken", res, argv=argv, rest=rest[:300], stage=stage)
        elif rest and not any(k.startswith(rest) for k, v in left.items() if v > 0):
            fail("the last record is broken", res, argv=argv, rest=rest[:300], stage=stage)
    ctx.nontrivial = len(got) < len(whole)
    ctx.mark("mode:" + mode, "ended before" if done_before else "nothing read" if not got else "part read" if ctx.nontrivial else "all read")
    if spec["again"]:
        # The cache is not damaged.
        res = ctx.run(argv, root, opt=spec["opt"], **kw)
        if res.rc != 0 or res.err or sorted(records(res.out, mode)[0]) != sorted(records(whole, mode)[0]):
            fail("the next search differs", res, argv=argv, stage=stage)


def long_cases(tier, seed):
    for i in range(8 if tier == "quick" else 48):
        yield {"files": 4000, "deep": i % 3, "jobs": 1 + (i * 3 + seed) % 4, "mode": ["text", "jsonl", "json", "zero"][i % 4] if i % 4 != 2 else "text",
               "opt": bool(i % 3 == 1), "sched": None, "pipe": 4096, "read": i % 3}


def run_long(ctx, spec):
    """A search that would take a very long time ends soon after the reader is gone."""
    root = os.path.join(ctx.case, "t")
    # Results are written after each directory, which takes .4 seconds here.
    for i in range(spec["files"]):
        d = os.path.join(root, *["d%d" % (i % (spec["files"] // 20) // 7 ** k) for k in reversed(range(spec["deep"] + 1))])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, f"f{i}"), "w").close()
    env = gen.plugin_env(ctx, spec["opt"], SLOWPLUGIN, "c27s")
    argv = [f"-j{spec['jobs']}", "--no-cache", *MODES[spec["mode"]], "vfsleep.slow=1"]
    job = start(ctx, argv, root, spec, env=env)
    want = [0, 1, 5000][spec["read"]]
    end = time.time() + 40
    while len(job.bufs[job.out_r]) < want and time.time() < end and not job.done():
        job.pump(0.1)
    close_reader(job)
    # The whole search takes at least 4000 * 20 ms / 4 = 20 seconds.
    finish(job, argv, spec["files"] * .02 / spec["jobs"] / 2, "slow")
    ctx.nontrivial = True
    ctx.mark("long")


def help_cases(tier, seed):
    for i, h in enumerate(HELP):
        for j in range(3):
            yield {"args": h, "opt": bool((i + j) % 2), "read": j, "sched": None, "pipe": 4096}


def run_help(ctx, spec):
    os.mkdir(os.path.join(ctx.case, "t"))
    job = start(ctx, spec["args"], os.path.join(ctx.case, "t"), spec, cold=True)
    want = [0, 1, 700][spec["read"]]
    end = time.time() + 20
    while len(job.bufs[job.out_r]) < want and time.time() < end and not job.done():
        job.pump(0.1)
    close_reader(job)
    finish(job, spec["args"], 40, "help")
    ctx.nontrivial = True
    ctx.mark("help")


CHECK = Check(
    "C27",
    [Part("close", run, strategy, quick=350), Part("long", run_long, cases=long_cases, quick=60), Part("help", run_help, cases=help_cases, quick=30)],
    rule="Trees with up to 1200 entries, all output formats; the pipe is closed after a given part of the output or after some time.  Searches that "
         "would take very long have to end soon.  Non-trivial: the pipe was closed before everything was read.",
    assumptions=["Commands started by --exec write to the closed pipe themselves; their exit codes are not judged here.",
                 "'Soon' is 40 seconds for short searches and half of the time the whole search takes for long ones."])
