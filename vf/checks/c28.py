"""C28: ff is interrupted or killed."""
import collections
import os
import re
import signal
import time

from hypothesis import strategies as st

from .. import gen, tree
from ..core import Check, Part, Skip
from ..lib import JOBS, SCHED, fail
from ..runner import group_alive, killpg
from .c27 import close_reader, records

PLUGIN = '''
import time
from libff.plugin import *
class Vfnap(Plugin):
    """Takes its time."""
    speed = Speed.SLOW
    attributes = [("nap", Number, "x")]
    def can_handle(self, entry):
        return True
    def process(self, entry, cached):
        time.sleep(%s)
        yield "nap", len(entry.name)
'''
# Arguments, the format of the output.
MODES = {
    "text": ([], "text"), "slowtest": (["vfnap.nap+=0"], "text"), "slowjsonl": (["--jsonl", "-o", "path,nap"], "text"), "sort": (["-S", "path"], "sorted"),
    "sortslow": (["-S", "nap,path"], "sorted"), "json": (["--json", "-o", "path,nap"], "json"), "count": (["--count=type,nap"], "sorted"), "limit": (["nap+=0", "-S", "path", "-l", ":20"], "sorted"),
    "exec": (["-x", "./../cmd"], "none"), "sortexec": (["-S", "path", "-x", "./../cmd"], "none"), "batch": (["-X", "./../cmd"], "none"), "color": (["--color=always", "nap+=0"], "text"),
    "api": ([], "text"), "apisort": ([], "sorted")}
SIGNALS = {"term": signal.SIGTERM, "hup": signal.SIGHUP, "kill": signal.SIGKILL, "int": signal.SIGINT, "ctrlc": signal.SIGINT}
API = '''
import os, sys
from ff import Find
for r in Find("vfnap.nap+=0", jobs=%d, cache=%r, **%r):
    sys.stdout.write(r["path"] + "\\n")
    sys.stdout.flush()
'''


def strategy(tier):
    return st.fixed_dictionaries({
        "tree": tree.nodes(max_size=5), "bulk": st.tuples(st.integers(2, 15), st.sampled_from([5, 10, 18])),
        "mode": st.sampled_from(sorted(MODES)), "jobs": JOBS, "sched": SCHED, "opt": st.booleans(), "cache": st.booleans(), "again": st.booleans(),
        "signal": st.sampled_from(["term", "hup", "kill", "kill", "int", "ctrlc", "ctrlc"]),
        "nap": st.sampled_from([0.001, 0.005, 0.02]),
        # When: so many thousandths of a second after the start, or after the first output.
        "wait": st.one_of(st.integers(0, 40), st.integers(0, 300), st.integers(0, 1000)), "output": st.sampled_from([True, True, False]),
        # What happens to the output.
        "reader": st.sampled_from(["reads", "reads", "reads", "waits", "closes"])})


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    tree.build(root, spec["tree"], bulk=spec["bulk"])
    cmd = os.path.join(ctx.case, "cmd")
    log = os.path.join(ctx.case, "log")
    with open(cmd, "w") as f:
        f.write("#!/bin/sh\necho $# >> '%s'\nexec sleep %s\n" % (log, spec["nap"] * 3 if spec["mode"] != "batch" else 0.4))
    os.chmod(cmd, 0o755)
    args, fmt = MODES[spec["mode"]]
    env = gen.plugin_env(ctx, spec["opt"], PLUGIN % spec["nap"], "c28")
    env["LS_COLORS"] = "di=01;34:ln=01;36:*.txt=32"
    cache = os.path.join(ctx.case, "c.db") if spec["cache"] else None
    argv = [f"-j{spec['jobs']}"] + (["--cache=" + cache] if cache else ["--no-cache"]) + args
    kw = {"env": env, "opt": spec["opt"]}
    script = None
    if spec["mode"].startswith("api"):
        script = API % (spec["jobs"], cache, {"sort": ["path"]} if spec["mode"] == "apisort" else {})
    job = ctx.runner.start([] if script else argv, root, sched=spec["sched"], pipe_size=4096, script=script, **kw)
    pid = job.wait_pid()
    t0 = time.time()
    reads = spec["reader"] == "reads"
    if reads and spec["output"]:
        while time.time() < t0 + 20 and not job.bufs[job.out_r] and not os.path.exists(log) and job.out_r in job.open and not job.done():
            job.pump(0.02)
        t0 = time.time()
    end = t0 + spec["wait"] / 1000
    if spec["reader"] == "closes":
        close_reader(job)
    while time.time() < end:
        if reads:
            job.pump(max(0, min(0.02, end - time.time())))
            if job.done():
                break
        else:
            time.sleep(max(0, end - time.time()))
    alive = not job.done()
    try:
        if spec["signal"] == "ctrlc":
            os.killpg(pid, signal.SIGINT)
        else:
            # (The process remains a zombie until the fork server has seen its end, so this is the right one.)
            os.kill(pid, SIGNALS[spec["signal"]])
    except ProcessLookupError:
        alive = False
    t1 = time.time()
    if spec["reader"] == "waits":
        time.sleep(0.3)
    res = job.finish(60)
    took = time.time() - t1
    what = dict(argv=argv, signal=spec["signal"], reader=spec["reader"])
    if res.timed_out:
        fail("ff did not terminate", res, **what)
    if res.leftover:
        fail("processes are left behind", res, **what)
    if took > 15:
        fail(f"it took {took:.1f} s to terminate", res, **what)
    name = SIGNALS[spec["signal"]]
    if res.rc not in (0, -name) and not (name == signal.SIGINT and res.rc in (1, 130)) and \
            not (res.rc in (3, 4) and name == signal.SIGINT) and \
            not (script and res.rc == 1 and spec["reader"] == "closes"):      # BrokenPipeError of the script itself.
        fail(f"exit code {res.rc}", res, **what)
    # Commands are not started any more.
    if fmt == "none":
        before = os.path.exists(log) and os.path.getsize(log)
        time.sleep(0.3)
        after = os.path.exists(log) and os.path.getsize(log)
        if before != after:
            fail("commands are still started", res, **what)
    killed = res.rc != 0
    if spec["again"] or res.out:
        # The same search once more: the cache is not damaged, what was printed before are records of this output.
        if spec["mode"] not in ("exec", "sortexec", "batch"):
            full = ctx.run([] if script else argv, root, script=script, **kw)
            if full.timed_out or full.rc != 0 or full.err:
                fail("the next search fails", full, **what)
            plain = ctx.run([a for a in argv if not a.startswith("--cache")] + ["--no-cache"], root, **kw) if cache and not script else full
            if cache and not script and spec["mode"] != "text" and sorted(plain.out) != sorted(full.out):
                fail("the next search with the cache differs from one without", full, **what)
            check_output(res, full.out, fmt, killed, what)
    ctx.nontrivial = alive and killed
    ctx.mark("signal:" + spec["signal"], "mode:" + spec["mode"], "reader:" + spec["reader"])
    if ctx.nontrivial:
        ctx.mark("stopped in the middle" if res.out else "stopped before the first output")


def check_output(res, whole, fmt, killed, what):
    got = res.out
    if fmt == "none":
        return
    if fmt == "sorted":
        if not whole.startswith(got):
            fail("what was printed is not the start of the output", res, **what)
        return
    have, rest = records(got, fmt)
    all_, _ = records(whole, fmt)
    left = collections.Counter(all_)
    left.subtract(collections.Counter(have))
    wrong = [k for k, v in left.items() if v < 0]
    if wrong:
        fail("records that are not part of the output", res, wrong=wrong[:5], **what)
    if rest:
        if fmt == "json":
            rest = rest.lstrip(",")
            ok = rest in ("[", "]\n", "]", "") or any(k.startswith(rest) for k, v in left.items() if v > 0)
        else:
            ok = any(k.startswith(rest) for k, v in left.items() if v > 0)
        if not ok:
            fail("the last record is broken", res, rest=rest[:300], **what)


CHECK = Check(
    "C28", [Part("signals", run, strategy, quick=260, confirm=6)],
    rule="A search in one of several modes (direct, sorted, slow plugins, commands, Python API) gets a signal (INT to ff or its process group, TERM, HUP or KILL to the main process) at "
         "a generated moment, while its output is read, not read or closed.  Non-trivial: ff was still running and ended because of the signal.",
    assumptions=["A worker finishes the directory, plugin call or command it works on, which takes less than a second here; 'soon' is 15 seconds.",
                 "Messages on standard error are not judged, e.g. the traceback of KeyboardInterrupt in debug mode."])
