"""C29: --halt."""
import os
import re
import signal

from hypothesis import strategies as st

from ..core import Check, Part
from ..lib import SCHED, fail

# Writes down when it starts and ends: "<time> <what> <name>".
SCRIPT = r'''#!/bin/bash
name="${1##*/}"
trap 'kill $! 2>/dev/null; echo "$EPOCHREALTIME term $name" >> "$VF_LOG"; exit 143' TERM
echo "$EPOCHREALTIME start $name" >> "$VF_LOG"
case "$name" in
    *bad*)  t=$VF_BAD; code=$VF_CODE ;;
    *long*) t=$VF_LONG; code=0 ;;
    *)      t=$VF_GOOD; code=0 ;;
esac
if [ "$t" != 0 ]; then sleep $t & wait $!; fi
echo "$EPOCHREALTIME end $name" >> "$VF_LOG"
[ $code = kill ] && kill -9 $$
exit $code
'''
SLACK = 2.5


def strategy(tier):
    return st.fixed_dictionaries({
        "n": st.sampled_from([1, 5, 40, 120, 120, 120]),
        "bad": st.one_of(st.lists(st.integers(0, 119), min_size=0, max_size=3), st.lists(st.one_of(st.integers(0, 9), st.integers(110, 119)), min_size=1, max_size=3)),
        # Long commands, the first in the order of names, so they run already when others fail.
        "long": st.integers(0, 3), "spread": st.integers(1, 4),
        "halt": st.sampled_from(["soon", "soon", "now", "now", "never"]), "spelling": st.sampled_from(["--halt", "--halt-on-error"]), "jobs": st.integers(1, 6), "sort": st.sampled_from([True, True, False]), "reverse": st.booleans(),
        "code": st.sampled_from(["1", "2", "77", "255", "kill", "nostart", "nostart"]), "times": st.sampled_from([["0", "0.02"], ["0.1", "0.05"], ["0.02", "0.07"], ["0.3", "0.07"]]),
        "sched": SCHED, "opt": st.booleans()})


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    names = []
    n = spec["n"]
    bad = {b % n for b in spec["bad"]}
    for i in range(n):
        d = os.path.join(root, "d%d" % (i % spec["spread"]))
        os.makedirs(d, exist_ok=True)
        kind = "bad" if i in bad else "long" if i < spec["long"] else "good"
        names.append(f"{i:03}{kind}")
        open(os.path.join(d, names[-1]), "w").close()
    cmd = os.path.join(ctx.case, "cmd")
    with open(cmd, "w") as f:
        f.write(SCRIPT)
    os.chmod(cmd, 0o755)
    log = os.path.join(ctx.case, "log")
    open(log, "w").close()
    halt = spec["halt"]
    # Long commands would take much longer than what is left of the search; they are terminated with "now".
    long_time = {"now": 40, "soon": 1.5, "never": 0.5}[halt] if bad else 0.3
    env = {"VF_LOG": log, "VF_BAD": spec["times"][0], "VF_GOOD": spec["times"][1], "VF_LONG": str(long_time), "VF_CODE": spec["code"]}
    argv = ["--no-cache", f"-j{spec['jobs']}", spec["spelling"] + "=" + halt] + (["-S", "name"] if spec["sort"] else []) + (["-R"] if spec["reverse"] else []) + ["type=f", "-x", cmd]
    nostart = spec["code"] == "nostart"
    if nostart:
        # The program is there for some of the entries only.
        os.mkdir(os.path.join(ctx.case, "bin"))
        for name in names:
            if "bad" not in name:
                os.symlink(cmd, os.path.join(ctx.case, "bin", name))
        argv[-1:] = [os.path.join(ctx.case, "bin", "{name}"), "{path}"]
    # With as many long commands as there are processes nothing can fail before they have ended.
    if halt == "now" and spec["long"] >= spec["jobs"]:
        env["VF_LONG"] = "0.5"
    res = ctx.run(argv, root, opt=spec["opt"], env=env, sched=spec["sched"])
    what = dict(argv=argv, times=env)
    if res.timed_out or res.leftover:
        fail("ff did not terminate" if res.timed_out else "processes are left behind", res, **what)
    with open(log) as f:
        events = [line.split() for line in f.read().splitlines()]
    events = [(float(t), k, nm) for t, k, nm in events]
    started = [nm for _, k, nm in events if k == "start"]
    if len(set(started)) != len(started) or not set(started) <= set(names):
        fail("a command was started twice", res, started=started[:20], **what)
    failures = [t for t, k, nm in events if k == "end" and "bad" in nm]
    if nostart and bad:
        failures = [float("inf")]
    want = 3 if failures else 0
    if res.rc != want:
        fail(f"exit code {res.rc} instead of {want}", res, **what)
    if res.traceback:
        fail("traceback", res, **what)
    if bool(res.err) != bool(failures):
        fail("no message" if failures else "unexpected message", res, **what)
    ended = {nm: t for t, k, nm in events if k == "end"}
    termed = {nm: t for t, k, nm in events if k == "term"}
    ctx.mark("halt:" + halt, "sorted" if spec["sort"] else "immediate")
    if halt == "never" or not failures:
        able = {nm for nm in names if not (nostart and "bad" in nm)}
        if set(started) != able or set(ended) != able:
            fail(f"{len(able - set(ended))} commands were not run", res, missing=sorted(able - set(ended))[:10], **what)
        if failures:
            # The message contains exact numbers.
            m = re.search(rb"success: (\d+), failure: (\d+)", res.err)
            if not m or [int(x) for x in m.groups()] != [n - len(bad), len(bad)]:
                fail("the numbers in the message are wrong", res, bad=len(bad), n=n, **what)
            ctx.nontrivial = True
        return
    first = min(failures)
    late = [(round(t - first, 2), nm) for t, k, nm in events if k == "start" and t > first + SLACK]
    if late:
        fail("commands are started long after a failure", res, late=late[:10], **what)
    if halt == "soon":
        # Commands that are running are not disturbed.
        if termed or set(started) != set(ended):
            fail("a running command was stopped", res, started=started[-10:], terminated=sorted(termed), **what)
    elif nostart:
        if env["VF_LONG"] == "40" and any("long" in nm for nm in ended):
            fail("a running command was not terminated", res, **what)
    else:
        slow = [(round(t - first, 2), nm) for nm, t in {**ended, **termed}.items() if "long" in nm and t > first + SLACK + 2]
        if slow:
            fail("a running command was not terminated", res, slow=slow, **what)
    # What may at most have been started: everything until the failure, then as many as there are processes some times.
    ctx.nontrivial = len(started) < n or bool(termed) or spec["long"] > 0
    if len(started) < n:
        ctx.mark("stopped early")
    if termed:
        ctx.mark("command terminated")
    # A lot is left to do: it must not be done.
    order = sorted(n - 1 - b if spec["reverse"] else b for b in bad)
    if spec["sort"] and n == 120 and order[0] < 10 and len(started) == n - (len(bad) if nostart else 0):
        fail("all commands were run in spite of the failure of one of the first", res, **what)


CHECK = Check(
    "C29", [Part("halt", run, strategy, quick=90)],
    rule="Up to 120 entries for which a program is run that writes down when it starts and ends, some of them fail (exit codes or a signal), some take long; immediate and sorted mode.  "
         "Non-trivial: --halt had something to stop or to wait for, or --halt=never went on after failures.",
    assumptions=[f"A failure is noticed within {SLACK} seconds.", "Running commands that take longer than 10 seconds are not used with --halt=soon."])
