"""Helpers shared by the checks."""
import collections
import json
import os

from hypothesis import strategies as st

from .core import Violation
from .tree import split0

JOBS = st.sampled_from([1, 2, 2, 3, 4, 8])
SCHED = st.one_of(
    st.none(), st.none(), st.none(),
    st.fixed_dictionaries({"seed": st.integers(0, 10 ** 6), "prob": st.sampled_from([0.05, 0.2, 0.5]),
                           "max": st.sampled_from([0.01, 0.03, 0.08]),
                           "limit": st.just(25)}))


def show(x):
    return x if isinstance(x, (int, float, type(None), bool, str)) else repr(x)


def fail(message, res=None, **details):
    if res is not None:
        details["result"] = res.brief()
    raise Violation(message, **details)


def expect_clean(res, argv=None, rc=0):
    """The run ended normally: expected exit code, no traceback, nothing left running."""
    if res.timed_out:
        fail("ff did not terminate", res, argv=argv)
    if res.rc != rc:
        fail(f"exit code {res.rc}, expected {rc}", res, argv=argv)
    if res.traceback:
        fail("traceback on standard error", res, argv=argv)


def diff_multiset(got, want):
    g, w = collections.Counter(got), collections.Counter(want)
    return sorted((w - g).elements()), sorted((g - w).elements())


def expect_same(got, want, res=None, what="results", argv=None, **details):
    missing, extra = diff_multiset(got, want)
    if missing or extra:
        fail(f"{what} differ: {len(missing)} missing, {len(extra)} unexpected", res, argv=argv,
             missing=missing[:12], unexpected=extra[:12], **details)


def paths0(ctx, args, cwd, **kw):
    """Run with -0, expect success, return the list of paths."""
    res = ctx.run(["-0"] + args, cwd, **kw)
    expect_clean(res, args)
    return split0(res.out), res


def jsonl(res):
    return [json.loads(line) for line in res.out.decode("utf-8").splitlines()]


class Recorder:
    """A program that stores the arguments it is called with.  If one of the arguments contains
    the string $VF_FAIL it ends with exit code $VF_CODE."""

    SCRIPT = """#!/bin/sh
f="$VF_REC/$$"
while [ -e "$f" ]; do f="${f}x"; done
printf '%s\\0' "$#" "$@" > "$f.tmp"
mv "$f.tmp" "$f"
echo "${f##*/}" >> "$VF_REC.order"
if [ -n "$VF_SLEEP" ]; then sleep "$VF_SLEEP"; fi
if [ -n "$VF_FAIL" ]; then
    for a in "$@"; do
        case "$a" in *"$VF_FAIL"*) [ "$VF_CODE" = kill ] && kill -9 $$; exit "$VF_CODE" ;; esac
    done
fi
exit 0
"""

    def __init__(self, ctx, name="rec"):
        self.dir = os.path.join(ctx.case, name)
        os.mkdir(self.dir)
        os.chmod(self.dir, 0o777)
        self.path = os.path.join(ctx.case, "recorder")
        with open(self.path, "w") as f:
            f.write(self.SCRIPT)
        os.chmod(self.path, 0o755)
        self.env = {"VF_REC": self.dir}

    def calls(self):
        """Argument lists in order of their start."""
        order = {}
        try:
            # (Time stamps of files are not precise enough.)
            with open(self.dir + ".order") as f:
                for i, name in enumerate(f.read().split()):
                    order[name] = i
        except FileNotFoundError:
            pass
        out = []
        for name in os.listdir(self.dir):
            if name.endswith(".tmp"):
                # The command was terminated before it was complete (--halt=now).
                continue
            with open(os.path.join(self.dir, name), "rb") as f:
                parts = f.read().split(b"\0")
            n = int(parts[0])
            args = [os.fsdecode(x) for x in parts[1:n + 1]]
            out.append((order.get(name, 1 << 30), args))
        return [a for _, a in sorted(out, key=lambda x: x[0])]
