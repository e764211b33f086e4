"""Runs in the interpreter of ff: makes searches with the Python API as told, writes down what happened."""
import copy
import gc
import json
import multiprocessing
import os
import pickle
import sys
import threading
import time

from ff import Find

with open(os.environ["VF_API"], encoding="utf-8", errors="surrogateescape") as f:
    SPEC = json.load(f)


def describe(exc):
    d = {"type": type(exc).__name__, "message": str(exc)[:300]}
    code = getattr(exc, "exitcode", None)
    if isinstance(code, int):
        d["exitcode"] = code
    return d


def check_record(r, problems):
    """Records are dictionaries whose keys are accessible as attributes."""
    if not isinstance(r, dict):
        problems.append(f"a record is a {type(r).__name__}")
        return
    for k, v in r.items():
        try:
            w = getattr(r, k.replace(".", "_"))
        except Exception as exc:
            problems.append(f"getattr {k!r}: {describe(exc)}")
        else:
            if k.replace(".", "_") not in dir(dict) and w != v:
                problems.append(f"getattr {k!r}: {w!r} instead of {v!r}")
    try:
        if hasattr(r, "nosuchthing") or getattr(r, "nosuch_thing", 5) != 5:
            problems.append("hasattr")
        for c in (copy.copy(r), copy.deepcopy(r), pickle.loads(pickle.dumps(r)), dict(r)):
            if dict(c) != dict(r):
                problems.append("a copy differs")
            for k, v in r.items():
                if type(c) is not dict and getattr(c, k.replace(".", "_")) != v:
                    problems.append("an attribute of a copy differs")
    except Exception as exc:
        problems.append(f"record: {describe(exc)}")


class Search:
    def __init__(self, spec):
        self.kw = spec["kw"]
        if "ignore_files" in self.kw:
            self.kw["ignore_files"] = set(self.kw["ignore_files"])
        self.result = {"records": None, "error": None, "problems": []}
        self.before = copy.deepcopy(self.kw)
        self.find = None

    def make(self):
        if self.find is None:
            self.find = Find(**self.kw)
        return self.find

    def all(self):
        out = []
        try:
            for r in self.make():
                out.append(r)
        except Exception as exc:
            self.result["error"] = describe(exc)
        self.done(out)
        return out

    def done(self, out):
        self.result["records"] = out
        for r in out[:50]:
            check_record(r, self.result["problems"])
        if self.kw != self.before:
            self.result["problems"].append(f"arguments changed: {self.before!r} {self.kw!r}")


def children():
    for _ in range(500):
        left = multiprocessing.active_children()
        if not left:
            return 0
        time.sleep(0.02)
    return len(left)


def op_list(searches, op):
    for s in searches:
        s.all()


def op_again(searches, op):
    for s in searches:
        first = s.all()
        if s.result["error"] is None:
            second = list(s.find)
            third = list(s.find) if op["n"] % 2 else second
            s.result["again"] = [second, third]


def op_make_first(searches, op):
    """All are set up before the first one is processed."""
    for s in searches:
        try:
            s.make()
        except Exception:
            pass
    for s in reversed(searches):
        s.all()


def op_thread(searches, op):
    """Set up here, processed in another thread (one after the other)."""
    for s in searches:
        if op["n"] % 2:
            try:
                s.make()
            except Exception:
                pass
        t = threading.Thread(target=s.all)
        t.start()
        t.join()


def op_interleave(searches, op):
    its = []
    for s in searches:
        try:
            its.append((s, iter(s.make()), []))
        except Exception as exc:
            s.result["error"] = describe(exc)
            s.done([])
    while its:
        for t in list(its):
            s, it, out = t
            try:
                for _ in range(1 + op["n"] % 3):
                    out.append(next(it))
            except StopIteration:
                s.done(out)
                its.remove(t)
            except Exception as exc:
                s.result["error"] = describe(exc)
                s.done(out)
                its.remove(t)


def op_nested(searches, op):
    """All other searches are made from within the loop over the first one."""
    first, rest = searches[0], searches[1:]
    out = []
    try:
        for r in first.make():
            out.append(r)
            if len(out) == 1 + op["n"] % 4:
                for s in rest:
                    s.all()
                rest = []
    except Exception as exc:
        first.result["error"] = describe(exc)
    first.done(out)
    for s in rest:
        s.all()


def op_abandon(searches, op):
    for s in searches:
        out = []
        try:
            it = iter(s.make())
            for r in it:
                out.append(r)
                if len(out) > op["n"]:
                    s.result["partial"] = True
                    break
            if op["n"] % 2:
                it.close()
            it = None
            gc.collect()
        except Exception as exc:
            s.result["error"] = describe(exc)
        s.done(out)
        s.result["children"] = children()


def op_throw(searches, op):
    """The caller is interrupted in the loop."""
    for s in searches:
        out = []
        try:
            it = iter(s.make())
            for r in it:
                out.append(r)
                if len(out) > op["n"]:
                    s.result["partial"] = True
                    it.throw(KeyboardInterrupt())
        except KeyboardInterrupt:
            pass
        except Exception as exc:
            s.result["error"] = describe(exc)
        s.done(out)
        s.result["children"] = children()


def fds():
    gc.collect()
    return len(os.listdir("/proc/self/fd"))


results = []
list(Find(directories=[SPEC["warmup"]], cache=None, jobs=1))
baseline = fds()
for op in SPEC["ops"]:
    searches = [Search(s) for s in op["searches"]]
    t0 = time.time()
    globals()["op_" + op["op"]](searches, op)
    results.append({"searches": [s.result for s in searches], "children": children(), "wall": time.time() - t0})
    del searches
after = fds()
for _ in range(100):
    if after <= baseline:
        break
    time.sleep(0.02)
    after = fds()
with open(os.environ["VF_API"] + ".out", "w", encoding="utf-8") as f:
    json.dump({"results": results, "fds": [baseline, after]}, f, default=sorted)
