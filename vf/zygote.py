"""Fork server for ff.

Runs under the interpreter that runs ff (not the one with Hypothesis).  It imports ff's modules
once; for every request it forks a child that takes over argv, cwd, environment and file
descriptors and then runs `python -m ff` exactly as the command line would (runpy on the package
`ff`), or a small driver for the Python API.  Nothing of ff has executed before the fork except
module top levels.

Protocol (SOCK_SEQPACKET): one JSON datagram + 4 fds (stdin, stdout, stderr, status).  The status
pipe receives "pid <n>\n" and, at the end, "exit <waitstatus>\n".
"""
import array
import json
import os
import signal
import socket
import sys

REPO = sys.argv[2]
sys.path.insert(0, REPO)


def preload():
    import importlib
    import glob
    for mod in ("runpy", "cProfile", "pstats", "json", "sqlite3", "pickle", "subprocess",
                "multiprocessing", "multiprocessing.queues", "multiprocessing.synchronize",
                "multiprocessing.sharedctypes", "multiprocessing.popen_fork", "datetime", "_strptime",
                "textwrap", "traceback", "ctypes", "tarfile", "hashlib", "ast", "shlex", "fractions", "decimal"):
        try:
            importlib.import_module(mod)
        except Exception:
            pass
    for path in sorted(glob.glob(os.path.join(REPO, "libff", "*.py"))):
        name = os.path.basename(path)[:-3]
        if name.startswith("__"):
            continue
        try:
            importlib.import_module("libff." + name)
        except Exception:
            pass


def install_schedule(spec):
    """Perturb the schedule: random delays at the points where processes and threads exchange
    data.  Every delay is something the operating system's scheduler may do on its own."""
    import random
    import time
    import multiprocessing.connection as mc

    state = {"pid": None, "rng": None}
    seed, prob, maxd = spec["seed"], spec["prob"], spec["max"]
    count = {"n": 0}

    def rng():
        pid = os.getpid()
        if state["pid"] != pid:
            import multiprocessing
            state["pid"] = pid
            state["rng"] = random.Random(f"{seed}-{multiprocessing.current_process().name}")
        return state["rng"]

    def maybe():
        r = rng()
        if count["n"] < spec.get("limit", 60) and r.random() < prob:
            count["n"] += 1
            time.sleep(r.random() * maxd)

    def wrap(cls, name, after=False):
        orig = getattr(cls, name)

        def wrapper(*args, **kwargs):
            if not after:
                maybe()
            try:
                return orig(*args, **kwargs)
            finally:
                if after:
                    maybe()
        wrapper.__name__ = name
        setattr(cls, name, wrapper)

    points = spec.get("points", ["send", "recv", "scandir"])
    if "send" in points:
        wrap(mc.Connection, "_send_bytes")
    if "recv" in points:
        wrap(mc.Connection, "_recv_bytes", after=True)
    if "scandir" in points:
        wrap(os, "scandir")


def child(req, fds):
    os.setsid()
    for i in range(3):
        os.dup2(fds[i], i)
    for fd in fds:
        if fd > 2:
            os.close(fd)
    import io
    # Standard output as the interpreter sets it up; most locales other than C.UTF-8 use "strict".
    sys.stdout = sys.__stdout__ = io.TextIOWrapper(
        open(1, "wb", closefd=False), encoding="utf-8", errors="strict" if req.get("strict") else "surrogateescape",
        newline="\n")
    sys.stdout.mode = "w"
    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)   # as the Python interpreter sets it
    signal.signal(signal.SIGINT, signal.default_int_handler)
    os.environ.clear()
    os.environ.update(req["env"])
    if "TZ" in req["env"]:
        import time
        time.tzset()
    for name, val in req.get("rlimits", {}).items():
        import resource
        resource.setrlimit(getattr(resource, name), tuple(val))
    os.umask(req.get("umask", 0o022))
    os.chdir(req["cwd"])
    if req.get("uid"):
        os.setgroups([])
        os.setgid(req["uid"])
        os.setuid(req["uid"])
    if req.get("sched"):
        install_schedule(req["sched"])
    if req.get("pre"):
        exec(compile(req["pre"], "<pre>", "exec"), {"__name__": "pre"})
    return req


def serve():
    sock = socket.socket(fileno=int(sys.argv[1]))
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        msg, anc, flags, _ = sock.recvmsg(1 << 22, socket.CMSG_SPACE(4 * 4))
        if not msg:
            os._exit(0)
        fds = array.array("i")
        for level, typ, data in anc:
            if level == socket.SOL_SOCKET and typ == socket.SCM_RIGHTS:
                fds.frombytes(data[:len(data) - len(data) % fds.itemsize])
        fds = list(fds)
        path = msg.decode()
        with open(path, encoding="utf-8", errors="surrogateescape") as f:
            req = json.load(f)
        pid = os.fork()
        if pid == 0:
            sock.close()
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            cpid = os.fork()
            if cpid == 0:
                os.close(fds[3])
                return child(req, fds[:3])
            for fd in fds[:3]:
                os.close(fd)
            os.write(fds[3], b"pid %d\n" % cpid)
            while True:
                try:
                    _, status = os.waitpid(cpid, 0)
                    break
                except InterruptedError:
                    continue
            os.write(fds[3], b"exit %d\n" % status)
            os._exit(0)
        for fd in fds:
            os.close(fd)
        sock.send(b"ok")


def finish(code):
    """What the interpreter does at exit, without taking the heap apart."""
    import atexit
    import threading
    try:
        threading._shutdown()
        atexit._run_exitfuncs()
    finally:
        # (Default values of parameters may still refer to the original object.)
        for f in (ORIG_STDOUT, sys.stdout, sys.stderr):
            try:
                f.flush()
            except Exception:
                if f is not sys.stderr and code == 0:
                    code = 120
        os._exit(code)


def top(req):
    import traceback
    sys.argv = list(req["argv"])
    try:
        if req.get("script"):
            exec(compile(req["script"], "<script>", "exec"), {"__name__": "__main__", "REQ": req})
        else:
            import runpy
            runpy.run_module("ff", run_name="__main__", alter_sys=True)
    except SystemExit as exc:
        code = exc.code
        if code is None:
            finish(0)
        elif isinstance(code, int):
            finish(code & 0xff)
        else:
            sys.stderr.write(str(code) + "\n")
            finish(1)
    except BaseException:
        traceback.print_exc()
        finish(1)
    finish(0)


ORIG_STDOUT = sys.stdout
preload()
import gc
gc.freeze()
top(serve())
