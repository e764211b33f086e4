"""Run ff and return what it did."""
import json
import os
import select
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time

REPO = os.environ.get("VF_REPO", "/repo")
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = shutil.which("python3")
HERE = os.path.dirname(os.path.abspath(__file__))


class HarnessError(Exception):
    """The harness could not do its work; says nothing about ff."""


class Result:
    __slots__ = ("rc", "out", "err", "timed_out", "wall", "leftover")

    def __init__(self, rc, out, err, timed_out, wall, leftover=False):
        self.rc, self.out, self.err, self.timed_out, self.wall = rc, out, err, timed_out, wall
        self.leftover = leftover

    @property
    def traceback(self):
        return b"Traceback (most recent call last)" in self.err

    def brief(self):
        return {"rc": self.rc, "timed_out": self.timed_out,
                "stdout": self.out[-1500:].decode("utf-8", "backslashreplace"),
                "stderr": self.err[-1500:].decode("utf-8", "backslashreplace")}


def base_env(home):
    return {"HOME": home, "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8",
            "TZ": "UTC", "PYTHONPATH": REPO, "PYTHONNOUSERSITE": "1",
            "PYTHONHASHSEED": "0", "PYTHONPYCACHEPREFIX": os.path.join(os.path.dirname(home), "pyc"),
            "PYTHONSAFEPATH": "1",
            "COLUMNS": "100", "GIT_CONFIG_NOSYSTEM": "1", "GIT_CONFIG_GLOBAL": "/dev/null"}


class Zygote:
    def __init__(self, scratch, optimize, hashseed, home):
        self.scratch = scratch
        ours, theirs = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        env = base_env(home)
        env["PYTHONHASHSEED"] = str(hashseed)
        self.errfile = tempfile.TemporaryFile()
        self.proc = subprocess.Popen(
            [PY] + (["-O"] if optimize else []) + [os.path.join(HERE, "zygote.py"),
                                                  str(theirs.fileno()), REPO],
            pass_fds=[theirs.fileno()], env=env, cwd="/", stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL, stderr=self.errfile, start_new_session=True)
        theirs.close()
        self.sock = ours
        self.n = 0

    def request(self, req, fds):
        self.n += 1
        path = os.path.join(self.scratch, f"req-{id(self)}")
        with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
            json.dump(req, f)
        self.sock.settimeout(60)
        try:
            socket.send_fds(self.sock, [path.encode()], fds)
            if self.sock.recv(16) != b"ok":
                raise OSError("zygote is gone")
        except OSError as exc:
            self.errfile.seek(0)
            raise HarnessError(f"fork server: {exc}: {self.errfile.read()[-800:]!r}") from exc

    def close(self):
        self.sock.close()
        try:
            self.proc.wait(5)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()


def killpg(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def group_alive(pgid):
    """True if any process that is not a zombie is left in the group."""
    try:
        os.killpg(pgid, 0)
    except ProcessLookupError:
        return False
    except PermissionError:
        pass
    for name in os.listdir("/proc"):
        if name.isdigit():
            try:
                with open(f"/proc/{name}/stat", "rb") as f:
                    rest = f.read().rsplit(b")", 1)[1].split()
            except OSError:
                continue
            if int(rest[2]) == pgid and rest[0] != b"Z":
                return True
    return False


class Job:
    """A running ff."""

    def __init__(self, runner, req, optimize, stdin=b"", cold=False, pipe_size=None, slow_read=None, pty=False):
        self.t0 = time.time()
        self.slow_read = slow_read
        in_r, in_w = os.pipe() if stdin else (os.open(os.devnull, os.O_RDONLY), None)
        if pty:
            import tty
            out_r, out_w = os.openpty()
            tty.setraw(out_w)
        else:
            out_r, out_w = os.pipe()
        err_r, err_w = os.pipe()
        st_r, st_w = os.pipe()
        if pipe_size:
            import fcntl
            fcntl.fcntl(out_w, 1031, pipe_size)
        self.pid = None
        self.status = None
        self.popen = None
        try:
            if cold:
                env = dict(req["env"])
                argv = [PY] + (["-O"] if optimize else []) + ["-m", "ff"] + req["argv"][1:]
                uid = req.get("uid")
                rl = req.get("rlimits", {})

                def pre():
                    import resource
                    for name, val in rl.items():
                        resource.setrlimit(getattr(resource, name), tuple(val))
                self.popen = subprocess.Popen(
                    [os.fsencode(a) for a in argv], env=env, cwd=req["cwd"], stdin=in_r, stdout=out_w,
                    stderr=err_w, start_new_session=True, preexec_fn=pre if rl else None,
                    umask=req.get("umask", 0o022),
                    **({"user": uid, "group": uid, "extra_groups": []} if uid else {}))
                self.pid = self.popen.pid
            else:
                runner.zygote(optimize).request(req, [in_r, out_w, err_w, st_w])
        finally:
            for fd in (in_r, out_w, err_w, st_w):
                os.close(fd)
        if in_w is not None:
            os.write(in_w, stdin)
            os.close(in_w)
        self.bufs = {out_r: bytearray(), err_r: bytearray(), st_r: bytearray()}
        self.out_r, self.err_r, self.st_r = out_r, err_r, st_r
        self.open = set(self.bufs)
        if cold:
            os.close(st_r)
            self.open.discard(st_r)

    def _parse_status(self):
        for line in bytes(self.bufs[self.st_r]).split(b"\n")[:-1]:
            key, val = line.split()
            if key == b"pid":
                self.pid = int(val)
            elif key == b"exit":
                self.status = os.waitstatus_to_exitcode(int(val))

    def pump(self, timeout):
        """Read what is there; returns False when there was nothing within timeout."""
        if not self.open:
            time.sleep(min(timeout, 0.005))
            return False
        r, _, _ = select.select(list(self.open), [], [], timeout)
        for fd in r:
            n = 65536
            if fd == self.out_r and self.slow_read:
                n, delay = self.slow_read
                time.sleep(delay)
            try:
                data = os.read(fd, n)
            except OSError as exc:
                if exc.errno != 5:
                    raise
                data = b""      # a terminal without a process that has it open
            if not data:
                os.close(fd)
                self.open.discard(fd)
            else:
                self.bufs[fd] += data
                if fd == self.st_r:
                    self._parse_status()
        return bool(r)

    def done(self):
        if self.popen is not None:
            if self.status is None:
                self.status = self.popen.poll()
        return self.status is not None

    def wait_pid(self, timeout=30):
        end = time.time() + timeout
        while self.pid is None and time.time() < end:
            self.pump(0.1)
        if self.pid is None:
            raise HarnessError("fork server did not start the child")
        return self.pid

    def finish(self, timeout=90):
        end = self.t0 + timeout
        timed_out = False
        leftover = False
        while True:
            if self.done() and not (self.open - {self.st_r}):
                break
            if time.time() > end:
                timed_out = True
                break
            if self.done():
                # The main process has ended; somebody still holds the pipes.
                if not self.pump(5):
                    leftover = True
                    break
            else:
                self.pump(0.02 if self.popen is not None else 0.5)
        wall = time.time() - self.t0
        if self.pid is not None:
            if timed_out or leftover or group_alive_quick(self.pid):
                if not timed_out:
                    # Give processes that are about to end a moment.
                    for _ in range(40):
                        if not group_alive(self.pid):
                            break
                        time.sleep(0.05)
                    else:
                        leftover = True
                killpg(self.pid)
        t1 = time.time()
        while self.open and time.time() < t1 + 5:
            if not self.pump(1):
                break
        for fd in self.open:
            os.close(fd)
        self.open = set()
        if self.popen is not None:
            try:
                self.popen.wait(5)
            except subprocess.TimeoutExpired:
                pass
        if self.status is None and not timed_out:
            raise HarnessError("child ended without status")
        return Result(self.status, bytes(self.bufs[self.out_r]), bytes(self.bufs[self.err_r]),
                      timed_out, wall, leftover)


def group_alive_quick(pgid):
    try:
        os.killpg(pgid, 0)
        return True
    except ProcessLookupError:
        return False
    except PermissionError:
        return True


class Runner:
    """One per worker process: a scratch directory, a home directory and two fork servers."""

    def __init__(self, scratch, hashseed=0):
        self.scratch = scratch
        self.hashseed = hashseed
        self.home = os.path.join(scratch, "home")
        os.makedirs(os.path.join(self.home, ".cache"), exist_ok=True)
        self.zygotes = {}
        self.runs = 0

    def zygote(self, optimize):
        if optimize not in self.zygotes:
            self.zygotes[optimize] = Zygote(self.scratch, optimize, self.hashseed, self.home)
        return self.zygotes[optimize]

    def start(self, args, cwd, opt=False, env=None, stdin=b"", uid=None, sched=None, cold=False,
              rlimits=None, pipe_size=None, slow_read=None, script=None, umask=0o022, pre=None, plugins=True, strict=False, pty=False):
        e = base_env(self.home)
        if opt and plugins:
            # With -O ff does not look for the contributed plugins in its source tree.
            e["FF_PLUGIN_DIRS"] = os.path.join(REPO, "plugins")
        for k, v in (env or {}).items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
        req = {"argv": ["ff"] + list(args), "cwd": cwd, "env": e, "umask": umask}
        if uid:
            req["uid"] = uid
        if sched:
            req["sched"] = sched
        if rlimits:
            req["rlimits"] = rlimits
        if script:
            req["script"] = script
        if pre:
            req["pre"] = pre
        if strict:
            req["strict"] = True
            e["PYTHONIOENCODING"] = "utf-8:strict"
        self.runs += 1
        return Job(self, req, opt, stdin=stdin, cold=cold, pipe_size=pipe_size, slow_read=slow_read, pty=pty)

    def run(self, args, cwd, timeout=120, **kw):
        return self.start(args, cwd, **kw).finish(timeout)

    def close(self):
        for z in self.zygotes.values():
            z.close()
        self.zygotes = {}
