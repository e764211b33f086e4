"""Reference model: what the attributes of an entry are and what a test means.

Written from the documentation and lstat(2)/stat(2); shares no code with ff.
"""
import grp
import os
import pwd
import re
import stat

from . import tree

TYPES = {stat.S_IFDIR: "directory", stat.S_IFREG: "file", stat.S_IFLNK: "symlink", stat.S_IFSOCK: "socket",
         stat.S_IFIFO: "fifo", stat.S_IFCHR: "char", stat.S_IFBLK: "block"}
TYPE_ALIAS = {"d": "directory", "f": "file", "l": "symlink", "s": "socket", "p": "fifo", "pipe": "fifo"}

PATHS = ("path", "root", "relpath", "dir", "pathx", "namex", "link", "target")
STRINGS = ("name", "ext", "user", "group")
NUMBERS = ("device", "inode", "depth", "size", "mtime", "ctime", "atime", "time", "links", "uid", "gid")
MODES = ("mode", "perm")
BOOLEANS = ("samedev", "exec", "hide", "hidden", "empty", "broken", "mount")
ALL = PATHS + STRINGS + NUMBERS + MODES + BOOLEANS + ("type",)
KIND = {**{a: "path" for a in PATHS}, **{a: "string" for a in STRINGS}, **{a: "number" for a in NUMBERS},
        **{a: "mode" for a in MODES}, **{a: "bool" for a in BOOLEANS}, "type": "type", "size": "size",
        "mtime": "time", "ctime": "time", "atime": "time", "time": "time"}


def user_name(uid):
    try:
        return pwd.getpwuid(uid).pw_name
    except KeyError:
        return ""


def group_name(gid):
    try:
        return grp.getgrgid(gid).gr_name
    except KeyError:
        return ""


def split_name(path):
    i = path.rfind("/")
    if i < 0:
        return "", path
    return (path[:i] or "/"), path[i + 1:]


def attrs(spelled, real, rel, st, follow=False, absolute=False, cwd=None):
    """All attributes of the entry `rel` below the start directory that was spelled `spelled` on
    the command line and is `real` (absolute).  Missing attributes are absent."""
    if absolute:
        spelled = real
    path = rel if spelled == "." else (spelled.rstrip("/") + "/" + rel)
    d, name = split_name(path)
    base, ext = os.path.splitext(name)
    t = TYPES[stat.S_IFMT(st.st_mode)]
    full = os.path.join(real, rel)
    a = {
        "path": path, "root": spelled, "relpath": rel, "dir": d, "name": name,
        "ext": ext[1:] if ext else "",
        "pathx": path[:len(path) - len(ext)] if ext else path,
        "namex": base if ext else name,
        "mode": st.st_mode, "perm": st.st_mode & 0o7777, "type": t,
        "device": st.st_dev, "inode": st.st_ino, "samedev": st.st_dev == os.stat(real).st_dev,
        "depth": rel.count("/"),
        "exec": t not in ("directory", "symlink") and bool(st.st_mode & 0o111),
        "size": st.st_size if t == "file" else 0,
        "mtime": st.st_mtime_ns // 10**9, "ctime": st.st_ctime_ns // 10**9, "atime": st.st_atime_ns // 10**9, "time": st.st_mtime_ns // 10**9,
        "links": st.st_nlink, "uid": st.st_uid, "gid": st.st_gid,
        "user": user_name(st.st_uid), "group": group_name(st.st_gid),
        "hide": name.startswith("."),
        "hidden": any(p.startswith(".") for p in path.split("/")),
        "empty": (st.st_size == 0) if t == "file" else (not os.listdir(full) if t == "directory" else False),
        "broken": False,
        "mount": t == "directory" and (
            os.lstat(os.path.dirname(os.path.realpath(full))).st_dev != st.st_dev or os.path.realpath(full) == "/"),
    }
    if t == "symlink":
        a["link"] = os.readlink(full)
        a["target"] = os.path.realpath(full)
        a["broken"] = not os.path.exists(full)
    return a


def entries(starts, follow=False, absolute=False):
    """starts: [(spelled, real)] -> list of attribute dicts of all the entries."""
    out = []
    for spelled, real in starts:
        for rel, st in tree.walk(real, follow=follow):
            out.append(attrs(spelled, real, rel, st, follow, absolute))
    return out


# ------------------------------------------------------------------ tests

def compare_number(op, value, ref):
    op = op.replace(">", "+").replace("<", "-")
    return {"=": value == ref, "+=": value >= ref, "-=": value <= ref, "+": value > ref, "-": value < ref}[op]


def ignore_case(case, pattern):
    if case == "smart":
        return pattern == pattern.lower()
    return case == "ignore"


def compare_string(op, value, pattern, case="smart"):
    ic = ignore_case(case, pattern)
    if op == "~":
        if ic:
            return re.search(pattern, value.lower(), re.I) is not None
        return re.search(pattern, value) is not None
    if ic:
        value, pattern = value.lower(), pattern.lower()
    if op == "=":
        return value == pattern
    if op == ":":
        return pattern in value
    raise ValueError(op)


def compare_mode(op, value, ref):
    value &= 0o7777
    ref &= 0o7777
    return {"=": value == ref, ":": value & ref == ref, "~": bool(value & ref)}[op]


def test(entry, attr, op, value, case="smart", kinds=None):
    """Evaluate a test on an attribute dict; `value` is the parsed reference value."""
    name = attr[5:] if attr.startswith("file.") else attr
    if name not in entry:
        return False
    v = entry[name]
    kind = (kinds or {}).get(name) or KIND.get(name)
    if kind in ("number", "size", "time", "duration"):
        return compare_number(op, v, value)
    if kind in ("string", "path"):
        return compare_string(op, v, value, case)
    if kind == "list":
        return any(compare_string(op, x, value, case) for x in v)
    if kind == "bool":
        return v is value
    if kind == "type":
        return v == TYPE_ALIAS.get(value, value)
    if kind == "mode":
        return compare_mode(op, v, value)
    raise ValueError(kind)


def prune(es, excluded):
    """The entries that are not excluded and have no excluded directory above them."""
    bad = {(e["root"], e["relpath"]) for e in es if excluded(e)}
    out = []
    for e in es:
        parts = e["relpath"].split("/")
        if not any((e["root"], "/".join(parts[:i])) in bad for i in range(1, len(parts) + 1)):
            out.append(e)
    return out
