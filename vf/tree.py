"""Directory trees: generation, construction and an independent description of what is there."""
import os
import socket
import stat

from hypothesis import strategies as st

SIMPLE = ["a", "b", "c", "foo", "bar", "Foo", "FOO", "baz", "x1", "x10", "x2", "a.txt", "b.txt", "foo.txt", "Foo.TXT",
          "foo.tar.gz", "README", "readme.md", "main.py", "img.JPG", ".hid", ".git", ".foo.txt", "..x",
          "...", ".a.b", "a.", "a..b", "no ext", "v1.2.3", "v1.10.0", "tmp", "data", "src", "node_modules"]
WEIRD_CH = " \t\n'\"\\*?[]{}()!#%&;|<>=:~^$@,+-_.äÄßẞİıſéΣσςǅ日本\u0301\u200b\U0001f600\x01\x7f\x1b0aAzZ9"
BYTES_NAMES = ["\udcff", "a\udc80b", "\udce4.txt", "f\udcc3", "\udcfe\udcff.py"]


def valid_name(s):
    return s not in ("", ".", "..") and "/" not in s and "\0" not in s and len(os.fsencode(s)) <= 200


def names(weird=True, raw=True, newline=True, extra=()):
    opts = [st.sampled_from(SIMPLE + list(extra)), st.sampled_from(SIMPLE + list(extra))]
    if weird:
        alpha = WEIRD_CH if newline else WEIRD_CH.replace("\n", "")
        opts.append(st.text(alphabet=alpha, min_size=1, max_size=8).filter(valid_name))
        opts.append(st.sampled_from(["-", "--", "-x", " ", "  a", "a ", "*", "?", "[a]", "\\", "{}", "{{", "a=b",
                                     "or", "NOT", "(", "a\tb", "'", '"', "$HOME", "~", "é", "e\u0301", "ß", "x" * 100]))
    if raw:
        opts.append(st.sampled_from(BYTES_NAMES))
    return st.one_of(opts)


def node(name_st, kinds="dddfffflp", meta=False, sizes=None):
    d = {
        "p": st.integers(0, 12),
        "n": name_st,
        "t": st.sampled_from(list(kinds)),
    }
    if "l" in kinds:
        d["l"] = st.one_of(st.tuples(st.just("e"), st.integers(0, 30)),
                           st.tuples(st.just("s"), st.sampled_from(
                               [".", "..", "/", "nowhere", "./a", "../b", "a", "/nonexistent/x", "a/b/../c", "foo/"])))
    if sizes is not None:
        d["s"] = sizes
    if meta:
        d["m"] = st.sampled_from([0o644, 0o600, 0o755, 0o700, 0o444, 0o000, 0o4755, 0o2755, 0o1777, 0o111, 0o010, 0o001, 0o7777, 0o640])
        d["mt"] = st.one_of(st.sampled_from([0, 1, 1589234400, 1589234399, 1700000000, 951782400]),
                            st.integers(0, 2 ** 32), st.floats(0, 2 ** 31, width=32).map(lambda x: round(x, 3)))
    return st.fixed_dictionaries(d)


def nodes(max_size=14, min_size=0, **kw):
    name_st = kw.pop("name_st", None)
    if name_st is None:
        name_st = names()
    return st.lists(node(name_st, **kw), min_size=min_size, max_size=max_size)


class Built:
    def __init__(self, root):
        self.root = root
        self.entries = {}       # relative path -> node
        self.order = []         # relative paths in creation order
        self.dirs = [""]


def content(n):
    if "b" in n:
        return n["b"].encode("latin-1")
    size = n.get("s", 0)
    return None if size > 1 << 16 else b"x" * size


def build(root, spec, bulk=None):
    """Create the tree described by `spec` below `root` (which is created)."""
    os.makedirs(root, exist_ok=True)
    b = Built(root)
    links = []
    for n in spec:
        parent = b.dirs[n["p"] % len(b.dirs)]
        rel = os.path.join(parent, n["n"]) if parent else n["n"]
        if rel in b.entries:
            continue
        path = os.path.join(root, rel)
        if len(os.fsencode(path)) > 3000:
            continue
        t = n["t"]
        if t == "d":
            os.mkdir(path)
            b.dirs.append(rel)
        elif t == "f":
            data = content(n)
            with open(path, "wb") as f:
                if data is None:
                    size = n["s"]
                    while True:
                        try:
                            f.truncate(size)
                            break
                        except OSError:     # more than the file system allows
                            size //= 8
                else:
                    f.write(data)
        elif t == "p":
            os.mkfifo(path)
        elif t == "s":
            s = socket.socket(socket.AF_UNIX)
            cwd = os.getcwd()
            try:
                os.chdir(os.path.dirname(path))
                s.bind("." + "/" + os.path.basename(path))
            except OSError:
                continue
            finally:
                os.chdir(cwd)
                s.close()
        elif t == "l":
            links.append((rel, n))
            # Created below, so that it can point to entries that come later.
        b.entries[rel] = n
        b.order.append(rel)
    for rel, n in links:
        kind, val = n["l"]
        if kind == "e" and b.order:
            target = os.path.relpath(os.path.join(root, b.order[val % len(b.order)]),
                                     os.path.dirname(os.path.join(root, rel)))
        elif kind == "e":
            target = "nowhere"
        else:
            target = val
        os.symlink(target, os.path.join(root, rel))
    if bulk:
        ndirs, nfiles = bulk
        for i in range(ndirs):
            d = os.path.join(root, f"bulk{i % 7}", f"d{i}")
            os.makedirs(d, exist_ok=True)
            for j in range(nfiles):
                with open(os.path.join(d, f"f{j}"), "w"):
                    pass
    # Modes and times last, children before parents.
    for rel in reversed(b.order):
        n = b.entries[rel]
        path = os.path.join(root, rel)
        if n["t"] == "l":
            if "mt" in n:
                os.utime(path, (n["mt"], n["mt"]), follow_symlinks=False)
            continue
        if "m" in n:
            os.chmod(path, n["m"] if n["t"] != "d" or n.get("rawmode") else (n["m"] | 0o700))
        if "mt" in n:
            os.utime(path, (n["mt"], n["mt"]))
    return b


def walk(root, follow=False, onerror=None, maxdepth=60):
    """All entries below root: [(relpath, stat_result)], children of unreadable directories left
    out.  Independent of ff: plain recursion over os.listdir and lstat/stat."""
    out = []

    def rec(rel, depth):
        path = os.path.join(root, rel) if rel else root
        try:
            names_ = os.listdir(os.fsencode(path))
        except OSError:
            return
        for bname in names_:
            name = os.fsdecode(bname)
            r = f"{rel}/{name}" if rel else name
            try:
                s = os.stat(os.path.join(root, r), follow_symlinks=follow)
            except OSError:
                continue
            out.append((r, s))
            if stat.S_ISDIR(s.st_mode) and depth < maxdepth:
                rec(r, depth + 1)
    rec("", 0)
    return out


def split0(data, sep=b"\0"):
    """Records of -0 output."""
    if not data:
        return []
    parts = data.split(sep)
    return [os.fsdecode(p) for p in parts[:-1]] + ([os.fsdecode(parts[-1]) + "<unterminated>"] if parts[-1] else [])
