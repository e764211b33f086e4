"""C25: what the bundled plugins report."""
import bz2
import ctypes
import gzip
import hashlib
import io
import json
import lzma
import os
import stat
import struct
import subprocess
import tarfile
import warnings
import zlib

from hypothesis import strategies as st

from .. import tree
from ..core import Check, Part, Skip
from ..lib import JOBS, SCHED, expect_clean, expect_same, fail

NOBODY = 65534

# --- contents ---------------------------------------------------------------------------------

TEXT = st.text(alphabet="ab #!=:\t\x0b\x0c\x1c\x85\u2028äß日\U0001f600\ufeff\x00\x7f{}'\"\\xyz", max_size=12)
EOL = st.sampled_from(["\n", "\n", "\n", "\r\n", "\r", "\n\n", "\x0b", "\x85", "\r\r\n"])
RAW = st.one_of(
    st.binary(max_size=40).map(lambda b: b.decode("latin-1")),
    st.sampled_from(["", "\n", "\r", "\r\n", "#!", "#!\n", "#! /bin/sh\n", "\xef\xbb\xbfabc\n", "\xff\xfea\0b\0", "a\nb\n\xff", "%PDF-1.4\n",
                     "\x7fELF\x02\x01\x01\0", "\x1f\x8b\x08\0", "BZh91AY&SY", "\xfd7zXZ\0", "PK\x03\x04", "{\"a\": 1}", "<html></html>", "\0" * 1024,
                     "\0" * 10240, "<?xml version='1.0'?><a/>", "GIF89a", "RIFF\0\0\0\0WAVE", "ID3\x04\0\0\0\0\0\x7f", "\x89PNG\r\n\x1a\n",
                     "#!/usr/bin/env python3\nimport os\n", "#!/bin/sh\r\necho\r\n", "#!/bin/b\xe4sh\n", " #!/bin/sh\n", "# coding: latin-1\nimport a\n'\xe4'\n",
                     "import a\0", "def f(:\n", "# coding: nonsense\nimport a\n", "import a\n'\\d'\n", "(" * 300, "# coding: rot13\nvzcbeg n\n",
                     "\xc3", "a\n" * 3000 + "\xc3(", "-" * 20000]))

MODULE = st.sampled_from(["a", "os", "os.path", "foo.bar.baz", "_x", "A1", "ä", "__future__"])
PYSTMT = st.one_of(
    st.tuples(st.just("import"), st.lists(st.tuples(MODULE, st.sampled_from(["", "", "q"])), min_size=1, max_size=3)),
    st.tuples(st.just("from"), st.integers(0, 3), st.sampled_from(["a", "os.path", "m1", "x.y.z"]), st.sampled_from(["x", "x as y, z", "(x,\n    y)", "w", "*"])),
    st.tuples(st.just("dots"), st.integers(1, 3)),
    st.tuples(st.just("noise"), st.sampled_from(["x = 1", "# import nothing", "'''\nimport nothing\n'''", "s = 'import nothing'", "'\\d'", "assert (1, 2)",
                                                 "importlib = 0", "x = (1)\\\n + 2", "\f", "", "print('from a import b')", "1 is 1"])))
PYWRAP = st.sampled_from(["", "", "", "if x:", "def f():", "class C:", "async def g():", "try:"])
PYENC = st.sampled_from(["", "", "bom", "latin", "crlf", "cr", "shebang", "bomcookie"])

MEMBER = st.one_of(st.sampled_from(["a", "b/c", "./a", "../x", "dir", "x" * 120, "y/" + "z" * 150, "ä", "a b", "a\nb", "\udcff", "b/c"]),
                   tree.names(weird=True, raw=False))
MUTATION = st.one_of(st.none(), st.none(), st.none(), st.tuples(st.just("cut"), st.integers(0, 1000)),
                     st.tuples(st.just("set"), st.integers(0, 1000), st.integers(0, 255)),
                     st.tuples(st.just("append"), st.integers(0, 600)), st.tuples(st.just("zero"), st.integers(0, 1000), st.integers(1, 600)))
TAR = st.tuples(st.just("tar"), st.one_of(*[st.lists(st.tuples(MEMBER, st.sampled_from("ffdlh"), st.integers(0, 700)), max_size=5)] * 5,
                                    st.integers(90, 2500)),
                st.sampled_from(["", "", "gz", "bz2", "xz", "lzma"]), st.sampled_from(["pax", "gnu", "gnu"]), MUTATION)
SIZE = st.one_of(st.integers(1, 50), st.sampled_from([64, 255, 256, 257, 300, 640, 1000]))
MEDIA = st.one_of(
    st.tuples(st.just("png"), SIZE, SIZE, MUTATION), st.tuples(st.just("gif"), SIZE, SIZE, MUTATION), st.tuples(st.just("bmp"), SIZE, SIZE, MUTATION),
    st.tuples(st.just("wav"), st.integers(0, 4000), st.sampled_from([200, 300, 500, 700]), MUTATION),
    st.tuples(st.just("avi"), SIZE, SIZE, st.sampled_from([10, 20, 25]), st.integers(1, 200), st.booleans(), MUTATION),
    st.tuples(st.just("mp3"), st.integers(100, 600), st.lists(
        st.tuples(st.sampled_from(["TPE1", "TALB", "TIT2", "TCON"]), st.sampled_from(["a", "Some Words", "ÄÖ", "日本", "x" * 60])), max_size=4,
        unique_by=lambda x: x[0]), MUTATION))
CONTENT = st.one_of(
    st.tuples(st.just("raw"), RAW),
    st.tuples(st.just("lines"), st.lists(st.tuples(TEXT, EOL), max_size=6), st.booleans()),
    st.tuples(st.just("big"), st.integers(0, 50), st.sampled_from([63, 64, 65, 8191, 8192, 8193, 16384, 20000, 70001])),
    st.tuples(st.just("py"), st.lists(st.tuples(PYSTMT, PYWRAP), max_size=6), PYENC, MUTATION),
    TAR, TAR, MEDIA)
FILE = st.fixed_dictionaries({
    "content": CONTENT,
    "name": st.one_of(tree.names(), st.sampled_from(["", "", "", "X", "a.b"])),
    "ext": st.one_of(st.just(None), st.just(None), st.just(None), st.sampled_from(
        [".tar", ".tgz", ".tar.gz", ".taz", ".tpz", ".tar.bz2", ".tb2", ".tbz", ".tbz2", ".tz2", ".tar.lz", ".tar.lzma", ".tlz", ".tar.xz", ".txz",
         ".py", ".PY", ".pyc", ".gz", ".TAR", ".mp3", ".png", ".wav", ".jpg", ".mkv", ".txt", ""])),
    "dir": st.integers(0, 8),
    "kind": st.sampled_from("f" * 14 + "pslLdx"),
    "xattr": st.one_of(st.just([]), st.just([]), st.lists(st.tuples(
        st.sampled_from(["a", "b", "mime_type", "x y", "ä"]), st.sampled_from(["", "1", "a=b", "\xff", "x\ny", "v" * 200])), max_size=3,
        unique_by=lambda x: x[0]))})
DIRS = ["", "a", "a/b", "a/b/c", "pkg", "pkg/sub", ".h", "ä\udcff", "x.tar"]
MIME = {"png": ".png", "gif": ".gif", "bmp": ".bmp", "wav": ".wav", "mp3": ".mp3", "avi": ".avi", "py": ".py", "lines": ".txt", "raw": ".bin", "big": ""}


def mutate(data, mutation):
    if mutation is None or not data:
        return data
    kind = mutation[0]
    pos = len(data) * mutation[1] // 1000
    if kind == "cut":
        return data[:pos]
    if kind == "append":
        return data + b"Q" * mutation[1]
    pos = min(pos, len(data) - 1)
    if kind == "set":
        return data[:pos] + bytes([mutation[2]]) + data[pos + 1:]
    return data[:pos] + b"\0" * min(mutation[2], len(data) - pos) + data[pos + mutation[2]:]


def chunk(t, d):
    return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))


def avi(w, h, fps, frames, sound):
    """A video with (or without) sound of the same length."""
    def ck(tag, d):
        return tag + struct.pack("<I", len(d)) + d + b"\0" * (len(d) % 2)

    hdr = ck(b"avih", struct.pack("<14I", 1000000 // fps, 0, 0, 16, frames, 0, 2 if sound else 1, 0, w, h, 0, 0, 0, 0))
    hdr += ck(b"LIST", b"strl" + ck(b"strh", b"vidsMJPG" + struct.pack("<IHHIIIIIIII4H", 0, 0, 0, 0, 1, fps, 0, frames, 0, 0xffffffff, 0, 0, 0, w, h))
              + ck(b"strf", struct.pack("<IiiHH4sIiiII", 40, w, h, 1, 24, b"MJPG", w * h * 3, 0, 0, 0, 0)))
    movi = ck(b"00dc", b"\xff\xd8\xff\xd9") * frames
    if sound:
        n = frames * 1000 // fps
        hdr += ck(b"LIST", b"strl" + ck(b"strh", b"auds\0\0\0\0" + struct.pack("<IHHIIIIIIII4H", 0, 0, 0, 0, 1, 1000, 0, n, 0, 0xffffffff, 1, 0, 0, 0, 0))
                  + ck(b"strf", struct.pack("<HHIIHH", 1, 1, 1000, 1000, 1, 8)))
        movi += ck(b"01wb", b"\x80" * n)
    return ck(b"RIFF", b"AVI " + ck(b"LIST", b"hdrl" + hdr) + ck(b"LIST", b"movi" + movi))


def python_source(items):
    """Source text and what it imports: (level, module)."""
    out, imports = [], []
    for (stmt, wrap) in items:
        if stmt[0] == "import":
            text = "import " + ", ".join(m + (f" as {a}" if a else "") for m, a in stmt[1])
            imports += [(0, m) for m, _ in stmt[1]]
        elif stmt[0] == "from":
            text = f"from {'.' * stmt[1]}{' ' if stmt[1] else ''}{stmt[2]} import {stmt[3]}"
            imports.append((stmt[1], stmt[2]))
        elif stmt[0] == "dots":
            text = f"from {'.' * stmt[1]} import nothing"
        else:
            text = stmt[1]
        if wrap and stmt[0] != "noise":
            text = wrap + "\n    " + text.replace("\n", "\n    ")
            if wrap == "try:":
                text += "\nfinally:\n    pass"
        out.append(text)
    return "\n".join(out) + "\n", imports


def make(content):
    """Bytes of a file and what is known about them by construction."""
    kind = content[0]
    known = {}
    if kind == "raw":
        return content[1].encode("latin-1"), known
    if kind == "big":
        seed, size = content[1:]
        return bytes((seed + i * i // 7) % 251 for i in range(size)), known
    if kind == "much":
        # Much of the same: the beginning, what is repeated and how often, the end.
        return "".join([content[1], *(content[2].replace("%", str(i)) for i in range(content[3])), content[4]]).encode(), known
    if kind == "lines":
        text = "".join(t + e for t, e in content[1])
        if content[2] and content[1]:
            text = text[:len(text) - len(content[1][-1][1])]
        return text.encode(), known
    if kind == "py":
        text, imports = python_source(content[1])
        enc, mutation = content[2:]
        if enc == "latin":
            data = ("# -*- coding: latin-1 -*-\n" + text + "x = '\xe4\xf6'\n").encode("latin-1", "replace")
        elif enc == "bom":
            data = b"\xef\xbb\xbf" + text.encode()
        elif enc == "bomcookie":
            data = b"\xef\xbb\xbf# coding: utf-8\n" + text.encode()
        elif enc == "shebang":
            data = b"#!/usr/bin/env python3\n" + text.encode()
        elif enc == "crlf":
            data = text.replace("\n", "\r\n").encode()
        elif enc == "cr":
            data = text.replace("\n", "\r").encode()
        else:
            data = text.encode()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                compile(data, "x", "exec", 1024)
        except (SyntaxError, ValueError):
            # E.g. __future__ imports of unknown features are no matter; only the syntax is.
            return data, {"py_any": True}
        if mutation is None:
            known["imports"] = imports
        else:
            data = mutate(data, mutation)
            known["py_any"] = True
        return data, known
    if kind == "tar":
        members, comp, fmt, mutation = content[1:]
        if isinstance(members, int):
            members = [(f"m{i % 7}/{i}", "fd"[i % 5 == 0], i % 3) for i in range(members)]
        buf = io.BytesIO()
        with tarfile.open(fileobj=buf, mode="w", format=tarfile.PAX_FORMAT if fmt == "pax" else tarfile.GNU_FORMAT, encoding="utf-8",
                          errors="surrogateescape") as tar:
            names = set()
            for name, t, size in members:
                info = tarfile.TarInfo(name)
                if t == "d":
                    info.type = tarfile.DIRTYPE
                elif t == "l":
                    info.type, info.linkname = tarfile.SYMTYPE, "target"
                elif t == "h":
                    info.type, info.linkname = tarfile.LNKTYPE, "a"
                else:
                    info.size = size
                tar.addfile(info, io.BytesIO(b"y" * size) if t == "f" else None)
                names.add(name.rstrip("/") if t != "f" else name)
        data = buf.getvalue()
        if comp == "gz":
            data = gzip.compress(data, mtime=0)
        elif comp == "bz2":
            data = bz2.compress(data)
        elif comp == "xz":
            data = lzma.compress(data)
        elif comp == "lzma":
            data = lzma.compress(data, format=lzma.FORMAT_ALONE)
        if mutation is None:
            # A file whose name ends with / is read as a directory; ./ and the like are unusual.
            known["members"] = sorted(names)
        return mutate(data, mutation), known
    w, h = content[1:3]
    mutation = content[-1]
    known["media_any"] = True
    if kind == "png":
        raw = b"".join(b"\0" + b"\0" * ((w + 7) // 8) for _ in range(h))
        data = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 1, 0, 0, 0, 0)) + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b"")
        medium = {"width": w, "height": h, "format": "png"}
    elif kind == "gif":
        data = b"GIF89a" + struct.pack("<HHBBB", w, h, 0x80, 0, 0) + b"\0\0\0\xff\xff\xff," + struct.pack("<HHHHB", 0, 0, w, h, 0) + b"\x02\x02\x44\x01\x00;"
        medium = {"width": w, "height": h, "format": "gif"}
    elif kind == "bmp":
        d = b"\0" * (((w + 31) // 32) * 4 * h)
        data = (b"BM" + struct.pack("<IHHI", 62 + len(d), 0, 0, 62) + struct.pack("<IiiHHIIiiII", 40, w, h, 1, 1, 0, len(d), 2835, 2835, 2, 0)
                + b"\0\0\0\0\xff\xff\xff\0" + d)
        medium = {"width": w, "height": h}
    elif kind == "wav":
        # One second is 100 samples; w seconds and h milliseconds.
        rate = 1000
        n = (w % 90) * rate + h
        data = b"RIFF" + struct.pack("<I", 36 + n) + b"WAVEfmt " + struct.pack("<IHHIIHH", 16, 1, 1, rate, rate, 1, 8) + b"data" + struct.pack("<I", n) + b"\0" * n
        medium = {"duration": w % 90}
    elif kind == "avi":
        w, h, fps, frames, sound = content[1:6]
        data = avi(w, h, fps, frames, sound)
        medium = {"width": w, "height": h}
        seconds = frames / fps
        if .05 < seconds % 1 < .95 or not sound:
            medium["duration"] = int(seconds)
    else:
        frames, tags = content[1], content[2]
        body = b"".join(k.encode() + struct.pack(">IH", len(v.encode()) + 1, 0) + b"\x03" + v.encode() for k, v in tags)
        n = len(body)
        data = b"ID3\x04\0\0" + bytes([(n >> 21) & 127, (n >> 14) & 127, (n >> 7) & 127, n & 127]) + body + (bytes.fromhex("fffb9064") + b"\0" * 413) * frames
        key = {"TPE1": "artist", "TALB": "album", "TIT2": "title", "TCON": "genre"}
        medium = {key[k]: v for k, v in tags}
        seconds = frames * 1152 / 44100
        if .05 < seconds % 1 < .95:
            medium["duration"] = int(seconds)
    if mutation is None:
        known["medium"] = medium
    return mutate(data, mutation), known


# --- the expected values ----------------------------------------------------------------------

ALGORITHMS = ["md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha3_224", "sha3_256", "sha3_384", "sha3_512", "blake2b", "blake2s",
              "shake_128", "shake_256"]
TAREXT = (".tar", ".tar.gz", ".taz", ".tgz", ".tpz", ".tar.bz2", ".tb2", ".tbz", ".tbz2", ".tz2", ".tar.lz", ".tar.lzma", ".tlz", ".tar.xz", ".txz")
MEDIUM = ["duration", "artist", "album", "title", "genre", "format", "width", "height"]
ATTRS = (["grep.text", "grep.linecount", "grep.lines"] + [f"{a}.{a}" for a in ALGORITHMS] + ["mime.mime", "mime.type", "mime.subtype", "mime.encoding",
         "mime.name", "tar.members", "shebang.shebang", "py.imports", "xattr.xattrs", "fs.type", "fs.remote"] + ["medium." + x for x in MEDIUM])
KNOWN_FS = {"ext2/ext3": False, "tmpfs": False, "overlayfs": True, "xfs": False, "btrfs": False, "proc": False, "zfs": False, "ramfs": False, "squashfs": False}

_magic = None


class Magic:
    def __init__(self):
        self.lib = ctypes.CDLL("libmagic.so.1")
        self.lib.magic_open.restype = ctypes.c_void_p
        self.lib.magic_file.restype = ctypes.c_char_p
        self.lib.magic_file.argtypes = [ctypes.c_void_p, ctypes.c_char_p]
        self.lib.magic_load.argtypes = [ctypes.c_void_p, ctypes.c_char_p]
        self.cookies = []
        for flags in (0x400 | 0x10, 0x400, 0):
            c = ctypes.c_void_p(self.lib.magic_open(flags))
            self.lib.magic_load(c, None)
            self.cookies.append(c)

    def __call__(self, path):
        try:
            full, enc, name = ((self.lib.magic_file(c, os.fsencode(path)) or b"").decode("utf-8") for c in self.cookies)
        except UnicodeDecodeError:
            return None
        mime, _, rest = full.partition(";")
        return mime, enc, name


def magic(path):
    global _magic
    if _magic is None:
        _magic = Magic()
    return _magic(path)


def expected(path, name, data, known, readable):
    """Values of all plugins that look at the content of regular files."""
    e = dict.fromkeys(ATTRS)
    anything = set()
    if not readable:
        if not data:
            # It is known to be empty without reading it.
            anything.update(x for x in ATTRS if x.startswith("mime."))
        return e, anything
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError:
        e["grep.text"] = False
    else:
        lines = text.replace("\r\n", "\n").replace("\r", "\n").split("\n")
        if lines[-1] == "":
            lines.pop()
        e.update({"grep.text": True, "grep.linecount": len(lines), "grep.lines": lines})
    for a in ALGORITHMS:
        h = hashlib.new(a, data)
        e[f"{a}.{a}"] = h.hexdigest(int(a[6:]) // 8) if a.startswith("shake") else h.hexdigest()
    found = magic(path)
    if found is None:
        anything.update(x for x in ATTRS if x.startswith("mime."))
    else:
        mime, enc, full = found
        e.update({"mime.mime": mime, "mime.type": mime.partition("/")[0], "mime.subtype": mime.partition("/")[2], "mime.encoding": enc, "mime.name": full})
    if name.endswith(TAREXT):
        if "members" in known:
            e["tar.members"] = known["members"]
        else:
            try:
                with tarfile.open(path) as tar:
                    e["tar.members"] = sorted(set(tar.getnames()))
            except (OSError, EOFError, tarfile.TarError, zlib.error, lzma.LZMAError):
                pass
    first = data.split(b"\n")[0]
    if first.startswith(b"#!") and first.isascii():
        e["shebang.shebang"] = first[2:].decode().rstrip()
    if os.path.splitext(name)[1].lower() == ".py" or "python" in (e["shebang.shebang"] or ""):
        if "imports" in known:
            out = set()
            for level, module in known["imports"]:
                if level:
                    # Relative imports are named after the directory of the package.
                    d = os.path.dirname(path)
                    for _ in range(level - 1):
                        d = os.path.dirname(d)
                    module = os.path.basename(d) + "." + module
                out.add(module)
            e["py.imports"] = out
        else:
            anything.add("py.imports")
    if not os.path.splitext(name)[1] or name.lower().startswith("data:"):
        # A hidden file without extension.
        anything.update("medium." + x for x in MEDIUM)
    elif not name.lower().endswith((".png", ".gif", ".bmp", ".wav", ".mp3", ".jpg", ".mkv", ".jpeg", ".mp4", ".avi", ".ogg", ".flac")):
        # Whether the plugin handles it depends on the extension; nothing to report without one.
        if "." in name:
            anything.update("medium." + x for x in MEDIUM)
    elif "medium" in known:
        for k, v in known["medium"].items():
            e["medium." + k] = v
        anything.update("medium." + x for x in MEDIUM if x not in known["medium"])
    else:
        anything.update("medium." + x for x in MEDIUM)
    return e, anything


FSCACHE = {}


def fstype(path):
    dev = os.stat(path).st_dev
    if dev not in FSCACHE:
        FSCACHE[dev] = subprocess.run(["stat", "-f", "-c", "%T", "--", path], capture_output=True, check=True).stdout.decode().strip()
    return FSCACHE[dev]


def files_strategy(tier):
    return st.fixed_dictionaries({
        "files": st.lists(FILE, min_size=1, max_size=8), "user": st.booleans(), "opt": st.booleans(), "jobs": JOBS, "sched": SCHED,
        "cache": st.sampled_from([False, False, True]), "follow": st.sampled_from([False, False, True]),
        "hide": st.sampled_from([0, 0, 0, 1, 2, 5]), "test": st.integers(0, 50), "abs": st.booleans(), "shm": st.sampled_from([False, False, True])})


CODE = st.tuples(st.just("py"), st.lists(st.tuples(PYSTMT, PYWRAP), min_size=1, max_size=6), PYENC, st.none())
ARCHIVE = st.tuples(st.just("tar"), st.lists(st.tuples(st.one_of(MEMBER, st.sampled_from(["a", "a", "dir", "b/c"])), st.sampled_from("ffdlh"), st.integers(0, 700)),
                                             min_size=1, max_size=6),
                    st.sampled_from(["", "", "gz", "bz2", "xz", "lzma"]), st.sampled_from(["pax", "gnu"]), st.none())


def code_file(content, exts):
    return st.fixed_dictionaries({"content": content, "name": st.sampled_from(["a", "b", "c", "X", "a.b", "x y", "ä"]), "ext": st.sampled_from(exts),
                                  "dir": st.integers(0, 8), "kind": st.sampled_from("ffffffffffffffl"), "xattr": st.just([])})


def code_strategy(tier):
    """Sources and archives without damage."""
    return st.fixed_dictionaries({
        "files": st.lists(st.one_of(code_file(CODE, [None, None, None, ".PY", ".Py", ".txt", ""]),
                                    code_file(MEDIA.map(lambda c: (*c[:-1], None)), [None]),
                                    code_file(ARCHIVE, [None, None, *TAREXT, ".TAR", ".zip", ""])), min_size=3, max_size=10),
        "user": st.just(False), "opt": st.booleans(), "jobs": JOBS, "sched": SCHED,
        "cache": st.sampled_from([False, False, True]), "follow": st.just(False),
        "hide": st.just(0), "test": st.sampled_from([0, 0, 0, 3, 10, 20]), "abs": st.booleans(), "shm": st.sampled_from([False, False, True])})


def name_of(f):
    ext = f["ext"]
    c = f["content"]
    if ext is None:
        if c[0] == "tar":
            ext = {"": ".tar", "gz": ".tgz", "bz2": ".tar.bz2", "xz": ".txz", "lzma": ".tlz"}[c[2]]
        else:
            ext = MIME.get(c[0], "")
        if c[0] == "py" and c[2] == "shebang":
            ext = ""
    name = f["name"] + ext
    return name if tree.valid_name(name) else "f" + ext


def run_files(ctx, spec):
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    starts = [("." if not spec["abs"] else root, root)]
    shm = None
    if spec["shm"] and os.path.isdir("/dev/shm"):
        shm = f"/dev/shm/vf-c25-{os.getpid()}"
        os.makedirs(shm, exist_ok=True)
    try:
        files(ctx, spec, root, shm)
    finally:
        if shm:
            for d, ds, fs in os.walk(shm, topdown=False):
                for n in fs:
                    os.unlink(os.path.join(d, n))
                for n in ds:
                    p = os.path.join(d, n)
                    os.unlink(p) if os.path.islink(p) else os.rmdir(p)
            os.rmdir(shm)


def files(ctx, spec, root, shm):
    entries = {}            # absolute path -> (kind, data, known, xattrs)
    as_user = spec["user"]
    for i, f in enumerate(spec["files"]):
        base = shm if shm and i % 3 == 2 else root
        d = base
        for part in DIRS[f["dir"]].split("/"):
            d = os.path.join(d, part) if part else d
            if d in entries and entries[d][0] != "d":
                d = base
                break
            if not os.path.isdir(d):
                os.mkdir(d)
            if d != base:
                entries.setdefault(d, ["d", None, {}, None])
        path = os.path.join(d, name_of(f))
        if path in entries or len(os.fsencode(os.path.basename(path))) > 200:
            continue
        data, known = make(f["content"])
        k = f["kind"]
        if k == "p":
            os.mkfifo(path)
            k = "special"
        elif k == "s":
            os.mknod(path, stat.S_IFSOCK | 0o600)
            k = "special"
        elif k == "d":
            os.mkdir(path)
        elif k in "lL":
            targets = [p for p in entries if entries[p][0] == "f"]
            if name_of(f).lower().endswith((".png", ".gif", ".bmp", ".wav", ".mp3", ".jpg", ".mkv", ".avi", ".py")) or not targets:
                # Whether the medium plugin follows symbolic links is not specified.
                continue
            if k == "L" and spec["follow"]:
                # Broken links with -L: not specified.
                k = "l"
            os.symlink(os.path.relpath(targets[f["dir"] % len(targets)], os.path.dirname(path)) if k == "l" else "nowhere", path)
            k = "l"
        else:
            with open(path, "wb") as fobj:
                fobj.write(data)
            if k == "x":
                os.chmod(path, 0)
            k = "f" if k == "f" else "x"
        entries[path] = [k, data, known, None]
        if f["xattr"] and k in "fxd":
            try:
                for key, value in f["xattr"]:
                    os.setxattr(path, "user." + key, value.encode("latin-1"))
                entries[path][3] = f["xattr"]
            except OSError:
                entries[path][3] = []
    want = {}
    for path, (k, data, known, xattrs) in entries.items():
        name = os.path.basename(path)
        target = path
        anything = set()
        kind = k
        if k == "l" and spec["follow"]:
            target = os.path.realpath(path)
            if target in entries:
                kind, data, known, xattrs = entries[target]
                known = {"py_any": True, **{k2: v for k2, v in known.items() if k2 == "members"}}
        e = dict.fromkeys(ATTRS)
        if kind in ("f", "x"):
            e, anything = expected(target, name, data, known, kind == "f" or not as_user)
        if kind in ("f", "x", "d"):
            e["xattr.xattrs"] = sorted(f"user.{key}={os.fsdecode(value.encode('latin-1'))}" for key, value in xattrs or [])
            if kind == "x" and as_user and xattrs:
                anything.add("xattr.xattrs")
        t = fstype(path if k == "d" else os.path.dirname(path))
        if t in KNOWN_FS:
            e["fs.type"], e["fs.remote"] = t, KNOWN_FS[t]
        else:
            anything.update(["fs.type", "fs.remote"])
        if k == "l":
            # Where following links matters for the type of the file system is not specified.
            anything.update(["fs.type", "fs.remote"] if spec["follow"] else [])
            anything.update(["mime.mime", "mime.type", "mime.subtype", "mime.encoding", "mime.name"] if spec["follow"] else [])
        want[path] = (e, anything)
    attrs = list(ATTRS)
    if spec["hide"]:
        # Only some of the attributes, so that other plugins are not used.
        attrs = attrs[spec["test"] % 5::spec["hide"] + 1]
    argv = ["--jsonl", "--case=sensitive", "-o", ",".join(["path"] + attrs), f"-j{spec['jobs']}"]
    env = {}
    cachefile = os.path.join(ctx.case, "cachedir", "c.db")
    if spec["cache"]:
        os.mkdir(os.path.dirname(cachefile))
        os.chmod(os.path.dirname(cachefile), 0o777)
        argv.append("--cache=" + cachefile)
    else:
        argv.append("--no-cache")
    if spec["follow"]:
        argv.append("-L")
    test = pick_test(spec["test"], want, attrs)
    dirs = [root] + ([shm] if shm else []) if spec["abs"] or shm else []
    os.chmod(root, 0o755)
    full = argv + dirs + (test[0] if test else [])
    uid = NOBODY if as_user else None
    for _ in range(2 if spec["cache"] else 1):
        res = ctx.run(full, root, opt=spec["opt"], env=env, sched=spec["sched"], uid=uid, timeout=60)
        expect_clean(res, full)
        if res.err:
            fail("messages on standard error", res, argv=full)
        got = {}
        for line in res.out.decode("utf-8").splitlines():
            row = json.loads(line)
            got[row.pop("path")] = row
        if test:
            must = {p for p in want if test[1](want[p]) is True}
            may = {p for p in want if test[1](want[p]) is not False}
            if not must <= set(got) <= may:
                fail("the wrong entries are selected", res, argv=full, missing=sorted(must - set(got)), unexpected=sorted(set(got) - may))
        elif set(got) != set(want):
            expect_same(list(got), list(want), res, argv=full)
        for path, row in got.items():
            e, anything = want[path]
            for a in attrs:
                if a in anything:
                    continue
                value = row[a]
                if a == "xattr.xattrs" and value is not None:
                    value = sorted(value)
                if a == "py.imports" and value is not None:
                    value = set(value)
                if value != e[a]:
                    fail(f"{a} differs", res, argv=full, path=path, got=repr(value)[:300], expected=repr(e[a])[:300])
    ctx.nontrivial = any(v[0] in "fx" for v in entries.values())
    for k, data, known, xattrs in entries.values():
        ctx.mark("kind:" + k)
        for x in known:
            ctx.mark("known:" + x)
        if xattrs:
            ctx.mark("xattr")
    ctx.mark("user" if as_user else "root")
    if test:
        ctx.mark("test")


def pick_test(n, want, attrs):
    """A test that is derived from one of the values (all operators are judged elsewhere)."""
    if n < 15 or not want:
        return None
    paths = sorted(want)
    for i in range(8):
        a = attrs[(n * 7 + i * 5) % len(attrs)]
        e, anything = want[paths[(n + i) % len(paths)]]
        v = e[a]
        if v is None or a in anything:
            continue

        def judge(fn, a=a):
            def test(item):
                if a in item[1]:
                    return None
                return item[0][a] is not None and fn(item[0][a])
            return test
        if isinstance(v, bool):
            return [f"{a}={'yes' if v else 'no'}"], judge(lambda x: x == v)
        if isinstance(v, int):
            if a == "medium.duration":
                return [f"{a}={v}s"], judge(lambda x: x == v)
            return [f"{a}+={v}"], judge(lambda x: x >= v)
        if isinstance(v, str):
            if not v.strip() or v != v.lstrip() or v.startswith("{") or "\0" in v:
                continue
            return [f"{a}={v}"], judge(lambda x: x == v)
        items = sorted(x for x in v if x and x == x.lstrip() and not x.startswith("{") and "\0" not in x)
        if items:
            item = items[n % len(items)]
            return [f"{a}={item}"], judge(lambda x: item in x)
    return None


# --- git ---------------------------------------------------------------------------------------

STATES = ["tracked", "tracked", "modified", "added", "addmod", "untracked", "deleted", "removed", "chmod", "ignored", "forced", "touched", "intent"]
GITENV = {"GIT_CONFIG_NOSYSTEM": "1", "GIT_CONFIG_GLOBAL": "/dev/null", "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@b", "GIT_COMMITTER_NAME": "a",
          "GIT_COMMITTER_EMAIL": "a@b", "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "LC_ALL": "C.UTF-8"}


def git(cwd, *args, stdin=None):
    subprocess.run(["git", "-c", "core.protectNTFS=false", "-c", "core.protectHFS=false", "-c", "init.defaultBranch=m", "-c", "core.autocrlf=false",
                    "-c", "advice.addEmbeddedRepo=false", "-C", cwd, *args],
                   env=GITENV, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, input=stdin)


def git_names():
    return tree.names().filter(lambda n: n.lower() not in (".git", ".gitignore", ".gitmodules", ".gitattributes") and not n.lower().startswith(("git~", ".git")))


def git_strategy(tier):
    return st.fixed_dictionaries({
        "tree": tree.nodes(min_size=2, max_size=14, name_st=git_names(), kinds="ddffffl"),
        "states": st.lists(st.sampled_from(STATES), min_size=14, max_size=14),
        "repos": st.one_of(st.just([0]), st.lists(st.integers(0, 6), min_size=1, max_size=3, unique=True)),
        "worktree": st.one_of(st.none(), st.none(), st.integers(0, 6)),
        "embed": st.booleans(), "start": st.integers(0, 10), "conf": st.sampled_from(["", "", "[status]\nshowUntrackedFiles=no\nbranch=true\nshort=true\n",
            "[status]\nshowUntrackedFiles=all\nrelativePaths=false\n[color]\nui=always\nstatus=always\n[core]\nquotePath=false\n"]),
        "opt": st.booleans(), "jobs": JOBS, "sched": SCHED, "test": st.sampled_from(["", "", "tracked=yes", "dirty=true", "repo=yes", "tracked=no", "dirty=no", "repo_dir:t"])})


def snapshot(repo):
    out = {}
    for d, ds, fs in os.walk(os.path.join(repo, ".git")):
        for n in fs + ds:
            p = os.path.join(d, n)
            s = os.lstat(p)
            out[p] = (s.st_mtime_ns, s.st_size, s.st_ino)
    return out


def run_git(ctx, spec):
    root = os.path.join(ctx.case, "t")
    b = tree.build(root, spec["tree"])
    dirs = [root] + [os.path.join(root, d) for d in b.dirs if d]
    repos = []
    for i in spec["repos"]:
        d = dirs[i % len(dirs)]
        if d not in repos:
            repos.append(d)
    repos.sort(key=len)

    def repo_of(d):
        best = None
        for r in repos:
            if (d == r or d.startswith(r + "/")) and (best is None or len(r) > len(best)):
                best = r
        return best
    files = {}
    for i, rel in enumerate(b.order):
        if b.entries[rel]["t"] == "d":
            continue
        state = spec["states"][i % len(spec["states"])]
        path = os.path.join(root, rel)
        link = b.entries[rel]["t"] == "l"
        if state in ("ignored", "forced"):
            if rel.endswith("/") or len(os.path.basename(rel)) > 190:
                state = "untracked"
            else:
                new = path + ".ign"
                if os.path.lexists(new):
                    state = "untracked"
                else:
                    os.rename(path, new)
                    path = new
        if link and state in ("chmod", "touched"):
            state = "tracked"
        files[path] = (state, link, repo_of(os.path.dirname(path)))
    tracked, dirty = {r: set() for r in repos}, {r: set() for r in repos}
    gone = set()
    for r in sorted(repos, key=lambda x: -len(x)):
        git(r, "init", "-q")
        with open(os.path.join(r, ".git/info/exclude"), "w") as f:
            f.write("*.ign\n")
        mine = {p: s for p, (s, link, rr) in files.items() if rr == r}

        def paths(*states):
            return [os.path.relpath(p, r) for p, s in mine.items() if s in states]

        def call(cmd, ps, *opts):
            if ps:
                git(r, "--literal-pathspecs", cmd, *opts, "--", *ps)
        call("add", paths("tracked", "modified", "deleted", "removed", "chmod", "touched"))
        call("add", paths("forced"), "-f")
        nested = [x for x in repos if x != r and x.startswith(r + "/") and repo_of(os.path.dirname(x)) == r]
        if spec["embed"]:
            for x in nested:
                try:
                    git(r, "--literal-pathspecs", "add", "--", os.path.relpath(x, r))
                except subprocess.CalledProcessError:
                    # E.g. a repository without a commit.
                    continue
                tracked[r].add(x)
        git(r, "commit", "-q", "--allow-empty", "-m", "m")
        for p, s in mine.items():
            link = files[p][1]
            if s in ("modified", "addmod"):
                if s == "addmod":
                    call("add", [os.path.relpath(p, r)])
                if link:
                    os.unlink(p)
                    os.symlink("other target", p)
                else:
                    with open(p, "a") as f:
                        f.write("more")
            elif s == "deleted":
                os.unlink(p)
                gone.add(p)
            elif s == "removed":
                gone.add(p)
            elif s == "chmod":
                os.chmod(p, 0o755)
            elif s == "touched":
                os.utime(p, (1000, 1000))
            if s in ("tracked", "modified", "added", "addmod", "deleted", "chmod", "forced", "touched", "intent"):
                tracked[r].add(p)
            if s in ("modified", "added", "addmod", "deleted", "removed", "chmod", "intent"):
                dirty[r].add(p)
        call("add", paths("added"))
        call("add", paths("intent"), "-N")
        call("rm", paths("removed"), "-q")
    # Removing the last file of a directory removes the directory.
    wt = None
    if spec["worktree"] is not None:
        r = repos[spec["worktree"] % len(repos)]
        wt = os.path.join(root, "worktree")
        if not os.path.lexists(wt):
            try:
                git(r, "worktree", "add", "-q", "--detach", wt)
            except subprocess.CalledProcessError:
                raise Skip
            repos.append(wt)
            tracked[wt] = {os.path.join(d, n) for d, ds, fs in os.walk(wt) for n in fs + [x for x in ds if os.path.islink(os.path.join(d, x))]} - {wt + "/.git"}
            dirty[wt] = set()
            for d, ds, fs in os.walk(wt):
                for n in ds:
                    if not os.path.islink(os.path.join(d, n)) and not os.listdir(os.path.join(d, n)):
                        # An embedded repository.
                        tracked[wt].add(os.path.join(d, n))
    unclear = set()
    for r in sorted(repos, key=lambda x: -len(x)):
        for x in repos:
            if r != wt and x in tracked[r]:
                if dirty[x]:
                    dirty[r].add(x)
                elif x in unclear or any(rr == x and s in ("untracked", "ignored") for s, _, rr in files.values()):
                    # Whether untracked files in an embedded repository count is a matter of configuration.
                    unclear.update([x, r])
    start = None
    alld = [d for d in dirs if os.path.isdir(d)]
    start = alld[spec["start"] % len(alld)] if spec["start"] > 5 else root
    want = {}
    for rel, s in tree.walk(start):
        p = os.path.join(start, rel)
        isdir = stat.S_ISDIR(s.st_mode)
        r = repo_of(p if isdir else os.path.dirname(p))
        # Inside of .git everything belongs to the repository around it.
        e = {"tracked": None, "dirty": None, "repo_dir": None, "repo": None}
        if r is not None:
            e["repo_dir"], e["repo"] = r, p == r
            for key, table in (("tracked", tracked[r]), ("dirty", dirty[r])):
                e[key] = any(x.startswith(p + "/") for x in table) if isdir else p in table
        want[p] = e
    before = {r: snapshot(r) for r in repos if r != wt}
    conf = os.path.join(ctx.case, "gitconfig")
    with open(conf, "w") as f:
        f.write(spec["conf"])
    argv = ["--jsonl", "--no-cache", f"-j{spec['jobs']}", "-o", "path,git.tracked,git.dirty,git.repo_dir,git.repo"]
    if spec["test"]:
        argv.append("git." + spec["test"])
        key, _, val = spec["test"].replace(":", "=").partition("=")
        want = {p: e for p, e in want.items() if e[key] is not None and (
            val in e[key].lower() if ":" in spec["test"] else e[key] is (val != "no"))}
    res = ctx.run(argv, start, opt=spec["opt"], sched=spec["sched"], env={"GIT_CONFIG_GLOBAL": conf, "GIT_CONFIG_NOSYSTEM": "1"})
    expect_clean(res, argv)
    if res.err:
        fail("messages on standard error", res, argv=argv)
    got = {}
    for line in res.out.decode("utf-8").splitlines():
        row = json.loads(line)
        path = row.pop("path")
        got[path] = {k.split(".")[-1]: v for k, v in row.items()}
    expect_same(list(got), list(want), res, argv=argv)
    for p, e in want.items():
        if p in unclear or any(x.startswith(p + "/") for x in unclear):
            e["dirty"] = got[p]["dirty"]
        if got[p] != e:
            fail("the state in git differs", res, argv=argv, path=p, got=got[p], expected=e, state=files.get(p))
    after = {r: snapshot(r) for r in before}
    if before != after:
        fail("the repository was modified", res, argv=argv, files=[p for r in before for p in set(before[r]) ^ set(after[r])
                                                                  or [x for x in before[r] if before[r][x] != after[r].get(x)]][:10])
    ctx.nontrivial = any(x["tracked"] is not None for x in want.values())
    for s in {s for s, _, r in files.values() if r}:
        ctx.mark("state:" + s)
    ctx.mark(f"repositories:{len(repos)}")
    if wt:
        ctx.mark("worktree")


def large_cases(tier, seed):
    """Contents of sizes that generated contents do not have."""
    contents = [[("tar", n, comp, fmt, None) for comp in ("", "gz", "bz2", "xz", "lzma")] for n, fmt in ((1100, "gnu"), (2500, "pax"), (10001, "gnu"))]
    contents.append([("much", "", "line %\n", n, end) for n, end in ((1001, ""), (10001, "x"), (65537, ""), (300000, "end"))])
    contents.append([("much", a, b * 1000, n, e) for a, b, n, e in (("", "x", 70, "\n"), ("a\n", "ä", 600, "\nb"), ("", " ", 1100, ""), ("", "\r", 70, "\n"), ("", "a b\n", 300, ""))])
    contents.append([("big", k, n) for k, n in ((1, 2 ** 20 - 1), (2, 2 ** 20), (3, 2 ** 20 + 1), (4, 5 * 2 ** 20 + 7), (5, 2 ** 24))])
    contents.append([("much", "#!/bin/" + "x" * n, "", 0, "\nrest\n") for n in (100, 255, 1000, 5000)] + [("much", "#!/bin/sh -e\n", "echo %\n", 20000, "")])
    contents.append([("much", "", "import m%\n", n, "") for n in (300, 3000)] + [("much", "", "import m%.sub as x%\n", 999, "def f():\n    from .a import b\n")])
    n = 0
    for i, group in enumerate(contents):
        for opt in (False, True):
            n += 1
            files = [{"content": c, "name": f"n{j}", "ext": None if c[0] == "tar" else ".py" if "import" in str(c[2]) else [".txt", ""][j % 2], "dir": j % 4, "kind": "f", "xattr": []}
                     for j, c in enumerate(group)]
            yield {"files": files, "user": False, "opt": opt, "jobs": 1 + n % 4, "sched": None, "cache": n % 3 == 0, "follow": False, "hide": 0,
                   "test": n + seed, "abs": False, "shm": False}


FSNAMES = {"proc", "sysfs", "tmpfs", "devpts", "ext2/ext3", "overlayfs", "xfs", "btrfs", "mqueue", "devtmpfs"}


def mounts_cases(tier, seed):
    """Directories that other file systems are mounted in; they are looked at, not entered."""
    for i, start in enumerate(["/", "/dev", "/proc/..", "/dev/.."]):
        for k in range(2):
            yield {"start": start, "jobs": 1 + (i + k + seed) % 4, "opt": bool(k), "how": ["value", "test"][(i + k) % 2]}


def run_mounts(ctx, spec):
    def stat(path):
        p = subprocess.run(["stat", "-f", "-c", "%T", "--", path], capture_output=True)
        return p.stdout.decode().strip()
    start = os.path.normpath(spec["start"])
    before = {e.path: stat(e.path) for e in os.scandir(start) if e.is_dir(follow_symlinks=False)}
    argv = ["--no-cache", "-D", spec["start"], "-d", "0", f"-j{spec['jobs']}", "--jsonl", "-o", "path,fs.type,fs.remote", "type=d"]
    if spec["how"] == "test":
        argv.append("fs.type=tmpfs")
    res = ctx.run(argv, ctx.case, opt=spec["opt"])
    expect_clean(res, argv)
    got = {os.path.normpath(r["path"]): r for r in map(json.loads, res.out.splitlines())}
    names = set()
    for path, name in before.items():
        if name not in FSNAMES or not os.path.isdir(path) or stat(path) != name:
            continue
        names.add(name)
        row = got.get(path)
        if spec["how"] == "test" and (row is not None) != (name == "tmpfs"):
            fail("fs.type=tmpfs selects the wrong directories", res, argv=argv, path=path, expected=name)
        if spec["how"] == "value" and (row is None or row["fs.type"] != name or row["fs.remote"] != KNOWN_FS.get(name, False)):
            fail("fs.type differs", res, argv=argv, path=path, got=row, expected=name)
    ctx.nontrivial = len(names) > 1
    ctx.mark("mounted:" + str(len(names)))


CHECK = Check(
    "C25",
    [Part("content", run_files, files_strategy, quick=600), Part("code", run_files, code_strategy, quick=200), Part("large", run_files, cases=large_cases, quick=16, weight=250),
     Part("mounts", run_mounts, cases=mounts_cases, quick=8, thorough=8, weight=20),
     Part("git", run_git, git_strategy, quick=350)],
    rule="Files with generated, structured and damaged contents, special and unreadable files, directories; git repositories with files in all states. "
         "Non-trivial: there is a regular file (a repository) the plugins have something to say about.",
    assumptions=["MIME types are compared with libmagic called directly.",
                 "Names of modules of relative imports are the name of the package directory and the module.",
                 "Values of the medium plugin for damaged files are not judged, nor are file names it does not know."])
