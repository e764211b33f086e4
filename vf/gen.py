"""Generated tests and expressions, with their meaning."""
import os
import re

from hypothesis import strategies as st

from . import model

PLUGIN = '''
from libff.plugin import *

class Vfslow(Plugin):
    """Values that are derived from the name (slow)."""
    speed = Speed.SLOW
    attributes = [("slen", Number, "length"), ("srev", String, "reversed name"), ("sflag", Boolean, "flag"),
                  ("slist", ListOfStrings, "characters")]
    def can_handle(self, entry):
        return "b" not in entry.name
    def process(self, entry, cached):
        if entry.name.startswith("f"):
            raise NoData
        yield "slen", len(entry.name)
        if "a" in entry.name:
            yield "srev", entry.name[::-1]
        yield "sflag", len(entry.name) % 2 == 0
        # Sets are allowed as well.
        chars = sorted(set(entry.name))
        yield "slist", chars if len(chars) > 1 else set(chars)

class Vffast(Plugin):
    """Values that are derived from the name (fast)."""
    speed = Speed.FAST
    attributes = [("fnum", Number, "number of dots"), ("fup", String, "upper case name")]
    def can_handle(self, entry):
        return True
    def process(self, entry, cached):
        yield "fnum", entry.name.count(".")
        yield "fup", entry.name.upper()

class Vfnorm(Plugin):
    """Normal speed, sometimes without data."""
    attributes = [("nlen", Number, "length of the path"), ("nmode", Mode, "perm"), ("nsize", Size, "size")]
    def can_handle(self, entry):
        return entry.type != "directory"
    def process(self, entry, cached):
        return {"nlen": len(entry.relpath), "nmode": entry.perm, "nsize": entry.size + 1}
'''

PLUGIN_KINDS = {"vfslow.slen": "number", "vfslow.srev": "string", "vfslow.sflag": "bool", "vfslow.slist": "list",
                "vffast.fnum": "number", "vffast.fup": "string", "vfnorm.nlen": "number",
                "vfnorm.nmode": "mode", "vfnorm.nsize": "number"}
KINDS = {**model.KIND, **PLUGIN_KINDS, **{k.split(".")[1]: v for k, v in PLUGIN_KINDS.items()}}


def plugin_values(e):
    """The values the test plugins give for an entry."""
    n = e["name"]
    a = {}
    if "b" not in n and not n.startswith("f"):
        a["slen"] = len(n)
        if "a" in n:
            a["srev"] = n[::-1]
        a["sflag"] = len(n) % 2 == 0
        a["slist"] = sorted(set(n))
    a["fnum"] = n.count(".")
    a["fup"] = n.upper()
    if e["type"] != "directory":
        a["nlen"] = len(e["relpath"])
        a["nmode"] = e["perm"]
        a["nsize"] = e["size"] + 1
    return a


def add_plugin_values(es):
    for e in es:
        e.update(plugin_values(e))
        for k in PLUGIN_KINDS:
            if k.split(".")[1] in e:
                e[k] = e[k.split(".")[1]]
    return es


def plugin_env(ctx, opt, text=PLUGIN, tag="gen"):
    """Write the plugin module (once per worker); returns environment variables."""
    d = os.path.join(ctx.scratch, "plug-" + tag)
    if not os.path.isdir(d):
        os.makedirs(d)
        with open(os.path.join(d, f"{tag}_plugins.py"), "w") as f:
            f.write(text)
    dirs = [d]
    if opt:
        from .runner import REPO
        dirs.append(os.path.join(REPO, "plugins"))
    return {"FF_PLUGIN_DIRS": ":".join(dirs)}


FAST_ATTRS = ["name", "name", "path", "ext", "relpath", "dir", "namex", "pathx", "link", "target", "user", "group", "type", "type",
              "size", "depth", "links", "uid", "mtime", "hidden", "hide", "exec", "empty", "broken", "samedev",
              "perm", "mode", "root"]
OPS = {"string": ["=", ":", "~"], "path": ["=", ":", "~"], "list": ["=", ":", "~"],
       "number": ["=", "+=", "-=", "+", "-", ">=", "<=", ">", "<"], "bool": ["="], "type": ["="],
       "mode": ["=", ":", "~"]}
OPS["size"] = OPS["time"] = OPS["number"]
LITERALS = {"string": ["a", "foo", ".txt", "txt", "A", "Foo", "root", "b", "x"], "path": ["a", "foo", "/", "a/b", ".", "Foo"],
            "list": ["a", "x", "o", "Z"], "number": ["0", "1", "2", "3", "5", "100"], "size": ["0", "1", "2", "1K", "1k", "1.5K", "100b"],
            "time": ["0", "1", "1589234400"], "bool": ["yes", "no", "true", "FALSE", "1", "0", "on", "Off", "t", "n"],
            "type": ["f", "d", "l", "file", "directory", "symlink", "p", "pipe", "fifo", "s", "socket", "char"],
            "mode": ["644", "755", "0", "700", "111", "4000", "7777"]}
TRUE = ("true", "t", "1", "yes", "y", "on")


def atom_strategy(attrs):
    return st.fixed_dictionaries({
        "a": st.sampled_from(attrs),
        "q": st.booleans(),
        "op": st.integers(0, 8),
        "src": st.one_of(st.tuples(st.just("e"), st.integers(0, 20), st.integers(0, 40)),
                         st.tuples(st.just("l"), st.integers(0, 20), st.just(0))),
    })


ATTRS_ALL = FAST_ATTRS + list(PLUGIN_KINDS) + [k.split(".")[1] for k in PLUGIN_KINDS]


def acceptable(v):
    """May the string be used literally as the value of a string test?"""
    return v != "" and v.strip() == v and v[0] != "{" and v[0] not in "=" and "\0" not in v


def resolve(atom, es, spaced=False):
    """-> (token, attr, op, parsed value) for an atom; es: attribute dicts of the entries."""
    attr = atom["a"]
    kind = KINDS[attr]
    op = OPS[kind][atom["op"] % len(OPS[kind])]
    how, i, j = atom["src"]
    lit = LITERALS[kind][i % len(LITERALS[kind])]
    text = None
    if how == "e" and es:
        v = es[i % len(es)].get(attr)
        if v is not None:
            if kind in ("string", "path", "list"):
                if kind == "list":
                    v = v[j % len(v)] if v else ""
                if op in (":", "~") and len(v) > 2:
                    v = v[j % 3:][:2 + j % 4]
                if acceptable(v):
                    text = v
            elif kind in ("number", "size", "time"):
                text = str(max(0, v + (j % 3 - 1 if j % 2 else 0)))
            elif kind == "mode":
                text = oct(v & 0o7777)[2:]
            elif kind == "type":
                text = v
            elif kind == "bool":
                text = "yes" if v else "no"
    if text is None:
        text = lit
    if kind in ("string", "path", "list"):
        value = re.escape(text) if op == "~" else text
        if op == "~" and j % 5 == 1:
            value = "^" + value
        elif op == "~" and j % 5 == 2:
            value = value + "$"
        text = value
    elif kind == "size":
        value = {"1K": 1024, "1k": 1024, "1.5K": 1536, "100b": 100}.get(text)
        value = int(text) if value is None else value
    elif kind in ("number", "time"):
        value = int(text)
    elif kind == "bool":
        value = text.lower() in TRUE
    elif kind == "mode":
        value = int(text, 8)
    else:
        value = text
    # A plain number with four, eight or twelve digits may be a time or a date.
    if kind == "time" and len(text) in (4, 8, 12):
        text, value = "1700000000", 1700000000
    name = attr
    if atom["q"] and attr in model.KIND:
        name = "file." + attr
    sep = " " if spaced else ""
    return f"{name}{sep}{op}{sep}{text}", attr, op, value


# ------------------------------------------------------------------ expressions

def expr_strategy(attrs, max_leaves=8):
    leaf = atom_strategy(attrs).map(lambda a: ["t", a])
    return st.recursive(
        leaf,
        lambda ch: st.one_of(
            st.lists(ch, min_size=1, max_size=4).map(lambda x: ["and", x]),
            st.lists(ch, min_size=1, max_size=4).map(lambda x: ["or", x]),
            ch.map(lambda x: ["not", x]),
            ch.map(lambda x: ["br", x])),
        max_leaves=max_leaves)


class Renderer:
    def __init__(self, style, es):
        self.style = style or [0]
        self.i = 0
        self.es = es
        self.atoms = 0

    def bit(self, n):
        self.i += 1
        return self.style[self.i % len(self.style)] % n

    def word(self, w):
        return (w.upper(), w.lower(), w.capitalize(), w.upper())[self.bit(4)]

    def group(self, toks):
        if self.bit(2):
            return ["(", *toks, ")"]
        return ["{{", *toks, "}}"]

    def render(self, node, prec=0):
        """prec 0: anywhere, 1: operand of AND, 2: operand of NOT."""
        kind, x = node
        if kind == "t":
            self.atoms += 1
            return [resolve(x, self.es, self.bit(5) == 0)[0]]
        if kind == "br":
            return self.group(self.render(x))
        if kind == "not":
            toks = [self.word("not")] + self.render(x, 2)
            return self.group(toks) if prec == 2 else toks
        out = []
        for k, sub in enumerate(x):
            if k:
                if kind == "or":
                    out.append(self.word("or"))
                elif self.bit(2):
                    out.append(self.word("and"))
            out += self.render(sub, 1 if kind == "and" else 0)
        if prec == 2 or (prec == 1 and kind == "or"):
            return self.group(out)
        return out


def evaluate(node, entry, es, case):
    kind, x = node
    if kind == "t":
        _, attr, op, value = resolve(x, es)
        return model.test(entry, attr, op, value, case, KINDS)
    if kind == "br":
        return evaluate(x, entry, es, case)
    if kind == "not":
        return not evaluate(x, entry, es, case)
    vals = [evaluate(s, entry, es, case) for s in x]
    return all(vals) if kind == "and" else any(vals)


def count_atoms(node):
    kind, x = node
    if kind == "t":
        return 1
    if kind in ("br", "not"):
        return count_atoms(x)
    return sum(count_atoms(s) for s in x)
