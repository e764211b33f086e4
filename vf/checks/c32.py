"""C32: help pages."""
import hashlib
import json
import os
import re

from hypothesis import strategies as st

from ..core import Check, Part
from ..lib import expect_clean, fail
from ..runner import REPO

CONTRIB = os.path.join(REPO, "plugins")
BUNDLED = {"file", "grep", "ignore", "medium", "mime", "tar", "git", "shebang", "py", "xattr", "fs"}

OPERATORS = ["=", ":", "~", "%", "+=", "-=", "+", "-"]
ALIASES = {"+=": ">=", "-=": "<=", "+": ">", "-": "<"}
# Operators, a valid value, and whether it can be counted.
TYPES = {"String": ("string", "= : ~ %", "x", True), "Path": ("path", "= : ~ %", "x", True), "ListOfStrings": ("listofstrings", "= : ~ %", "x", False),
         "Number": ("number", "+= -= + - =", "1", True), "Size": ("size", "+= -= + - =", "1", True), "Time": ("time", "+= -= + - =", "2020-01-01", True),
         "Duration": ("duration", "+= -= + - =", "1", True), "Boolean": ("boolean", "=", "yes", True), "Mode": ("mode", "= : ~", "644", True),
         "FileType": ("filetype", "=", "f", True)}

WORDS = st.one_of(
    st.sampled_from(["a", "file", "value", "Count", "foo,", "bar.", "(baz)", ".txt", ".SH", ".br", "...", ".", "'", "'quoted'", "'two", "words'", "file's", "don't", "``code``", "`bold`", "ff(1)", "git-log(1)", "-a",
                     "--opt-x", "-", "--", "x-y", "\\n", "\\fB", "\\", "a\\", "\\e", "\\&x", "\\(bu", "C:\\dir", "ä", "日本", "\"dq\"", "\"", "100%", "#x", "::help", "e.g.", "user@host", "$", "{x}", "[y]", "<z>", "\\-z", "\\foo(1)"]),
    st.text(alphabet="ab.'\\-\"`XY", min_size=1, max_size=5))
SPACES = st.sampled_from([" ", " ", " ", "\n       ", "\n", "  ", "\n\n", "\n\n       ", "\n   \n"])


@st.composite
def texts(draw, none=False):
    if none and draw(st.integers(0, 4)) == 0:
        return None
    out = draw(st.sampled_from(["", "", "", "\n", " "]))
    for w in draw(st.lists(WORDS, max_size=8)):
        out += w + draw(SPACES)
    return out


IDENT = st.from_regex(r"[a-z][a-z0-9_]{0,7}", fullmatch=True).map(lambda s: "q" + s)


@st.composite
def strategy(draw):
    types = draw(st.lists(st.fixed_dictionaries({
        "name": IDENT.map(lambda s: "T" + s), "ops": st.lists(st.sampled_from(OPERATORS), min_size=1, unique=True), "doc": texts(none=True), "count": st.sampled_from(["COUNT", "TOTAL", "UNCOUNTABLE"])}),
        max_size=2, unique_by=lambda t: t["name"].lower()))
    names = list(TYPES) + [t["name"] for t in types] * 3
    plugins = draw(st.lists(st.fixed_dictionaries({
        "name": IDENT, "doc": texts(none=True), "cache": st.booleans(), "author": st.one_of(st.none(), texts()), "email": st.one_of(st.none(), st.just("jane@example.com")),
        "attrs": st.lists(st.tuples(IDENT, st.sampled_from(names), texts()), max_size=4, unique_by=lambda a: a[0])}), min_size=1, max_size=3, unique_by=lambda p: p["name"]))
    return {"types": types, "plugins": plugins, "page": draw(st.sampled_from(["attributes", "plugins", "plugin", "types"])), "pick": draw(st.integers(0, 5)), "opt": draw(st.booleans()), "rc": draw(st.sampled_from([0, 0, 0, 0, 1])),
            "op": draw(st.sampled_from(OPERATORS)), "alias": draw(st.booleans())}


def source(s):
    out = ["from libff.plugin import *", "from libff.type import Type, Count, Path, FileType, Mode"]
    for t in s["types"]:
        out += [f"class {t['name']}(Type):", f"    {t['doc']!r}" if t["doc"] is not None else "    pass", f"    operators = {tuple(t['ops'])!r}", "    sort_none = ''", f"    count = Count.{t['count']}",
                "    @classmethod", "    def test(cls, entry, test, value): return True"]
    for p in s["plugins"]:
        out += [f"class {p['name'].capitalize()}(Plugin):", f"    {p['doc']!r}" if p["doc"] is not None else "    pass", f"    use_cache = {p['cache']}"]
        for key in ("author", "email"):
            if p[key] is not None:
                out.append(f"    {key} = {p[key]!r}")
        out.append("    attributes = [" + ", ".join(f"({n!r}, {t}, {h!r})" for n, t, h in p["attrs"]) + "]")
        out += ["    def can_handle(self, entry): return False", "    def process(self, entry, cached): return {}"]
    return "\n".join(out) + "\n"


class Roff:
    """Interpret the requests and escape sequences of a manual page."""

    def __init__(self, text):
        self.title = None
        self.sections = []          # [title, [[key or None, [lines]]]]
        self.errors = []
        for line in text.split("\n"):
            if line[:1] in (".", "'"):
                self.request(line)
            else:
                self.text(line)

    def request(self, line):
        m = re.match(r"[.'](TH|nh|SH|SS|IP|PP|br)(?: (.*))?$", line)
        if not m:
            self.errors.append(f"unknown request: {line!r}")
        elif m[1] == "TH":
            self.title = self.plain(m[2])
        elif m[1] == "SH":
            self.sections.append([self.plain(m[2]), [[None, [""]]]])
        elif m[1] == "IP":
            n = re.fullmatch(r'"(.*)" \d+', m[2])
            if n:
                self.sections[-1][1].append([self.plain(n[1]), [""]])
            else:
                self.errors.append(f"unknown request: {line!r}")
        elif m[1] == "br" and self.sections:
            self.sections[-1][1][-1][1].append("")
        elif m[1] in ("PP", "SS") and self.sections:
            self.sections[-1][1].append([None, [self.plain(m[2] or "")]])

    def text(self, line):
        if self.sections:
            self.sections[-1][1][-1][1][-1] += " " + self.plain(line)
        elif line.strip():
            self.errors.append(f"text before the first section: {line!r}")

    def plain(self, text):
        out, i = "", 0
        while i < len(text):
            if text[i] != "\\":
                out += text[i]
                i += 1
                continue
            for esc, val in (("\\fB", ""), ("\\fI", ""), ("\\fR", ""), ("\\fP", ""), ("\\-", "-"), ("\\e", "\\"), ("\\(rs", "\\"), ("\\[rs]", "\\"), ("\\&", ""), ("\\'", "'"), ("\\(aq", "'"), ("\\(dq", '"'), ("\\.", "."),
                             ("\\ ", " "), ("\\\\", "\\")):
                if text.startswith(esc, i):
                    out += val
                    i += len(esc)
                    break
            else:
                self.errors.append(f"unknown escape sequence: {text[i:i + 4]!r}")
                i += 2
        return out


def words(text):
    # Backticks are used for highlighting.
    return (text or "").replace("`", "").split()


def page(ctx, argv, spec, root, text=None, cold=False):
    """Call ff with a stand-in for man(1); returns the page."""
    bindir = os.path.join(ctx.case, "bin")
    out = os.path.join(ctx.case, "page")
    os.makedirs(bindir, exist_ok=True)
    with open(os.path.join(bindir, "man"), "w") as f:
        f.write(f"#!/bin/sh\nprintf '%s\\n' \"$@\" > '{out}.args'\ncat > '{out}'\nexit {spec['rc']}\n")
    os.chmod(os.path.join(bindir, "man"), 0o755)
    env = plugins_env(ctx, spec, text)
    env["PATH"] = bindir + ":" + os.environ["PATH"]
    res = ctx.run(argv, root, opt=spec["opt"], env=env)
    if spec["rc"]:
        if res.rc == 0 or res.traceback or not res.err:
            fail("man(1) failed but ff does not report it", res, argv=argv)
        return res, None
    expect_clean(res)
    if not os.path.exists(out):
        fail("man(1) was not called", res, argv=argv)
    with open(out + ".args") as f:
        args = f.read().split("\n")
    if "-" not in args:
        fail("man(1) is called in another way", res, args=args)
    with open(out, encoding="utf-8") as f:
        roff = Roff(f.read())
    if roff.errors:
        fail("the page is damaged", res, argv=argv, errors=roff.errors[:5])
    return res, roff


def plugins_env(ctx, spec, text):
    dirs = [CONTRIB] if spec["opt"] else []
    if text is not None:
        d = os.path.join(ctx.case, "p")
        os.makedirs(d, exist_ok=True)
        with open(plugin_path(ctx, text), "w") as f:
            f.write(text)
        dirs.insert(0, d)
    return {"FF_PLUGIN_DIRS": ":".join(dirs)}


def plugin_path(ctx, text):
    # A name of its own for each text, because of compiled modules that are kept.
    return os.path.join(ctx.case, "p", f"help_{hashlib.md5(text.encode()).hexdigest()[:12]}.py")


def flow(blocks):
    return [w for key, lines in blocks for line in ([key] if key else []) + lines for w in words(line)]


def type_info(s):
    info = {k: (name, ops.split(), value, count) for k, (name, ops, value, count) in TYPES.items()}
    for t in s["types"]:
        info[t["name"]] = (t["name"].lower(), t["ops"], "x", t["count"] != "UNCOUNTABLE")
    return info


def check_attributes(res, p, blocks, info, prefix):
    got = [(key, words(" ".join(lines))) for key, lines in blocks if key is not None]
    exp = []
    for n, t, h in p["attrs"]:
        name, ops, _, _ = info[t]
        exp.append((f"{prefix}{n}", ["Type:", name, "(", *ops, ")", *words(h)]))
    def norm(items):
        # The order of the operators is of no importance.
        return [(k, w[:3], sorted(w[3:w.index(")")]), w[w.index(")"):]) if w[2:3] == ["("] and ")" in w else (k, w) for k, w in items]

    if norm(got) != norm(exp):
        fail("list of attributes", res, got=got[:6], expected=exp[:6])


def run(ctx, s):
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    text = source(s)
    info = type_info(s)
    p = s["plugins"][s["pick"] % len(s["plugins"])]
    argv = ["--help", p["name"]] if s["page"] == "plugin" else [f"--help-{s['page']}"]
    res, roff = page(ctx, argv, s, root, text)
    ctx.mark(s["page"])
    if roff is None:
        ctx.mark("man fails")
        ctx.nontrivial = True
        return
    titles = [t for t, _ in roff.sections]
    new = [q["name"] for q in s["plugins"]]
    if s["page"] in ("attributes", "plugins"):
        names = [t[:-7].lower() for t in titles[1:-1]]
        key = (lambda n: "" if n == "file" else n) if s["page"] == "attributes" else None
        if titles[:1] + titles[-1:] != ["DESCRIPTION", "SEE ALSO"] or names != sorted(names, key=key) or len(set(names)) != len(names) or not set(names) >= set(new) | BUNDLED:
            fail("sections of the page", res, argv=argv, got=titles, expected=sorted(set(new) | BUNDLED))
        for q in s["plugins"]:
            blocks = roff.sections[titles.index(f"{q['name']} plugin".upper())][1]
            if s["page"] == "attributes":
                if flow(blocks[:1]) != words(q["doc"]):
                    fail("description of a plugin", res, got=flow(blocks[:1]), expected=words(q["doc"]))
                check_attributes(res, q, blocks, info, q["name"] + ".")
            else:
                check_details(plugin_path(ctx, text), res, q, blocks[0][1], False)
                if flow(blocks)[-len(words(q["doc"])) or 10 ** 6:] != words(q["doc"]):
                    fail("description of a plugin", res, got=flow(blocks), expected=words(q["doc"]))
    elif s["page"] == "plugin":
        exp = (["DESCRIPTION"] if p["doc"] else []) + ["ATTRIBUTES", "DETAILS", "SEE ALSO"]
        if titles != exp:
            fail("sections of the page", res, argv=argv, got=titles, expected=exp)
        if p["doc"] and flow(roff.sections[0][1]) != words(p["doc"]):
            fail("description of a plugin", res, got=flow(roff.sections[0][1]), expected=words(p["doc"]))
        check_attributes(res, p, roff.sections[-3][1], info, p["name"] + ".")
        check_details(plugin_path(ctx, text), res, p, roff.sections[-2][1][0][1], True)
    else:
        for t in s["types"]:
            title = f"{t['name'].lower()} type".upper()
            if titles.count(title) != 1:
                fail("sections of the page", res, argv=argv, got=titles, missing=title)
            lines = roff.sections[titles.index(title)][1][0][1]
            got = flow(roff.sections[titles.index(title)][1])
            exp = ["Name:", t["name"].lower(), "Operators:", *t["ops"], "Count:", t["count"].lower(), *words(t["doc"])]
            if got != exp or len(lines) != 3:
                fail("description of a type", res, got=got, expected=exp)
    # What is listed is what can be used.
    if p["attrs"]:
        n, t, _ = p["attrs"][s["pick"] % len(p["attrs"])]
        name, ops, value, count = info[t]
        op = ALIASES.get(s["op"], s["op"]) if s["alias"] else s["op"]
        env = plugins_env(ctx, s, text)
        attr = f"{p['name']}.{n}"
        res = ctx.run([f"{attr} {op} {value}"], root, opt=s["opt"], env=env)
        if res.rc != (0 if s["op"] in ops else 12) or res.traceback:
            fail("operators of an attribute", res, test=f"{attr} {op} {value}", operators=ops)
        res = ctx.run(["--count", attr], root, opt=s["opt"], env=env)
        if res.traceback or (res.rc == 0) != count:
            fail("--count of an attribute", res, attr=attr, countable=count)
        expect_clean(ctx.run(["-o", attr, "--sort", attr], root, opt=s["opt"], env=env))
    ctx.nontrivial = bool(p["attrs"]) and any(q["doc"] or q["attrs"] and q["attrs"][0][2].strip() for q in s["plugins"])


def check_details(path, res, p, lines, full):
    got = [words(x) for x in lines]
    exp = [["Name:", p["name"]], ["Source:", "system"], ["Path:", path], ["Uses", "cache:", "Yes" if p["cache"] else "No"]]
    if full:
        exp += [["Author:", *(words(p["author"]) if p["author"] is not None else ["Lars", "Gustäbel"])], ["Email:", p["email"] or "lars@gustaebel.de"]]
    if got[:len(exp)] != exp:
        fail("details of a plugin", res, got=got, expected=exp)


def page_cases(tier, seed):
    return [{"kind": k, "opt": o, "rc": 0} for k in ("full", "attributes", "types", "bundled", "help", "version", "nosuch") for o in (False, True)]


def options(ctx, s, root):
    """Return the list of (option strings, metavar, text) from --help."""
    res = ctx.run(["--help"], root, opt=s["opt"], env=plugins_env(ctx, s, None), cold=True)
    expect_clean(res)
    items, current = [], None
    for line in os.fsdecode(res.out).split("\n"):
        m = re.match(r"  (-\S.*?)(?:  +(\S.*))?$", line)
        if m:
            current = [m[1], (m[2] or "").split()]
            items.append(current)
        elif line.startswith("      ") and current:
            current[1] += line.split()
        else:
            current = None
    return res, items


def run_pages(ctx, s):
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    ctx.nontrivial = True
    env = plugins_env(ctx, s, None)
    if s["kind"] == "version":
        a = ctx.run(["--version"], root, opt=s["opt"], env=env)
        expect_clean(a)
        if not re.search(rb"\d", a.out):
            fail("--version", a)
    elif s["kind"] == "nosuch":
        res = ctx.run(["--help", "nosuchplugin"], root, opt=s["opt"], env=env)
        if res.rc != 2 or res.traceback or b"nosuchplugin" not in res.err:
            fail("help for a plugin that does not exist", res)
    elif s["kind"] == "help":
        res, items = options(ctx, s, root)
        if len(items) < 20:
            fail("--help lists too few options", res)
        for head, text in items:
            if not text:
                fail("an option without help text", res, option=head)
            for name in re.findall(r"(?:^|[ ,])(--?[a-zA-Z0-9][\w-]*)", head):
                r = ctx.run([name], root, opt=s["opt"], env=env, cold=True)
                if r.traceback or b"unknown option" in r.err:
                    fail("an option that is listed is not known", r, option=name)
    elif s["kind"] == "full":
        help_res, items = options(ctx, s, root)
        res, roff = page(ctx, ["--help-full"], s, root)
        titles = [t for t, _ in roff.sections]
        with open(os.path.join(REPO, "libff/manpage.template")) as f:
            template = f.read()
        exp = [ln.strip() for ln in template.split("\n") if re.fullmatch("[A-Z ]+", ln.rstrip()) and ln.strip()]
        if [t for t in titles if t in exp] != exp:
            fail("sections of the page", res, got=titles, expected=exp)
        pos = 0
        allwords = [w for t, blocks in roff.sections for w in words(t) + flow(blocks)]
        for word in words(" ".join(ln for ln in template.split("\n") if not ln.strip().startswith("::"))):
            try:
                pos = allwords.index(word, pos) + 1
            except ValueError:
                fail("a word is missing in the page", res, word=word, near=allwords[pos:pos + 10])
        keys = {tuple(words(k)): words(" ".join(lines)) for t, blocks in roff.sections for k, lines in blocks if k}
        for head, text in items:
            if keys.get(tuple(words(head))) != [w for w in words(" ".join(text))]:
                fail("an option is missing in the page", res, option=head, got=keys.get(tuple(words(head))), expected=text)
    elif s["kind"] in ("attributes", "bundled"):
        res, roff = page(ctx, ["--help-attributes"], s, root)
        listed = []
        for t, blocks in roff.sections[1:-1]:
            for key, lines in blocks:
                if key:
                    w = words(" ".join(lines))
                    listed.append((key.replace("[file.]", "file."), w[1], w[3:w.index(")")]))
        file_attrs = [k for k, _, _ in listed if k.startswith("file.")]
        if s["kind"] == "attributes":
            a = ctx.run(["--jsonl", "-o", "file"], root, opt=s["opt"], env=env)
            with open(os.path.join(root, "x"), "w"):
                pass
            a = ctx.run(["--jsonl", "-o", "file"], root, opt=s["opt"], env=env)
            keys = set(json.loads(a.out.splitlines()[0]))
            exp = {k if k in keys else k[5:] for k in file_attrs}
            if keys != exp:
                fail("attributes of the file plugin", a, listed=sorted(exp - keys), missing=sorted(keys - exp))
            values = {v[0]: v[2] for v in TYPES.values()}
            for key, name, ops in listed:
                for op in OPERATORS:
                    if key.startswith("file.") and name in values:
                        r = ctx.run([f"{key} {op} {values[name]}"], root, opt=s["opt"], env=env)
                        if r.traceback or r.rc != (0 if op in ops else 12):
                            fail("operators of an attribute", r, attribute=key, op=op, operators=ops)
        else:
            for name in {k.split(".")[0] for k, _, _ in listed}:
                res, roff = page(ctx, ["--help", name], s, root)
                got = []
                for t, blocks in roff.sections:
                    for key, lines in blocks:
                        if key:
                            w = words(" ".join(lines))
                            got.append((key.replace("[file.]", "file."), w[1], w[3:w.index(")")]))
                if got != [x for x in listed if x[0].startswith(name + ".")]:
                    fail("list of attributes", res, plugin=name)
    else:
        res, roff = page(ctx, ["--help-types"], s, root)
        got = {}
        for t, blocks in roff.sections[1:-1]:
            w = flow(blocks)
            got[w[1]] = w[3:w.index("Count:")]
        for name, ops, _, _ in TYPES.values():
            if sorted(got.get(name, [])) != sorted(ops.split()):
                fail("operators of a type", res, type=name, got=got.get(name), expected=ops)
    ctx.mark(s["kind"])


CHECK = Check(
    "C32", [Part("plugins", run, lambda tier: strategy(), quick=300), Part("pages", run_pages, cases=page_cases)],
    rule="Generated plugins and types (descriptions with leading dots and quotes, backslashes, dashes, backticks, several paragraphs, none at all) and a stand-in for man(1) that keeps the page: a roff interpreter reads it, and every plugin, type, attribute, "
         "operator and word must be there in order; the operators that are listed, and no others, are accepted, countable attributes can be counted. Part 'pages' does this for the bundled pages; "
         "non-trivial: a plugin with attributes and descriptions.",
    assumptions=["man(1) is not installed here, a stand-in reads the page.", "The interpreter knows the requests and escape sequences ff uses, everything else counts as damage.", "Paragraphs and fonts are not judged, only words and their order."])
