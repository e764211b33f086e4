"""C03: string tests."""
import os
import re
import warnings

from hypothesis import strategies as st

from .. import gen, model, tree
from ..core import Check, Part, Skip
from ..lib import JOBS, expect_clean, expect_same, fail
from ..tree import split0

warnings.simplefilter("ignore")

ATTRS = ["name", "name", "path", "ext", "relpath", "dir", "namex", "pathx", "link", "target", "user", "group", "root",
         "srev", "slist", "slist", "fup", "vfslow.srev"]
EXTRA = ["straße", "STRASSE", "İstanbul", "ıI", "Kelvin\u212a", "ΣΑΣ", "ςσ", "Éé", "abc", "ABC", "aBc", "a b ", "x=y", "=a", "a:b", "~a", "%a",
         "a\nb", "ab\nabc", "x\naBc\n", "abc\n", "(a", "[a", "a+", "a.b", "a*", "^a", "a$", "a|b", "\\d", "12", "aA1"]


def strategy(tier):
    return st.fixed_dictionaries({
        "tree": tree.nodes(14 if tier == "thorough" else 9, min_size=2, kinds="ddfffflp", name_st=tree.names(extra=EXTRA)),
        "attr": st.sampled_from(ATTRS),
        "op": st.sampled_from("==::~~~"),
        "src": st.integers(0, 30),
        "cut": st.tuples(st.integers(0, 12), st.integers(1, 12), st.booleans()),
        "how": st.sampled_from(["same", "same", "upper", "lower", "swap", "extra", "change", "text", "fold", "fixed"]),
        "text": st.one_of(st.sampled_from(EXTRA), st.text(alphabet=tree.WEIRD_CH, min_size=1, max_size=5)),
        "re": st.lists(st.integers(0, 40), max_size=8),
        "ws": st.sampled_from([("", "")] * 4 + [(" ", " "), ("", " "), ("\t", "\n")]),
        "case": st.sampled_from(["smart", "smart", "ignore", "sensitive", None]),
        "via": st.sampled_from(["expr", "expr", "not", "exclude", "or"]),
        "jobs": JOBS, "opt": st.booleans(),
    })


# regular expressions about empty strings, lines and ends of strings
FIXED = ["^$", "$", "^", ".*", "^.*$", "^.$", "^..$", "x*$", "^a", "a$", "b$", "^b", "^abc", "c$", "c\\Z", "\\Aa", "a.b", "b.a", "b\\sa", "^[^a]*$", "\\n",
         "^\\w+$", "^$|a", "(?m)^abc$", "(?s)a.b", "(?x) a b", "^(?!.*a)", "\\b", "(?i)AB", "\\Bb", "[^a-z]", "(a)(b)?\\1"]


def regexify(value, ops):
    """Turn a string into a regular expression that is similar to it."""
    out = []
    for i, ch in enumerate(value[:10]):
        k = ops[i % len(ops)] if ops else 0
        e = re.escape(ch)
        nxt = chr((ord(ch) + 1) % 0xd7ff) if ord(ch) < 0xd7fe else "x"
        out.append({1: ".", 2: "\\w", 3: "\\S", 4: f"[{e}]" if ch not in "^" else e, 5: f"[^{e}]", 6: f"({e}|z)", 7: e + "?", 8: e + "*",
                    9: e + "+", 10: "\\W", 11: "\\D", 12: ".*", 13: "(?:" + e + ")", 14: e + "{1,2}", 15: "\\d",
                    16: "\\b" + e, 17: "[a-z]", 18: "[A-Z]", 19: re.escape(nxt), 20: e + "|", 21: "\\s", 22: "(?i:" + e + ")",
                    23: ch}.get(k, e))
    s = "".join(out)
    if ops and ops[0] % 5 == 1:
        s = "^" + s
    if ops and ops[-1] % 5 == 2:
        s += "$"
    return s


def make_value(spec, es):
    pool = []
    for e in es:
        v = e.get(spec["attr"])
        if isinstance(v, list):
            pool += v
        elif v:
            pool.append(v)
    text = spec["text"]
    v = pool[spec["src"] % len(pool)] if pool else text
    a, n, cut = spec["cut"]
    if cut and spec["op"] != "=":
        v = v[a % max(1, len(v)):][:n]
    how = spec["how"]
    if how == "fixed":
        if spec["op"] == "~":
            return FIXED[(spec["src"] * 7 + a) % len(FIXED)]
        how = "same"
    v = {"same": v, "upper": v.upper(), "lower": v.lower(), "swap": v.swapcase(), "extra": v + text[:1], "text": text,
         "fold": v.casefold(), "change": v[:a % (len(v) + 1)] + text[:1] + v[a % (len(v) + 1) + 1:]}[how]
    if spec["op"] == "~":
        v = regexify(v, spec["re"])
    return v


def usable(v):
    return v and v.lstrip() == v and v[0] != "{" and "\0" not in v


def differs_by_definition(op, pattern, values, ic):
    """Is a case-insensitive match a matter of definition here (special characters)?"""
    if not ic or op != "~":
        return False
    for v in values:
        if (re.search(pattern, v, re.I) is None) != (re.search(pattern, v.lower(), re.I) is None):
            return True
        if (re.search(pattern, v, re.I) is None) != (re.search(pattern.lower(), v.lower()) is None) \
                and re.fullmatch(r"[^\\A-Z]*", pattern):
            return True
    return False


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    tree.build(root, spec["tree"])
    es = gen.add_plugin_values(model.entries([(".", root)]))
    attr, op, case = spec["attr"], spec["op"], spec["case"]
    value = make_value(spec, es)
    if not usable(value):
        raise Skip()
    bad = False
    if op == "~":
        try:
            re.compile(value)
        except (re.error, OverflowError):
            bad = True
    w1, w2 = spec["ws"]
    token = f"{attr}{w1}{op}{w2}{value}"
    argv = ["--no-cache", "-0", f"-j{spec['jobs']}"] + (["--case", case] if case else [])
    via = spec["via"]
    argv += {"expr": [token], "not": ["not", token], "exclude": ["-e", token], "or": ["name=nonexistent", "or", token]}[via]
    res = ctx.run(argv, root, opt=spec["opt"], env=gen.plugin_env(ctx, spec["opt"]))
    if bad:
        ctx.mark("invalid regular expression")
        if res.rc != 12 or res.out or not res.err or res.traceback or res.timed_out:
            fail("an invalid regular expression was not rejected with exit code 12", res, argv=argv)
        return
    case = case or "smart"
    ic = model.ignore_case(case, value)

    def matches(e):
        return model.test(e, attr, op, value, case, gen.KINDS)
    vals = [x for e in es if attr in e for x in (e[attr] if isinstance(e[attr], list) else [e[attr]])]
    if differs_by_definition(op, value, vals, ic):
        raise Skip()
    if via == "exclude":
        want = model.prune(es, matches)
    elif via == "not":
        want = [e for e in es if not matches(e)]
    else:
        want = [e for e in es if matches(e)]
    expect_clean(res, argv)
    expect_same(split0(res.out), [e["path"] for e in want], res, argv=argv, what="selected entries")
    ctx.nontrivial = 0 < len(want) < len(es)
    ctx.mark(f"op:{op}", f"case:{case}", "ignoring case" if ic else "case matters", f"via:{via}", f"attr:{attr}")


# ---------------------------------------------------------------- direct comparison of many values

def values_strategy(tier):
    s = st.one_of(st.sampled_from(EXTRA), st.text(alphabet=tree.WEIRD_CH + "kKsSiIſKİı", min_size=1, max_size=6),
                  st.text(min_size=1, max_size=5).filter(lambda x: not re.search("[\ud800-\udfff\0]", x)),
                  st.sampled_from(["", "", "\n", "a", "b", "ab", "a\n", "\na", "b\na", "ab\nabc\n", "\r\n", "x\u2028a"]),
                  st.lists(st.sampled_from(["a", "b", "abc", "aBc", "", "a b"]), min_size=2, max_size=4).map("\n".join))
    return st.fixed_dictionaries({
        "values": st.lists(s, min_size=1, max_size=40),
        "tests": st.lists(st.tuples(st.sampled_from("=:~"), st.integers(0, 60), st.integers(0, 6), st.integers(1, 6),
                                    st.sampled_from(["same", "upper", "lower", "swap", "line", "fixed"]), st.lists(st.integers(0, 40), max_size=6),
                                    st.sampled_from(["smart", "ignore", "sensitive"])), min_size=4, max_size=12),
        "kind": st.sampled_from(["list", "string"]),
        "opt": st.booleans(),
    })


VALUE_PLUGIN = '''
import json, os
from libff.plugin import *

class Vfvals(Plugin):
    """Values from the environment."""
    speed = Speed.NORMAL
    attributes = [("str", String, "value number n of file n"), ("list", ListOfStrings, "all the values up to number n")]
    def can_handle(self, entry):
        return entry.name.isdigit()
    def process(self, entry, cached):
        with open(os.environ["VF_VALUES"], encoding="utf-8") as f:
            values = json.load(f)
        n = int(entry.name)
        yield "str", values[n]
        yield "list", ["#filler"] * (n % 3 * 120) + values[n // 2:n] + ["#filler"] * (n % 2)
'''


def run_values(ctx, spec):
    """Plugin attributes can have any string as value, names of files cannot."""
    import json
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    values = spec["values"]
    for i in range(len(values)):
        with open(os.path.join(root, str(i)), "w"):
            pass
    vfile = os.path.join(ctx.case, "values.json")
    with open(vfile, "w", encoding="utf-8") as f:
        json.dump(values, f)
    env = gen.plugin_env(ctx, spec["opt"], VALUE_PLUGIN, "vals")
    env["VF_VALUES"] = vfile
    attr = "vfvals.str" if spec["kind"] == "string" else "vfvals.list"
    some = False
    for op, i, a, n, how, reops, case in spec["tests"]:
        v = values[i % len(values)]
        if how == "line":
            v = v.split("\n")[a % (v.count("\n") + 1)]
        elif op != "=" and v:
            v = v[a % len(v):][:n]
        v = {"upper": v.upper(), "lower": v.lower(), "swap": v.swapcase()}.get(how, v)
        if op == "~" and how == "fixed":
            v = FIXED[(i * 6 + a) % len(FIXED)]
        elif op == "~":
            v = regexify(v, reops)
            if how == "line" and v:
                v = ["^" + v, v + "$", "^" + v + "$", v][n % 4]
        if op == "~":
            try:
                re.compile(v)
            except (re.error, OverflowError):
                continue
        if not usable(v):
            continue
        if differs_by_definition(op, v, values, model.ignore_case(case, v)):
            continue
        if spec["kind"] == "string":
            want = [str(k) for k, x in enumerate(values) if model.compare_string(op, x, v, case)]
        else:
            want = [str(k) for k in range(len(values)) if any(model.compare_string(op, x, v, case) for x in (["#filler"] if k % 3 or k % 2 else []) + values[k // 2:k])]
        argv = ["--no-cache", "-0", "-j2", "-c", case, f"{attr}{op}{v}"]
        res = ctx.run(argv, root, opt=spec["opt"], env=env)
        expect_clean(res, argv)
        expect_same(split0(res.out), want, res, argv=argv, what="selected entries", values=values)
        some = some or 0 < len(want) < len(values)
        ctx.mark(f"values op:{op}")
    ctx.nontrivial = some


# ---------------------------------------------------------------- invalid tests

BAD_REGEX = ["(", ")", "a)", "(a", "[", "[a", "*", "+a", "?", "a{2,1}", "\\", "a\\", "(?P<x>a)(?P<x>b)", "(?P=x)", "(?z)", "[z-a]", "a**",
             "(?<=a*)b", "\\1", "(?", "x{99999999999999}", "\\g", "(?P<1>a)", "(?(1)a|b|c)", "(" * 2000 + ")" * 2000]


def bad_cases(tier, seed):
    ops = ["=", ":", "~", "%", "+=", "-=", "+", "-", ">=", "<=", ">", "<"]
    kinds = {"name": "=:~%", "path": "=:~%", "size": "n", "mtime": "n", "uid": "n", "perm": "=:~", "mode": "=:~", "type": "=",
             "hidden": "=", "empty": "=", "slist": "=:~%", "vfslow.slen": "n", "sflag": "=", "mime.mime": "=:~%", "grep.lines": "=:~%"}
    value = {"name": "a", "path": "a", "size": "1", "mtime": "1", "uid": "1", "perm": "1", "mode": "1", "type": "f", "hidden": "yes",
             "empty": "no", "slist": "a", "vfslow.slen": "1", "sflag": "no", "mime.mime": "a", "grep.lines": "a"}
    n = 0
    for attr, allowed in kinds.items():
        for op in ops:
            ok = op in allowed if allowed != "n" else op not in (":", "~", "%")
            if allowed != "n" and len(op) > 1:
                ok = False
            n += 1
            yield {"tok": attr + op + value[attr], "ok": ok, "via": ["expr", "exclude", "not"][n % 3], "opt": n % 2 == 0}
    for attr in ("name", "path", "slist", "user", "link"):
        for rx in BAD_REGEX:
            n += 1
            yield {"tok": attr + "~" + rx, "ok": False, "via": ["expr", "exclude", "not"][n % 3], "opt": n % 2 == 0}


def run_bad(ctx, spec):
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    for n in ("a", "b"):
        with open(os.path.join(root, n), "w"):
            pass
    argv = ["--no-cache"] + {"expr": [spec["tok"]], "exclude": ["-e", spec["tok"]], "not": ["NOT", spec["tok"]]}[spec["via"]]
    res = ctx.run(argv, root, opt=spec["opt"], env=gen.plugin_env(ctx, spec["opt"]))
    if spec["ok"]:
        expect_clean(res, argv)
        ctx.mark("supported operator")
        return
    ctx.mark("unsupported operator or invalid regular expression")
    if res.rc != 12 or res.out or not res.err or res.traceback or res.timed_out:
        fail("an invalid test was not rejected with exit code 12", res, argv=argv)


CHECK = Check(
    "C03",
    [Part("strings", run, strategy, quick=1500),
     Part("values", run_values, values_strategy, quick=140),
     Part("invalid", run_bad, cases=bad_cases, quick=200)],
    rule="strings: generated tree, attribute, operator, value derived from an existing value (cut, case changed, turned into a "
         "regular expression) and --case; values: plugin attributes with arbitrary strings; non-trivial: some but not all entries match.",
    assumptions=["Leading whitespace of a test value is not part of the value; values starting with '{' are references (C21).",
                 "Case-insensitive regular expressions are not judged where matching depends on special case mappings (e.g. Turkish i)."])
