"""C05: file modes."""
import itertools
import os
import random
import stat
import subprocess

from hypothesis import strategies as st

from .. import gen, model, tree
from ..core import Check, Part, Skip
from ..lib import expect_clean, expect_same, fail
from ..tree import split0

WHO = {"u": 0o4700, "g": 0o2070, "o": 0o1007, "a": 0o7777}
PERM = {"r": 0o444, "w": 0o222, "x": 0o111, "s": 0o6000, "t": 0o1000}


def part_st():
    return st.tuples(st.lists(st.sampled_from("ugoa"), max_size=3), st.sampled_from("+-==+"),
                     st.lists(st.sampled_from("rwxstrwx"), min_size=1, max_size=4))


value_st = st.one_of(
    st.tuples(st.just("octal"), st.integers(0, 0o7777), st.integers(0, 2)),
    st.tuples(st.just("octal"), st.sampled_from([0o644, 0o755, 0o700, 0o111, 0, 0o7777, 0o4000, 0o2000, 0o1000, 0o22, 0o2]), st.integers(0, 2)),
    st.tuples(st.just("sym"), st.lists(part_st(), min_size=1, max_size=4), st.just(0)),
    st.tuples(st.just("sym"), st.lists(part_st(), min_size=1, max_size=4), st.just(0)))


def render(value):
    """-> (text, bits)"""
    kind, x, zeros = value
    if kind == "octal":
        return "0" * zeros + f"{x:o}", x
    bits = 0
    texts = []
    for who, op, perms in x:
        mask = 0
        for w in who or ["a"]:
            mask |= WHO[w]
        val = 0
        for p in perms:
            val |= PERM[p]
        val &= mask
        if op == "=":
            bits = (bits & ~mask) | val
        elif op == "+":
            bits |= val
        else:
            bits &= ~val
        texts.append("".join(who) + op + "".join(perms))
    return ",".join(texts), bits


def strategy(tier):
    return st.fixed_dictionaries({
        "value": value_st,
        "modes": st.lists(st.one_of(st.integers(0, 0o7777), st.sampled_from([0o644, 0o755, 0, 0o7777])), min_size=1, max_size=12),
        "flip": st.lists(st.integers(0, 11), max_size=8),
        "kinds": st.lists(st.sampled_from("ffdp"), min_size=1, max_size=5),
        "attr": st.sampled_from(["perm", "perm", "mode", "file.perm", "file.mode"]),
        "find": st.booleans(), "opt": st.booleans(), "via": st.sampled_from(["expr", "expr", "not", "exclude"]),
    })


def make(root, modes, kinds):
    os.mkdir(root)
    out = {}
    for i, m in enumerate(modes):
        k = kinds[i % len(kinds)]
        path = os.path.join(root, str(i))
        if k == "f":
            open(path, "w").close()
        elif k == "d":
            os.mkdir(path)
        else:
            os.mkfifo(path)
        os.chmod(path, m)
        out[str(i)] = os.lstat(path).st_mode & 0o7777
        if out[str(i)] != m:
            raise Skip()
    return out


def check_ops(ctx, root, modes, text, bits, attr, opt, via, find):
    split = False
    for op in "=:~":
        argv = ["--no-cache", "-0"] + {"expr": [], "not": ["not"], "exclude": ["-e"]}[via] + [f"{attr}{op}{text}"]
        res = ctx.run(argv, root, opt=opt)
        expect_clean(res, argv)
        want = [n for n, m in modes.items() if model.compare_mode(op, m, bits) == (via == "expr")]
        expect_same(split0(res.out), want, res, argv=argv, what="selected entries",
                    modes={n: oct(m) for n, m in modes.items()}, bits=oct(bits))
        split = split or 0 < len(want) < len(modes)
        if find and via == "expr" and (op != "~" or bits):
            pre = {"=": "", ":": "-", "~": "/"}[op]
            p = subprocess.run(["find", ".", "-mindepth", "1", "-perm", pre + text, "-print0"], cwd=root, capture_output=True)
            if p.returncode == 0:
                # A '=' does not clear the set-id bits of directories in find(1) unless they are mentioned.
                ok = [n for n in modes if not ("=" in text and "s" in text and os.path.isdir(os.path.join(root, n)))]
                expect_same([x for x in split0(res.out) if x in ok], [x[2:] for x in split0(p.stdout) if x[2:] in ok], res,
                            argv=argv, what="result and result of find(1)")
                ctx.mark("find agrees")
    return split


def run(ctx, spec):
    text, bits = render(spec["value"])
    root = os.path.join(ctx.case, "t")
    modes = list(spec["modes"]) + [bits, bits ^ 1]
    for f in spec["flip"]:
        modes.append(bits ^ (1 << f))
    d = make(root, modes, spec["kinds"])
    split = check_ops(ctx, root, d, text, bits, spec["attr"], spec["opt"], spec["via"], spec["find"])
    ctx.nontrivial = split
    ctx.mark(spec["value"][0], f"via:{spec['via']}")


def all_cases(tier, seed):
    """All 4096 permission values at once, against a sample of the reference values."""
    rng = random.Random(seed)
    for i in range(8 if tier == "quick" else 64):
        yield {"value": rng.choice([rng.randrange(4096), rng.choice([0o7777, 0o111, 0o4000, 0o1000])]), "opt": i % 2 == 0}


def run_all(ctx, spec):
    root = os.path.join(ctx.case, "t")
    d = make(root, range(4096), "f")
    for op in "=:~":
        argv = ["--no-cache", "-0", f"perm{op}{spec['value']:o}"]
        res = ctx.run(argv, root, opt=spec["opt"])
        expect_clean(res, argv)
        expect_same(split0(res.out), [n for n, m in d.items() if model.compare_mode(op, m, spec["value"])], res, argv=argv)
    ctx.nontrivial = True


BAD = ["", "8", "9999", "rwx", "abc", "u", "u+", "u=z", "z+x", "u+x,", ",u+x", "u+x;g+x", "+", "u+x g+x", "0x1ff", "-", "u++x", "7 7 7", "a+rwxq", "64 4", "u+7", "rwxr-xr-x", "1.5"]


def bad_cases(tier, seed):
    for i, b in enumerate(BAD):
        for op in "=:~":
            if b:
                yield {"tok": f"{'perm' if i % 2 else 'mode'}{op}{b}", "opt": (i + len(op)) % 2 == 0}


def run_bad(ctx, spec):
    root = os.path.join(ctx.case, "t")
    make(root, [0o644, 0], "f")
    argv = ["--no-cache", spec["tok"]]
    res = ctx.run(argv, root, opt=spec["opt"])
    if res.rc != 2 or res.out or not res.err or res.traceback or res.timed_out:
        fail("an invalid mode was not rejected with exit code 2", res, argv=argv)


CHECK = Check(
    "C05",
    [Part("modes", run, strategy, quick=320), Part("all", run_all, cases=all_cases, quick=8),
     Part("invalid", run_bad, cases=bad_cases, quick=60)],
    rule="modes: octal or symbolic value and files with permissions around it, all three operators, against a bit model and GNU find; "
         "non-trivial: at least one operator selects some but not all files.",
    assumptions=["X, empty permission lists and octal numbers above 7777 are outside of the domain.",
                 "'~' with no bits selects nothing (any of no bits), unlike find's -perm /0."])
