#!/usr/bin/env python3
"""tools/mutate.py: test the checks with small random changes of ff (mutants).

Each mutant is made in a scratch copy of /repo and the checks are run against it (from a copy of /verif) until one of
them reports a violation.  The mutants that no check reports are written down for review: they are equivalent to the
original, or show what the checks do not look at.

  mutate.py list                              number of possible mutants per file
  mutate.py run --seed S --n N --out FILE     [--files REGEX] [--checks C01,C02]
"""
import argparse
import ast
import os
import random
import re
import shutil
import subprocess
import sys
import time

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["libff/" + f + ".py" for f in
         "argparse arguments attribute cache console context convert entry field filter find ignore main parser path plugin processing registry type walk "
         "help builtin/file builtin/grep builtin/ignore builtin/media builtin/mime".split()] + ["plugins/" + f + ".py" for f in "fs git hash introspect tar xattr".split()]
ORDER = {
    "argparse": "C22 C17 C10 C08 C15 C30 C12", "arguments": "C22 C17 C12 C11 C10 C07 C23", "attribute": "C02 C26 C12", "cache": "C18 C26 C19 C28", "console": "C12 C13 C24 C11 C14 C27 C15",
    "context": "C01 C29 C15 C30 C28 C27 C19 C18", "convert": "C04 C05 C12 C11 C09", "entry": "C20 C01 C21 C12 C26 C09 C23", "field": "C12 C16 C15 C11 C13 C09 C10 C22", "filter": "C02 C03 C08 C21 C26",
    "find": "C23", "ignore": "C07 C06 C25", "main": "C17 C22 C27 C28 C23 C19 C18 C08 C07 C30", "parser": "C02 C22 C17 C21 C03 C08 C26 C04", "path": "C20 C09 C01 C21", "plugin": "C26 C18 C25", "processing": "C10 C16 C11 C23 C15 C29 C30 C14 C19 C28 C27 C01",
    "registry": "C26 C18 C25 C19 C02 C08", "type": "C03 C04 C05 C02 C12 C09 C11 C13 C26 C21 C06", "walk": "C01 C19 C02 C28 C07 C27 C23",
    "builtin/file": "C20 C09 C12 C21", "builtin/grep": "C25", "builtin/ignore": "C07 C25", "builtin/media": "C25", "builtin/mime": "C25",
    "fs": "C25 C20", "help": "C32 C31", "git": "C25", "hash": "C25 C18", "introspect": "C25", "tar": "C25 C18", "xattr": "C25"}
ALL = ["C%02d" % i for i in range(1, 33)]
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any", "startswith": "endswith", "endswith": "startswith", "lstrip": "strip", "rstrip": "strip", "strip": "rstrip",
         "rsplit": "split", "split": "rsplit", "lstat": "stat", "lexists": "exists", "sorted": "list", "partition": "rpartition", "rpartition": "partition", "lower": "strip", "isdir": "exists",
         "dirname": "basename", "basename": "dirname", "append": "extend", "reversed": "list", "set": "list", "abspath": "normpath", "realpath": "abspath", "match": "fullmatch", "fullmatch": "match", "search": "match"}
NOLOG = re.compile(r"logger|\bdebug|print_usage|help|setproctitle|warning\(")


def mutants(src):
    """-> [(line, function, start offset, end offset, replacement)]"""
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()) + 1)
    raw = src.encode()
    out = []

    def off(line, col):
        return starts[line - 1] + col

    def seg(n):
        return raw[off(n.lineno, n.col_offset):off(n.end_lineno, n.end_col_offset)].decode()

    def rep(n, text, func):
        out.append((n.lineno, func, off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset), text))

    def visit(n, func):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            func = (func + "." if func else "") + n.name
            if n.name in ("Elf", "debug", "__repr__", "__str__", "print_help"):
                return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, f"{seg(n.left)} {SWAP[type(n.ops[0])]} {seg(n.comparators[0])}", func)
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + op.join("(" + seg(v) + ")" for v in n.values) + ")", func)
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                rep(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(" + seg(v) + ")" for v in rest) + ")", func)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, "bool(" + seg(n.operand) + ")", func)
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, str(not n.value), func)
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), func)
                if n.value:
                    rep(n, str(n.value - 1), func)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.BitAnd, ast.BitOr)):
            op = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.BitAnd: "|", ast.BitOr: "&"}[type(n.op)]
            rep(n, f"({seg(n.left)} {op} {seg(n.right)})", func)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and not (isinstance(n.test, ast.Constant)):
            rep(n.test, f"(not ({seg(n.test)}))", func)
            if isinstance(n, ast.If):
                rep(n.test, "False", func)
                rep(n.test, "True", func)
        if isinstance(n, ast.Break):
            rep(n, "continue", func)
        elif isinstance(n, ast.Continue):
            rep(n, "break", func)
            rep(n, "pass", func)
        elif isinstance(n, ast.Raise):
            rep(n, "pass", func)
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            rep(n, "return None", func)
        elif isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield)):
            rep(n, "pass", func)
        elif isinstance(n, ast.AugAssign):
            rep(n, "pass", func)
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            rep(n, "pass", func)
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            rep(n.type, "ZeroDivisionError", func)
            if isinstance(n.type, ast.Tuple):
                for i in range(len(n.type.elts)):
                    rep(n.type, "(" + "".join(seg(e) + ", " for j, e in enumerate(n.type.elts) if j != i) + ")", func)
        elif isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if nm in NAMES:
                fs = seg(f)
                rep(f, fs[:len(fs) - len(nm)] + NAMES[nm], func)
            for kw in n.keywords:
                if kw.arg and len(n.args) + len(n.keywords) > 1 and "add_argument" not in seg(f):
                    s = seg(n)
                    k = f"{kw.arg}={seg(kw.value)}"
                    if s.count(k) == 1:
                        rep(n, re.sub(r",\s*" + re.escape(k) + r"|" + re.escape(k) + r"\s*,?", "", s, count=1), func)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr) and isinstance(n, (ast.FunctionDef, ast.ClassDef)) and c in n.decorator_list:
                continue
            visit(c, func)
    visit(tree, "")
    good = []
    for m in out:
        line, func, a, b, text = m
        stmt = raw[starts[line - 1]:b].decode()
        if NOLOG.search(stmt) or raw[a:b].decode() == text:
            continue
        new = (raw[:a] + text.encode() + raw[b:]).decode()
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            continue
        good.append(m)
    return good


def pool(regex):
    out = []
    for f in FILES:
        if re.search(regex, f):
            with open(os.path.join(REPO, f)) as fd:
                out += [(f,) + m for m in mutants(fd.read())]
    return out


def run(args):
    rnd = random.Random(args.seed)
    ms = pool(args.files)
    # Every file, every function has its turn.
    groups = {}
    for m in ms:
        groups.setdefault((m[0], m[2]), []).append(m)
    order = []
    keys = sorted(groups)
    rnd.shuffle(keys)
    while len(order) < args.n and keys:
        for k in list(keys):
            g = groups[k]
            order.append(g.pop(rnd.randrange(len(g))))
            if not g:
                keys.remove(k)
    base = f"/tmp/vf-mutate-{args.seed}-{os.getpid()}"
    os.makedirs(base)
    shutil.copytree(VERIF, base + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
    shutil.copytree(REPO, base + "/repo", symlinks=True)
    os.makedirs(base + "/tmp")
    env = dict(os.environ, VF_REPO=base + "/repo", VF_SHRINK="0", VF_SCRATCH=base + "/tmp")
    try:
        for i, (f, line, func, a, b, text) in enumerate(order[args.skip:args.n]):
            path = os.path.join(base, "repo", f)
            with open(path, "rb") as fd:
                raw = fd.read()
            with open(path, "wb") as fd:
                fd.write(raw[:a] + text.encode() + raw[b:])
            t0 = time.time()
            first = ORDER.get(f[6:-3] if f.startswith("libff/") else f[8:-3], "").split()
            checks = args.checks.split(",") if args.checks else first + [c for c in ALL if c not in first] if not args.only_first else first
            caught = None
            for c in checks:
                try:
                    p = subprocess.run([base + "/verif/check", c, "--scale", str(args.scale)], env=env, cwd=base + "/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, errors="replace")
                    rc, out = p.returncode, p.stdout
                except subprocess.TimeoutExpired:
                    rc, out = "timeout", ""
                if rc != 0:
                    ls = out.splitlines()
                    msg = next((ls[j + 1] for j, x in enumerate(ls) if x.startswith("VIOLATION") and j + 1 < len(ls)), out[-200:])
                    caught = f"{c} rc={rc} {msg[:120]}"
                    break
            with open(path, "wb") as fd:
                fd.write(raw)
            old = raw[a:b].decode()
            with open(args.out, "a") as fd:
                fd.write(f"{'caught' if caught else 'MISSED'} {f}:{line} {func}: {' '.join(old.split())[:150]!r} -> {' '.join(text.split())[:150]!r} [{time.time() - t0:.0f} s] {caught or ''}\n")
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode", choices=["list", "run"])
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=20)
    ap.add_argument("--skip", type=int, default=0)
    ap.add_argument("--files", default=".")
    ap.add_argument("--checks")
    ap.add_argument("--only-first", action="store_true")
    ap.add_argument("--scale", type=float, default=0.6)
    ap.add_argument("--out", default="/tmp/mutants.txt")
    args = ap.parse_args()
    if args.mode == "list":
        ms = pool(args.files)
        for f in FILES:
            print(f, sum(1 for m in ms if m[0] == f))
        print(len(ms))
    else:
        run(args)


main()
