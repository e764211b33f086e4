"""C14: records of parallel processes are never interleaved."""
import json
import os

from hypothesis import strategies as st

from .. import gen
from ..core import Check, Part
from ..lib import SCHED, expect_clean, expect_same, fail

PLUGIN = '''
from libff.plugin import *
class Vflong(Plugin):
    """Long values."""
    attributes = [("long", String, "l"), ("longlist", ListOfStrings, "ll")]
    def can_handle(self, entry):
        return entry.name.startswith("r")
    def process(self, entry, cached):
        i, n = entry.name[1:].split("_")
        unit = f"<{i}>"
        yield "long", (unit * (int(n) // len(unit) + 1))[:int(n)]
        yield "longlist", [unit] * (int(n) // 8)
'''


def strategy(tier):
    big = 200000 if tier == "quick" else 1000000
    return st.fixed_dictionaries({
        "dirs": st.integers(1, 12), "per": st.integers(1, 8),
        "sizes": st.lists(st.one_of(st.integers(0, 300), st.integers(0, 20000), st.sampled_from(
            [510, 511, 512, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16384, 65535, 65536, 65537]), st.integers(0, big)),
            min_size=1, max_size=6),
        "out": st.sampled_from(["text", "zero", "jsonl", "text2", "list", "json", "color"]),
        "jobs": st.sampled_from([2, 3, 4, 8, 8]),
        "pipe": st.sampled_from([None, 4096, 4096, 65536]),
        "slow": st.sampled_from([None, None, [1000, 0.0002], [4096, 0.001], [100000, 0.01]]),
        "opt": st.booleans(), "sched": SCHED, "strict": st.booleans(),
    })


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    names = []
    total = 0
    limit = 3000000 if not spec["slow"] else 400000
    for d in range(spec["dirs"]):
        os.mkdir(os.path.join(root, f"d{d}"))
        for j in range(spec["per"]):
            k = d * spec["per"] + j
            n = spec["sizes"][k % len(spec["sizes"])]
            if total + n > limit:
                n = n % 100
            total += n
            name = f"r{k}_{n}"
            names.append((f"d{d}", name, k, n))
            open(os.path.join(root, f"d{d}", name), "w").close()
    env = gen.plugin_env(ctx, spec["opt"], PLUGIN, "c14")
    fields = {"text": "long", "zero": "long", "jsonl": "name,long", "text2": "name,long,longlist", "list": "longlist",
              "json": "long,name", "color": "path,long"}[spec["out"]]
    argv = ["--no-cache", f"-j{spec['jobs']}", "-o", fields] + {"zero": ["-0"], "jsonl": ["--jsonl"], "json": ["--json"],
                                                                "color": ["--color=always"]}.get(spec["out"], [])
    argv += ["type=f"]
    if spec["out"] == "color":
        env["LS_COLORS"] = "di=01;34:ex=1"
    res = ctx.run(argv, root, opt=spec["opt"], env=env, sched=spec["sched"], pipe_size=spec["pipe"], slow_read=spec["slow"],
                  strict=spec["strict"])
    expect_clean(res, argv)

    def long(k, n):
        unit = f"<{k}>"
        return (unit * (n // len(unit) + 1))[:n]

    def lst(k, n):
        return [f"<{k}>"] * (n // 8)
    out = res.out.decode("utf-8")

    def brief(records):
        return [f"{len(r)} characters: {r[:40]}...{r[-20:]}" if len(r) > 80 else r for r in records]
    if spec["out"] in ("jsonl", "json"):
        try:
            objs = json.loads(out) if spec["out"] == "json" else [json.loads(line) for line in out.split("\n")[:-1]]
        except ValueError as exc:
            fail(f"the output is no sequence of JSON objects: {exc}", res, argv=argv)
        got = [(o["name"], o["long"]) for o in objs]
        want = [(name, long(k, n)) for _, name, k, n in names]
        if sorted(got) != sorted(want):
            fail("records differ", res, argv=argv)
    else:
        end = "\0" if spec["out"] == "zero" else "\n"
        got = out.split(end)
        if got.pop() != "":
            fail("the output does not end with a complete record", res, argv=argv)
        want = [{"text": long(k, n), "zero": long(k, n), "text2": f"{name} {long(k, n)} {','.join(lst(k, n))}",
                 "list": ",".join(lst(k, n)), "color": f"\x1b[01;34m{d}/\x1b[0m{name} {long(k, n)}"}[spec["out"]] for d, name, k, n in names]
        if sorted(got) != sorted(want):
            expect_same(brief(got), brief(want), res, "records", argv)
            fail("records differ", res, argv=argv)
    ctx.nontrivial = spec["jobs"] > 1 and spec["dirs"] > 1 and any(n > 512 for *_, n in names)
    ctx.mark(f"out:{spec['out']}", f"pipe:{spec['pipe']}", "slow reader" if spec["slow"] else "fast reader")
    m = max(n for *_, n in names)
    ctx.mark("longest > 64K" if m > 65536 else "longest > 8K" if m > 8192 else "longest > 4K" if m > 4096 else "short")


CHECK = Check(
    "C14",
    [Part("records", run, strategy, quick=800, confirm=15)],
    rule="Several directories searched by several processes, values of 0 to 200000 characters, pipes of 4 KB and slow readers.  "
         "Non-trivial: at least two processes and directories and a record longer than 512 characters.")
