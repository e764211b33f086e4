"""C04: numbers, sizes, times and durations."""
import datetime
import json
import os
import time
import zoneinfo
from fractions import Fraction

from hypothesis import strategies as st

from .. import gen, model, tree
from ..core import Check, Part, Skip
from ..lib import expect_clean, expect_same, fail
from ..tree import split0

PLUGIN = '''
import json, os
from libff.plugin import *

class Vfnum(Plugin):
    """Values from the environment."""
    speed = Speed.NORMAL
    attributes = [("num", Number, "n"), ("siz", Size, "s"), ("tim", Time, "t"), ("dur", Duration, "d")]
    def can_handle(self, entry):
        return entry.name.isdigit()
    def process(self, entry, cached):
        with open(os.environ["VF_VALUES"], encoding="utf-8") as f:
            v = json.load(f)[int(entry.name)]
        yield "num", v
        yield "siz", v
        yield "tim", v
        yield "dur", v
'''

OPS = ["=", "+=", "-=", "+", "-", ">=", "<=", ">", "<"]
ZONES = ["UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "America/St_Johns", "Pacific/Apia", "Asia/Tokyo"]
UNITS = ["K", "M", "G", "T", "P", "E", "Z", "Y"]

number_text = st.one_of(st.integers(0, 20).map(str), st.integers(0, 10 ** 6).map(str), st.sampled_from(
    ["0", "1", "1023", "1024", "1025", "999", "1000", "4096", "007"]))
frac_text = st.one_of(number_text, st.tuples(st.integers(0, 2000), st.integers(0, 9999), st.integers(1, 4)).map(
    lambda t: f"{t[0]}.{str(t[1])[:t[2]]}"), st.sampled_from(["1.5", "0.5", "2.0", "1.1", "0.1", "1.001", "0.0001", "4.35", "8.2", "1.005"]))

size_st = st.one_of(
    st.tuples(st.just("plain"), st.one_of(number_text, st.integers(0, 2 ** 70).map(str)), st.sampled_from(["", "", "b", "B"])),
    st.tuples(st.just("unit"), frac_text, st.tuples(st.sampled_from(UNITS + ["K", "M", "G"]), st.sampled_from(["", "", "B", "b"]), st.booleans())))

num_st = st.one_of(number_text, st.integers(0, 2 ** 66).map(str))

dur_st = st.one_of(
    st.tuples(st.just("plain"), st.integers(0, 10 ** 6)),
    st.tuples(st.just("parts"), st.lists(st.tuples(st.integers(0, 3000), st.sampled_from("smhdwMy")), min_size=1, max_size=5)))

dt_st = st.fixed_dictionaries({
    "t": st.integers(0, 2 ** 32 + 10 ** 8),
    "fmt": st.sampled_from(["%Y-%m-%d %H:%M:%S", "%Y-%m-%d %H:%M", "%Y%m%d%H%M", "%Y-%m-%d", "%Y%m%d"]),
})
time_st = st.one_of(
    st.tuples(st.just("date"), dt_st),
    st.tuples(st.just("clock"), st.tuples(st.one_of(st.integers(0, 86399), st.integers(0, 86399), st.integers(-2, -1)), st.sampled_from(["%H:%M:%S", "%H:%M", "%H%M"]))),
    st.tuples(st.just("epoch"), st.integers(0, 2 ** 33)),
    st.tuples(st.just("ago"), st.lists(st.tuples(st.integers(0, 400), st.sampled_from("smhdwMy")), min_size=1, max_size=4)))

SECONDS = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 7 * 86400, "M": 30 * 86400, "y": 365 * 86400}


def strategy(tier):
    k = 5 if tier == "quick" else 8
    one = st.one_of(
        st.tuples(st.just("num"), num_st, st.integers(0, 8)),
        st.tuples(st.just("siz"), size_st, st.integers(0, 8)),
        st.tuples(st.just("siz"), size_st, st.integers(0, 8)),
        st.tuples(st.just("dur"), dur_st, st.integers(0, 8)),
        st.tuples(st.just("tim"), time_st, st.integers(0, 8)),
        st.tuples(st.just("tim"), time_st, st.integers(0, 8)))
    return st.fixed_dictionaries({
        "tests": st.lists(one, min_size=1, max_size=k),
        "more": st.lists(st.integers(-5, 2 ** 40), max_size=4),
        "tz": st.sampled_from(ZONES),
        "neg": st.booleans(),
        "opt": st.booleans(),
        "jobs": st.sampled_from([1, 2, 4]),
    })


def local(tz, dt):
    """Seconds since 1970 of a local time; None if it is ambiguous or does not exist."""
    z = zoneinfo.ZoneInfo(tz)
    a = dt.replace(tzinfo=z, fold=0).timestamp()
    b = dt.replace(tzinfo=z, fold=1).timestamp()
    if a != b or datetime.datetime.fromtimestamp(a, z).replace(tzinfo=None) != dt:
        return None
    return int(a)


def parse_ref(attr, val, tz):
    """-> (text, lowest, highest): the parsed value lies in that interval (a point except for
    fractions of bytes and times that are relative to the current time)."""
    if attr == "num":
        return val, int(val), int(val)
    if attr == "siz":
        if val[0] == "plain":
            return val[1] + val[2], int(val[1]), int(val[1])
        _, num, (unit, b, lower) = val
        base = 1000 if b else 1024
        exact = Fraction(num) * base ** (UNITS.index(unit) + 1)
        text = num + (unit.lower() if lower else unit) + b
        lo = exact.numerator // exact.denominator
        return text, lo, lo if exact.denominator == 1 else lo + 1
    if attr == "dur":
        if val[0] == "plain":
            return str(val[1]), val[1] * 60, val[1] * 60
        t = sum(n * SECONDS[u] for n, u in val[1])
        return "".join(f"{n}{u}" for n, u in val[1]), t, t
    kind, x = val
    if kind == "epoch":
        text = str(x)
        if len(text) in (4, 8, 12):
            text = str(x + 10 ** 9)
        return text, int(text), int(text)
    if kind == "ago":
        t = sum(n * SECONDS[u] for n, u in x)
        now = int(time.time())
        if t > now:
            return None
        text = "".join(f"{n}{u}" for n, u in x)
        return text, now - t - 1, now - t + 40
    z = zoneinfo.ZoneInfo(tz)
    if kind == "date":
        dt = datetime.datetime.fromtimestamp(x["t"], z).replace(tzinfo=None)
        text = dt.strftime(x["fmt"])
        # Truncated to what the format contains.
        dt = datetime.datetime.strptime(text, x["fmt"])
        r = local(tz, dt)
        return None if r is None else (text, r, r)
    secs, fmt = x
    clock = datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds=secs)
    text = clock.strftime(fmt)
    clock = datetime.datetime.strptime(text, fmt)
    now = datetime.datetime.now(z).replace(tzinfo=None)
    dt = clock.replace(year=now.year, month=now.month, day=now.day)
    if secs < 0:
        # The current minute.
        dt = now.replace(second=0, microsecond=0)
        fmt = ["%H:%M", "%H%M"][-secs % 2]
        text = dt.strftime(fmt)
        r = local(tz, dt)
        return None if r is None else (text, r, r)
    if abs((dt - now).total_seconds()) < 90 or now.hour == 23 and now.minute > 57:
        return None
    if dt > now:
        dt -= datetime.timedelta(days=1)
    r = local(tz, dt)
    return None if r is None else (text, r, r)


def run(ctx, spec):
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    tests = []
    values = set(spec["more"]) | {0, 1}
    for attr, val, op in spec["tests"]:
        p = parse_ref(attr, val, spec["tz"])
        if p is None:
            continue
        tests.append((attr, op, val[0] if attr != "num" else "", *p))
        values |= {p[1] - 1, p[1], p[1] + 1, p[2] - 1, p[2], p[2] + 1, p[1] // 1024, p[1] // 60, p[1] * 2}
    if not spec["neg"]:
        values = {v for v in values if v >= 0}
    values = sorted(values)
    for i in range(len(values)):
        with open(os.path.join(root, str(i)), "w"):
            pass
    vfile = os.path.join(ctx.case, "values.json")
    with open(vfile, "w") as f:
        json.dump(values, f)
    env = gen.plugin_env(ctx, spec["opt"], PLUGIN, "num")
    env.update({"VF_VALUES": vfile, "TZ": spec["tz"]})
    for attr, op, kind, text, lo, hi in tests:
        op = OPS[op]
        argv = ["--no-cache", "-0", f"-j{spec['jobs']}", f"vfnum.{attr}{op}{text}"]
        res = ctx.run(argv, root, opt=spec["opt"], env=env)
        expect_clean(res, argv)
        got = set(split0(res.out))
        for i, v in enumerate(values):
            a, b = model.compare_number(op, v, lo), model.compare_number(op, v, hi)
            if lo != hi and lo <= v <= hi:
                continue
            if a != b:
                continue
            if (str(i) in got) != a:
                fail(f"{v} {op} {text}: {'not ' if a else ''}selected, expected value of {text!r} is {lo}"
                     + (f"..{hi}" if hi != lo else ""), res, argv=argv, tz=spec["tz"])
        if lo < hi and op == "=" and len(got) > 1:
            fail("more than one value is equal", res, argv=argv)
        ctx.mark(f"{attr} {kind}", f"op:{op}")
    ctx.nontrivial = bool(tests)


# ---------------------------------------------------------------- real files

def files_strategy(tier):
    return st.fixed_dictionaries({
        "what": st.sampled_from(["size", "mtime", "time", "atime", "mtime"]),
        "ref": st.integers(0, 2 ** 33),
        "frac": st.lists(st.integers(0, 999999999), min_size=1, max_size=4),
        "deltas": st.lists(st.integers(-3, 3), min_size=1, max_size=6),
        "op": st.sampled_from(OPS),
        "fmt": st.sampled_from(["%Y-%m-%d %H:%M:%S", "%Y-%m-%d %H:%M", "%Y%m%d%H%M", "%Y-%m-%d", "%Y%m%d", "epoch"]),
        "tz": st.sampled_from(ZONES), "opt": st.booleans(),
    })


def run_files(ctx, spec):
    """The same with real sizes and time stamps (with fractions of seconds)."""
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    what = spec["what"]
    if what == "size":
        text, ref = str(spec["ref"]), spec["ref"]
    elif spec["fmt"] == "epoch":
        text, ref = str(spec["ref"] + 10 ** 9), spec["ref"] + 10 ** 9
    else:
        p = parse_ref("tim", ("date", {"t": spec["ref"], "fmt": spec["fmt"]}), spec["tz"])
        if p is None:
            raise Skip()
        text, ref, _ = p
    vals = {}
    for i, d in enumerate(spec["deltas"] + [0]):
        v = ref + d
        if v < 0:
            continue
        path = os.path.join(root, str(i))
        with open(path, "wb") as f:
            if what == "size":
                f.truncate(v)
        if what != "size":
            ns = v * 10 ** 9 + spec["frac"][i % len(spec["frac"])]
            other = (v + 1000) * 10 ** 9
            os.utime(path, ns=(ns, other) if what == "atime" else (other, ns))
        vals[str(i)] = v
    argv = ["--no-cache", "-0", "type=f", f"{what}{spec['op']}{text}"]
    res = ctx.run(argv, root, opt=spec["opt"], env={"TZ": spec["tz"]})
    expect_clean(res, argv)
    want = [n for n, v in vals.items() if model.compare_number(spec["op"], v, ref)]
    expect_same(split0(res.out), want, res, argv=argv, what="selected files", values=vals, tz=spec["tz"])
    ctx.nontrivial = 0 < len(want) < len(vals)
    ctx.mark(f"files {what}")


# ---------------------------------------------------------------- values outside of the grammar

BAD = {
    "num": ["abc", "1.5", "-1", "1e3", "0x10", "1K", "1,5", "1 2", "one", "1s", "--1", "1+1"],
    "siz": ["abc", "K", "1X", "-1", "-1K", "1KBB", "1.5", "1..5K", ".K", "1.K", "1,5K", "1KK", "1K1", "0x10", "1e3", "K1", "1bb", "B", "1.5b", "1MKB"],
    "tim": ["abc", "2020-13-01", "2020-02-30", "2019-02-29", "2020-00-10", "25:00", "12:60", "24:00:01x", "2020-01-01 25:00", "2020-01-01 10:61",
            "yesterday", "2020/01/01", "1h30x", "xh", "12:00 2020-01-01", "01-01-2020x", "h", "5x", "2020-01-01T10:00", "nan", "inf"],
    "dur": ["abc", "1.5", "h", "1x", "s1", "1h x", "1h,2m", "1hh", "1S", "1D", "1.5h", "1:30", "m5m", "5ms"],
}


def bad_cases(tier, seed):
    n = 0
    real = {"num": ["links", "uid", "depth"], "siz": ["size"], "tim": ["mtime", "atime", "time"], "dur": []}
    for attr, texts in BAD.items():
        for t in texts:
            for a in ["vfnum." + attr] + real[attr][:1 if tier == "quick" else 3]:
                n += 1
                yield {"tok": a + OPS[n % 9] + t, "via": n % 4, "opt": n % 2 == 0}


def bad_strategy(tier):
    txt = st.text(alphabet="0123456789KMGBkmgbshdwyi.-: +x", min_size=1, max_size=6)
    return st.fixed_dictionaries({"attr": st.sampled_from(["num", "siz", "tim", "dur"]), "text": txt, "opt": st.booleans()})


def in_grammar(attr, t):
    """True, False or None (not specified)."""
    import re
    if attr == "num":
        return True if re.fullmatch("[0-9]+", t) else (None if re.fullmatch(r"\s*\+?[0-9]+\s*", t) else False)
    if attr == "siz":
        if re.fullmatch(r"(?i)[0-9]+b?|[0-9]+(\.[0-9]+)?[KMGTPEZY]B?", t):
            return True
        return None if re.search(r"(?i)ib", t) else False
    if attr == "dur":
        if re.fullmatch("[0-9]+|([0-9]+[smhdwMy])+", t):
            return True
        return None if re.fullmatch(r"\s*[-+]?[0-9]+\s*|([0-9]+[smhdwMy]?\s*)+", t) else False
    return None if re.search("[0-9]", t) else False


def run_bad(ctx, spec):
    root = os.path.join(ctx.case, "t")
    os.mkdir(root)
    for n in ("0", "1", "x"):
        with open(os.path.join(root, n), "w"):
            pass
    vfile = os.path.join(ctx.case, "values.json")
    with open(vfile, "w") as f:
        json.dump([0, 10 ** 6], f)
    env = gen.plugin_env(ctx, spec["opt"], PLUGIN, "num")
    env["VF_VALUES"] = vfile
    if "tok" in spec:
        tok, ok = spec["tok"], False
        args = [[tok], ["-e", tok], ["not", tok], ["name:x", "or", tok]][spec["via"]]
    else:
        if spec["text"].strip() != spec["text"]:
            raise Skip()
        ok = in_grammar(spec["attr"], spec["text"])
        args = [f"vfnum.{spec['attr']}={spec['text']}"]
    argv = ["--no-cache"] + args
    res = ctx.run(argv, root, opt=spec["opt"], env=env)
    if res.timed_out or res.traceback:
        fail("timeout or traceback", res, argv=argv)
    if ok is None:
        ctx.nontrivial = False
        if res.rc not in (0, 2):
            fail(f"exit code {res.rc}", res, argv=argv)
    elif ok:
        ctx.mark("valid value")
        expect_clean(res, argv)
    else:
        ctx.mark("invalid value")
        if res.rc != 2 or res.out or not res.err:
            fail("a value outside of the grammar was not rejected with exit code 2", res, argv=argv)


CHECK = Check(
    "C04",
    [Part("values", run, strategy, quick=400),
     Part("files", run_files, files_strategy, quick=300),
     Part("invalid", run_bad, bad_strategy, cases=bad_cases, quick=200)],
    rule="values: a plugin supplies integers around the boundary of each generated reference value (parsed by an exact reference with "
         "fractions and zoneinfo); files: real sizes and time stamps around the boundary; invalid: strings outside of the grammars. "
         "Non-trivial: at least one reference could be computed / the entries are split by the test / the meaning of the value is specified.",
    assumptions=["Local times that are ambiguous or do not exist are left out, so are clock times within 90 s of the current time.",
                 "The unit suffix iB is not judged: documentation and implementation disagree about its base.",
                 "Values that are not a whole number of bytes are judged only outside of the enclosing integers."])
