"""Model checking: which TLC runs belong to a property, and how what they
enumerate is turned into scripts for the executor."""
import concurrent.futures as cf
import glob
import os
import random
import re

import core
import gen

# module, configuration, bounds for the quick and the thorough run (None: as in
# the file; thorough runs are first made with the quick bounds for replay)
class M:
    def __init__(self, module, cfg, conv, deep=None, limit=12000):
        self.module, self.cfg, self.conv, self.deep, self.limit = module, cfg, conv, deep or {}, limit


# ---------------------------------------------------------------- conversion
def tup(text):
    return eval(text.replace("<<", "(").replace(">>", ",)").replace("(,)", "()"), {"__builtins__": {}})


def by(x):
    return bytes(x)


def c_parse(x, rng):
    return [gen.P(by(x))]


def c_host(x, rng):
    return [gen.P(b"//" + by(x)), gen.P(b"s://u:p@" + by(x) + b":8/p")]


def c_plain(x, rng):
    s = by(x)
    ops = ["set_user", "set_password", "set_host", "set_query", "set_fragment"]
    b = [gen.H(b"s://h/a/b?q#f")] + [gen.O(op, s) for op in ops]
    return [b + [gen.O("seg_insert", s, 1), gen.O("seg_replace", s, 0)]]


def c_esc(x, rng):
    s = by(x)
    return [gen.P(b"//" + s + b":" + s + b"@" + s + b"/" + s + b"?" + s + b"=" + s + b"#" + s),
            [gen.H(b"s://u:p@h/a?q#f")] + [gen.O(op, s) for op in
             ("set_encoded_user", "set_encoded_password", "set_encoded_host", "set_encoded_query",
              "set_encoded_fragment")] + [gen.O("seg_replace_encoded", s, 0)]]


def c_path(x, rng):
    s = by(x)
    k = rng.choice(["-++-+--+", "+-+-+-", "++--++", "---+++", "+++---"])
    return [[gen.H(t), "W 1 0 %d %s" % (rng.randrange(6), k)] for t in (s, b"s:" + s, b"//h" + s)]


def c_query(x, rng):
    s = by(x)
    k = rng.choice(["-++-+--+", "+-+-+-", "++--++", "---+++", "+++---"])
    return [[gen.H(t), "W 1 1 %d %s" % (rng.randrange(6), k)] for t in (b"?" + s, b"s:p?" + s + b"#a&b=c")]


def c_lookup(x, rng):
    s = by(x)
    return [[gen.H(b"?" + s + b"#a=1")] + ["L 1 " + gen.hx(k) for k in (b"", b"a", b"b", b"ab", b"%61", b"=")]]


def c_scheme(x, rng):
    return [gen.S(by(x))]


def c_edge(x, rng):
    t, op, arg, i, j = x
    return [[gen.H(by(t)), gen.O(op, by(arg), i, j)]]


def c_edge17(x, rng):
    t, op, arg, i, j = x
    return [[gen.H(by(t), "c"), gen.O(op, by(arg), i, j)]]


def c_store(x, rng):
    """calls on storage: texts of the given lengths"""
    b = [gen.H(b"")]
    for (c, s, n, f) in x:
        if c == "modify":
            op = rng.choice(["set_encoded_url", "set_encoded_path", "set_encoded_url", "set_query"])
            if op == "set_query":
                b.append(gen.O(op, b"k" * (3 * n), inj=f, slot=s))
            else:
                b.append(gen.O(op, b"/" * (n > 0) + b"abcdefghijkl"[: max(0, 3 * n - 1)], inj=f, slot=s))
        elif c == "refused":
            b.append(gen.O(rng.choice(["set_encoded_path", "set_scheme", "set_port", "set_encoded_url"]), b"%zz", slot=s))
        else:
            b.append("A %d %s %d" % (s, c, f))
    # both must still be usable
    b.append(gen.O("set_encoded_query", b"last=" + b"x" * rng.randrange(12), slot=1))
    if any(c[0] in ("copy", "move", "assign", "selfassign") or c[1] == 2 for c in x):
        b.insert(1, "A 2 copy 0")
        b.append(gen.O("set_scheme", b"zz", slot=2))
    return [b]


PTYPE = {(1, 1): 0, (2, 2): 1, (4, 4): 2, (8, 8): 3, (3, 1): 5}


def c_pool(x, rng):
    base, size, hist = x
    b = ["N %d %d" % (size, base - 64)]
    for (ty, n, ok) in hist:
        big = {64: 1 << 62, 65: (1 << 62) + 1, 128: 1 << 63, 255: (1 << 64) - 1}.get(n, n)
        b.append("R %d %d" % (PTYPE[ty], big))
    return [b + ["R 0 1", "R 3 1"]]


def c_own(x, rng):
    b = ["Y new"]
    for (a, n, t) in x:
        if a == "fill":
            b.append("Y fill %d %s" % (n, gen.hx(by(t))))
        elif t:
            b.append("Y %s %d %d" % (a, n, t[0]))
        else:
            b.append("Y %s %d" % (a, n))
    return [b]


def url(c, deep=None, conv=c_edge, limit=12000):
    return M("MCUrl", "MCUrl_" + c, conv, deep, limit)


def strs(c, conv, deep=None, limit=12000):
    return M("MCStrings", "MCStrings_" + c, conv, deep, limit)


MODELS = {
    "C01": [strs("C01a", c_parse, {"MaxTokens": 5}, 16000), strs("C01b", c_parse, {"MaxTokens": 7}),
            strs("C01c", c_parse, {"MaxTokens": 6}), strs("C01d", c_parse, {"MaxTokens": 5})],
    "C02": [strs("C02a", c_parse, {"MaxTokens": 6}, 20000)],
    "C03": [strs("C03a", c_host, {"MaxTokens": 7}, 5000), strs("C03b", c_host, {"MaxTokens": 6}, 5000),
            strs("C03c", c_host, {"MaxTokens": 6}, 5000)],
    "C04": [url("C04a", {"MaxLen": 11})],
    "C05": [url("C05a", {"MaxLen": 13}, limit=16000)],
    "C06": [url("C06a", {"MaxLen": 13}, limit=16000)],
    "C07": [url("C07a", limit=20000)],
    "C08": [url("C08a", {"MaxLen": 12}, limit=20000)],
    "C09": [url("C09a", {"MaxLen": 12}), M("UrlStore", "UrlStore", c_store, {"Depth": 5}, 8000)],
    "C10": [strs("C10a", c_plain, {"MaxTokens": 2}, 4000), url("C10a", {"MaxLen": 9}, limit=8000)],
    "C11": [strs("C11a", c_esc, {"MaxTokens": 7}, 6000)],
    "C12": [strs("C12a", c_path, {"MaxTokens": 8}, 5000)],
    "C13": [url("C13a", {"MaxLen": 9}, limit=20000)],
    "C14": [strs("C14a", c_query, {"MaxTokens": 7}, 5000)],
    "C15": [strs("C15a", c_lookup, {"MaxTokens": 7}, 3000)],
    "C16": [strs("C16a", c_scheme, {"MaxTokens": 6}, 16000), url("C16a")],
    "C17": [url("C17a", conv=c_edge17)],
    "C18": [M("UrlStore", "UrlStore", c_store, {"Depth": 5}, 8000)],
    "C19": [url("C19a", {"MaxLen": 12}), M("UrlStore", "UrlStore", c_store, {"Depth": 5}, 8000)],
    "C20": [M("MCPool", "MCPool_C20a", c_pool, {"Depth": 3}, 16000), M("MCPool", "MCPool_C20b", None, {"Depth": 3})],
}
MODELS["C21"] = [M("MCOwnership", "MCOwnership", c_own, {"Depth": 6}, 6000)]
MODELS["C22"] = [M("Readers", "Readers", None, {"Rounds": 3})]
# that long texts may be judged by short ones
for _p, _c, _d in (("C01", "Parse", 5), ("C02", "Parse", 5), ("C03", "Host", 5), ("C06", "Calls", 4), ("C05", "Calls", 4),
                   ("C13", "Calls", 4), ("C12", "List", 7), ("C14", "List", 7), ("C15", "Query", 6)):
    MODELS[_p].append(M("MCStretch", "MCStretch_" + _c, None, {"MaxTokens": _d}))
# random behaviours: first urls, calls, longest text, number, length
SIMS = {
    "C04": ("StartsAll", "CallsAll", 40, 150, 30),
    "C05": ("StartsAll", "CallsAll", 60, 300, 40),
    "C06": ("StartsShapes", "CallsAll", 60, 200, 30),
    "C07": ("StartsShapes", "CallsAll", 40, 150, 30),
    "C08": ("StartsShapes", "CallsAmb", 40, 200, 30),
    "C13": ("StartsSeg", "CallsSeg", 40, 200, 40),
    "C17": ("StartsAll", "CallsBuild", 80, 100, 20),
    "C19": ("StartsAll", "CallsEvery", 200, 200, 60),
}

LINE = re.compile(r'^"(STR|EDGE|HIST) (.*)"$')
STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found, 0 states left")


class ModelRun:
    def __init__(self):
        self.generated = self.distinct = self.emitted = self.replayed = 0
        self.names = []


def cfg_file(work, cfg, sub, emit=True):
    t = open(os.path.join(core.SPEC, cfg + ".cfg")).read()
    for k, v in sub.items():
        t, n = re.subn(r"(%s =) .*" % k, r"\1 %s" % v, t)
        assert n == 1, (cfg, k)
    if not emit:
        t = re.sub(r" Emit\w*", "", t)
    p = os.path.join(work, "%s-%d.cfg" % (cfg, emit))
    open(p, "w").write(t)
    return p


def tlc(m, sub, work, emit, workers, timeout=None):
    r = core.java(["-workers", str(workers), "-config", cfg_file(work, m.cfg, sub, emit), m.module + ".tla"],
                  work, heap="6g", gc="-XX:+UseParallelGC", timeout=timeout)
    st = STATS.search(r.stdout)
    if r.returncode != 0 or not st:
        head = "\n".join(x for x in r.stdout.split("\n") if not x.startswith('"'))
        raise core.ToolError("model checking %s failed:\n%s" % (m.cfg, head[-3000:]))
    out = set()
    if emit:
        for ln in r.stdout.split("\n"):
            x = LINE.match(ln)
            if x:
                out.add(x.group(2))
    return int(st.group(1)), int(st.group(2)), sorted(out)


def pick(m, found, rng, k):
    """all of it, or a sample that treats every call alike"""
    n = m.limit * k
    if len(found) <= n:
        return found
    if m.conv in (c_edge, c_edge17):
        groups = {}
        for x in found:
            groups.setdefault(x[x.index('\\"'):], []).append(x)
        out = []
        per = n // len(groups) + 1
        for key in sorted(groups):
            g = groups[key]
            out += g if len(g) <= per else rng.sample(g, per)
        return out
    return rng.sample(found, n)


def run_models(prop, tier, seed, work):
    """-> ModelRun, blocks for the executor"""
    rng = random.Random("model-%s-%s" % (prop, seed))
    st = ModelRun()
    blocks = []
    ms = MODELS.get(prop, [])
    k = 1 if tier == "quick" else 6
    with cf.ThreadPoolExecutor(4) as ex:
        runs = list(ex.map(lambda m: tlc(m, {}, work, True, 4 if len(ms) > 1 else 8), ms))
    for m, (g, d, found) in zip(ms, runs):
        st.generated += g
        st.distinct += d
        st.names.append(m.cfg)
        if m.conv:
            st.emitted += len(found)
            use = pick(m, found, rng, k)
            st.replayed += len(use)
            for x in use:
                blocks += m.conv(tup(x.replace('\\"', '"')), rng)
    if tier != "quick":
        for m in ms:
            if m.deep:
                g, d, _ = tlc(m, m.deep, work, False, 8, timeout=6 * 3600)
                st.generated += g
                st.distinct += d
                st.names.append(m.cfg + " " + " ".join("%s=%s" % kv for kv in m.deep.items()))
    if prop in SIMS:
        blocks += simulate(prop, seed, work, k)
    return st, blocks


STATE = re.compile(r"^/\\ call = (<<.*>>)$", re.M)


def simulate(prop, seed, work, k):
    starts, calls, maxlen, num, depth = SIMS[prop]
    d = os.path.join(work, "sim")
    os.makedirs(d, exist_ok=True)
    t = open(os.path.join(core.SPEC, "MCUrlSim.cfg")).read()
    t = re.sub(r"Starts <- .*", "Starts <- " + starts, t)
    t = re.sub(r"Calls <- .*", "Calls <- " + calls, t)
    t = re.sub(r"MaxLen = .*", "MaxLen = %d" % maxlen, t)
    cfg = os.path.join(d, "sim.cfg")
    open(cfg, "w").write(t)
    r = core.java(["-workers", "1", "-simulate", "num=%d,file=%s" % (num * k, os.path.join(d, "tr")),
                   "-depth", str(depth), "-seed", str(seed), "-config", cfg, "MCUrlSim.tla"], work)
    files = sorted(glob.glob(os.path.join(d, "tr*")))
    if r.returncode != 0 or not files:
        raise core.ToolError("simulation failed:\n" + r.stdout[-3000:])
    blocks = []
    for f in files:
        b = []
        for x in STATE.findall(open(f).read().replace("\n  ", " ")):
            op, arg, i, j = tup(x)
            if op == "start":
                b.append(gen.H(by(arg), "c" if prop == "C17" else "-"))
            else:
                b.append(gen.O(op, by(arg), i, j))
        blocks.append(b)
        os.remove(f)
    return blocks
