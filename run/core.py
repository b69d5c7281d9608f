"""Build the executor from /repo, run scripts, validate the traces with TLC."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8


class ToolError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def build(work, name="exec", threads=False):
    """"exec-plain" is exec without the library's own assertions;
    compile /repo's sources and the executor; a tree that does not compile
    here is an error of the check, not a verdict"""
    san = "-fsanitize=" + ("thread" if threads else "address")
    fl = ["-std=c++14", "-O1", san, "-fno-omit-frame-pointer", "-g1",
          "-DBOOST_URL_NO_LIB=1", "-DBOOST_URL_STATIC_LINK=1", "-I" + os.path.join(REPO, "include")]
    if threads:
        fl += ["-DVERIF_THREADS", "-pthread"]
    if name.endswith("-plain"):
        fl += ["-DNDEBUG"]
    objs = []
    ps = []
    for src in (os.path.join(REPO, "src", "src.cpp"),
                os.path.join(VERIF, "harness", name.replace("-plain", "") + ".cpp")):
        o = os.path.join(work, name + "-" + os.path.basename(src) + ".o")
        objs.append(o)
        ps.append(subprocess.Popen(["g++"] + fl + ["-c", src, "-o", o],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    for p in ps:
        out, _ = p.communicate()
        if p.returncode:
            raise ToolError("compile failed:\n" + out[-3000:])
    locales(work)
    exe = os.path.join(work, name)
    r = run(["g++", san, "-pthread"] + objs + ["-o", exe])
    if r.returncode:
        raise ToolError("link failed:\n" + r.stdout[-3000:])
    return exe


STARTS = ("P ", "S ", "H ", "T ", "N ", "F ", "B ", "V ", "Y new")


def crash_event(line, n, ph, sig):
    f = line.split()
    kind = f[0]
    ev = {"n": n, "k": "X", "ph": ph, "kind": kind, "op": "", "s": [], "c17": 0, "th": 0, "cp": 0}
    if kind == "O":
        ev["op"] = f[2]
        ev["s"] = [97] if f[3][0] == "F" else ([] if f[3] == "-" else list(bytes.fromhex(f[3])))
    return ev


def locales(work):
    """a locale whose letters have other cases than ours, in `work`; executors
    run partly in it"""
    d = os.path.join(work, "locale")
    if not os.path.isdir(d):
        os.makedirs(d, exist_ok=True)
        try:
            run(["localedef", "--no-archive", "-i", "tr_TR", "-f", "ISO-8859-9", os.path.join(d, "tr")])
        except OSError:
            pass
    return d


def execute(exe, script, out, limit=200):
    """run the executor over a script file, stepping over crashes"""
    lines = open(script).read().split("\n")
    if lines and not lines[-1]:
        lines.pop()
    prog = out + ".prog"
    open(out, "w").close()
    first = 0
    crashes = []
    hangs = 0
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:abort_on_error=0:"
               "symbolize=0:hard_rss_limit_mb=4000", LOCPATH=locales(os.path.dirname(exe)))
    while True:
        r = subprocess.run([exe, script, out, prog, str(first)], stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, env=env)
        line, ph, threw = struct.unpack("lll", open(prog, "rb").read(24).ljust(24, b"\0"))
        if r.returncode == 0:
            break
        if r.returncode in (2, 3):
            raise ToolError("executor: " + r.stderr.decode(errors="replace")[-500:])
        ev = crash_event(lines[line], line, ph, r.returncode)
        h = line
        while not lines[h].startswith(STARTS):
            h -= 1
        if lines[h].startswith("H ") and "c" in lines[h].split()[2]:
            ev["c17"] = 1
        ev["th"] = int(threw)
        ev["cp"] = int(any(x.startswith("A ") for x in lines[h:line + 1]))
        # a partly written last line would break the trace
        data = open(out, "rb").read()
        if data and not data.endswith(b"\n"):
            data = data[:data.rfind(b"\n") + 1]
            open(out, "wb").write(data)
        with open(out, "a") as f:
            f.write(json.dumps(ev) + "\n")
        hangs += r.returncode == -26      # SIGVTALRM
        crashes.append((line, ph, r.stderr.decode(errors="replace")[:2000]))
        nxt = line + 1
        while nxt < len(lines) and not lines[nxt].startswith(STARTS):
            nxt += 1
        if nxt >= len(lines) or len(crashes) >= limit or hangs >= 8:
            break
        first = nxt
    os.remove(prog)
    return crashes


def java(args, work, env=None, heap="3g", timeout=None, gc="-XX:+UseSerialGC"):
    tmp = tempfile.mkdtemp(dir=work)
    cmd = ["java", "-Xmx" + heap, "-Xss128m", gc, "-Djava.io.tmpdir=" + tmp, "-cp", JAR, "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", os.path.join(tmp, "md")] + args
    e = dict(os.environ)
    e.update(env or {})
    r = run(cmd, cwd=SPEC, env=e, timeout=timeout)
    shutil.rmtree(tmp, ignore_errors=True)
    return r


REJ = re.compile(r'^"REJ <<(\d+), \{(.*?)\}, (.*)>>"$')


def validate(trace, work, module="UrlTrace"):
    """TLC over one trace file -> (states, [(line, tags, info)])"""
    n = sum(1 for _ in open(trace))
    if n == 0:
        return 0, []
    r = java(["-workers", "1", "-config", module + ".cfg", module + ".tla"], work, {"TRACE": trace})
    rej = []
    for ln in r.stdout.split("\n"):
        ln = ln.replace('\\"', '"')
        m = REJ.match(ln)
        if m:
            rej.append((int(m.group(1)), re.findall(r"C\d\d", m.group(2)), m.group(3)))
    m = re.search(r"(\d+) states generated, (\d+) distinct", r.stdout)
    if r.returncode != 0 or not m or int(m.group(2)) != n + 1:
        raise ToolError("TLC did not validate the trace:\n" + r.stdout[-3000:])
    return int(m.group(2)), rej


class Result:
    def __init__(self):
        self.events = 0
        self.states = 0
        self.blocks = 0
        self.crashes = []
        self.rej = []        # (tags, info, block lines, event)

    def add(self, r):
        self.events += r.events
        self.states += r.states
        self.blocks += r.blocks
        self.crashes += r.crashes
        self.rej += r.rej


def shard(exe, blocks, work, idx, module="UrlTrace"):
    d = os.path.join(work, "s%d" % idx)
    os.makedirs(d, exist_ok=True)
    script = os.path.join(d, "script")
    trace = os.path.join(d, "trace")
    starts = []
    with open(script, "w") as f:
        n = 0
        for b in blocks:
            starts.append(n)
            for ln in b:
                f.write(ln + "\n")
                n += 1
    crashes = execute(exe, script, trace)
    states, rej = validate(trace, d, module)
    res = Result()
    res.states = states
    res.events = max(0, states - 1)
    res.blocks = len(blocks)
    res.crashes = crashes
    if rej:
        import bisect
        lines = open(trace).read().split("\n")
        threw = {}
        for ln in lines:
            if '"k":"O"' in ln[:30] or '"k":"A"' in ln[:30]:
                e = json.loads(ln)
                if e.get("res", "ok") != "ok":
                    k = bisect.bisect_right(starts, e["n"]) - 1
                    threw.setdefault(k, []).append(e["n"] - starts[k])
        for (l, tags, info) in rej:
            ev = json.loads(lines[l - 1])
            k = bisect.bisect_right(starts, ev["n"]) - 1
            ev["threw"] = threw.get(k, [])
            res.rej.append((tags, info, blocks[k][: ev["n"] - starts[k] + 1], ev))
    os.remove(trace)
    return res


def run_blocks(exe, blocks, work, module="UrlTrace", per=12000, jobs=NCPU):
    """split over shards of about `per` lines, validate all"""
    total = sum(len(b) for b in blocks)
    n = max(1, min(len(blocks), max(min(jobs, total // 400 + 1), (total + per - 1) // per)))
    parts = [blocks[i::n] for i in range(n)]
    out = Result()
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda a: shard(exe, a[1], work, a[0], module), enumerate(parts)):
            out.add(r)
    return out


def show(b):
    """a script line for people"""
    f = b.split()
    out = []
    for k, x in enumerate(f):
        if k and re.fullmatch(r"(?:[0-9a-f]{2})+", x) and not (f[0] in "OLWAT" and k == 1 and len(x) < 2) \
                and not (f[0] == "O" and k >= 4):
            out.append(repr(bytes.fromhex(x))[1:])
        else:
            out.append(x)
    return " ".join(out)
