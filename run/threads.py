"""Several threads: each runs its own script and looks at the objects they all
share, under ThreadSanitizer; every thread's trace is validated like any other.

A disagreement with the model or a crash is interference only if the same
scripts, run one after the other, do not show it too."""
import concurrent.futures as cf
import os
import subprocess

import core
import gen
import plans

THREADS = 4
SHARED = [b"http://u%41:p@h:80/a/b%2fc/?k=v&k2=%6b&k#f%20g", b"s:a/b?x=1&k=%61#", b"//[::1]:9/", b"HTTPS://1.2.3.4/a//?k", b"", b"/a/b/c?k=1&k=2"]


def launch(exe, shared, script, out, n):
    env = dict(os.environ, TSAN_OPTIONS="exitcode=66 halt_on_error=0 symbolize=0 report_signal_unsafe=0",
               LOCPATH=core.locales(os.path.dirname(exe)))
    cmd = [exe, gen.hx(shared), script, out, str(n)]
    for pre in ([], ["setarch", "-R"]):
        try:
            r = subprocess.run(pre + cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=120)
        except subprocess.TimeoutExpired:
            return -1, ""
        err = r.stderr.decode(errors="replace")
        if "FATAL: ThreadSanitizer" not in err:
            if r.returncode in (2, 3):
                raise core.ToolError("executor: " + err[-500:])
            return r.returncode, err
    raise core.ToolError("ThreadSanitizer does not run here: " + err[-500:])


def write(path, blocks):
    with open(path, "w") as f:
        for b in blocks:
            f.write("".join(x + "\n" for x in b))


def clean(path):
    """whole lines only (a thread may have been stopped in the middle of one)"""
    data = open(path, "rb").read() if os.path.exists(path) else b""
    open(path, "wb").write(data[:data.rfind(b"\n") + 1])
    return path


def play(exe, d, shared, scripts):
    """-> (status, stderr, states, rejections) with all threads at once"""
    s, o = os.path.join(d, "script"), os.path.join(d, "out")
    for i, b in enumerate(scripts):
        write("%s.%d" % (s, i), b)
        open("%s.%d" % (o, i), "w").close()
    rc, err = launch(exe, shared, s, o, len(scripts))
    with cf.ThreadPoolExecutor(core.NCPU) as ex:
        vs = list(ex.map(lambda i: core.validate(clean("%s.%d" % (o, i)), d), range(len(scripts))))
    return rc, err, sum(v[0] for v in vs), [(i, r) for i, v in enumerate(vs) for r in v[1]]


def alone(exe, d, shared, scripts):
    """do the scripts misbehave one at a time?"""
    for i, b in enumerate(scripts):
        rc, err, _, rej = play(exe, d, shared, [b])
        if rc or rej:
            return True
    return False


def judge(exe, d, shared, scripts):
    rc, err, states, rej = play(exe, d, shared, scripts)
    why, ill = None, False
    if "data race" in err:
        why = "data race: " + err[:1500]
    elif rc == -1 and play(exe, d, shared, scripts)[0] != -1:
        pass        # the machine was slow, not the library
    elif rc or rej:
        ill = alone(exe, d, shared, scripts)
        if not ill:
            why = "status %d, %s" % (rc, rej[:3])
    return why, ill, states


def run(rng, k, work):
    exe = core.build(work, "exec", threads=True)
    res, bad, blocks, nill = core.Result(), [], [], 0
    for j in range(8 * k):
        shared = SHARED[j] if j < len(SHARED) else plans.r_url(rng)
        d = os.path.join(work, "t%d" % j)
        os.makedirs(d)
        scripts = [plans.c22(rng, 60) for _ in range(THREADS)]
        why, ill, states = judge(exe, d, shared, scripts)
        res.states += states
        res.events += max(0, states - THREADS)
        res.blocks += sum(len(s) for s in scripts)
        for s in scripts:
            blocks += s
        if why:
            # shorter scripts that still show it
            for n in (1, 4, 15):
                cut = [s[:n] for s in scripts]
                w = judge(exe, d, shared, cut)[0]
                if w:
                    why, scripts = w, cut
                    break
            bad.append((why, shared, scripts))
        # wrong without any concurrency: nothing can be said about this property
        nill += ill
        if why or nill >= 2:
            break
    return blocks, res, bad


def report(prop, bad, d):
    why, shared, scripts = bad[0]
    path = os.path.join(d, prop + ".replay")
    with open(path, "w") as f:
        f.write("# threads; shared url %r; %s\n" % (shared, why.replace("\n", "\n# ")))
        f.write("SHARED %s\n" % gen.hx(shared))
        for s in scripts:
            f.write("THREAD\n" + "".join(x + "\n" for b in s for x in b))
    print("threads interfere:", why.split("\n")[0][:300])
    print("VIOLATION property=%s replay=%s" % (prop, path))


def replay(lines, work):
    shared = bytes.fromhex(lines[0].split()[1].replace("-", ""))
    scripts = []
    for x in lines[1:]:
        if x == "THREAD":
            scripts.append([])
        else:
            scripts[-1].append([x])
    exe = core.build(work, "exec", threads=True)
    why = judge(exe, work, shared, scripts)[0]
    print(why or "no interference")
    return 1 if why else 0
