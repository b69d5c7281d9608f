#!/usr/bin/env python3
"""check.py PROPERTY            run the property's check (tier from VERIF_TIER)
   check.py --replay FILE       run one recorded history again and judge it"""
import json
import os
import random
import re
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "run"))
import core     # noqa: E402
import models   # noqa: E402
import plans    # noqa: E402
import threads  # noqa: E402


def out_dir():
    d = os.path.join(core.VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    return d


def report(prop, exe, rejs, work, harness, module, run_blocks):
    """confirm a violation on its own, write its replay file"""
    rejs = sorted(rejs, key=lambda r: sum(len(x) for x in r[2]))
    tags, info, block, ev = rejs[0]
    confirmed = False
    for cand in rejs[:3]:
        r = run_blocks(exe, [cand[2]], work, module)
        if any(set(tags) & set(x[0]) for x in r.rej):
            tags, info, block, ev = cand
            confirmed = True
            break
    path = os.path.join(out_dir(), prop + ".replay")
    with open(path, "w") as f:
        f.write("# property %s; harness %s; module %s; the model expected: %s; confirmed alone: %s\n"
                % (prop, harness, module, info, confirmed))
        for ln in block:
            f.write("# " + core.show(ln) + "\n")
        f.write("# recorded: " + json.dumps(ev)[:4000] + "\n")
        f.write("\n".join(block) + "\n")
    print("%d histories disagree with the model on %s; shortest:" % (len(rejs), prop))
    for ln in block:
        print("   ", core.show(ln))
    print("   the model expected:", info, "| recorded outcome:", ev.get("res", ev.get("r")))
    print("VIOLATION property=%s replay=%s" % (prop, path))


def evidence(prop, tier, seed, t0, cov, violations):
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
                   "coverage": cov, "wall_s": round(time.time() - t0, 1), "violations": violations,
                   "assumptions": [
                       "the TLA+ model is the reading of RFC 3986 and of the documented interface given in spec/",
                       "a g++ build of the current tree with AddressSanitizer and assertions behaves like other builds",
                       "inputs are sampled or enumerated within the bounds stated in DESIGN.md"]}, f, indent=1)


def attribute(prop, rej, exe, work, module):
    """Disagreements whose cause is an earlier call of the history.
    C09: a call that threw must be as if it had not been made, so if a later
    disagreement goes away without the calls that threw, they did damage.
    C18: a crash that goes away when urls are built afresh instead of copied.
    All: what is there to see if a failed assertion does not stop the program.
    -> rejections, executor, its name"""
    out = []
    n = 0
    for (tags, info, block, ev) in rej:
        if prop in tags or n >= 24:
            continue
        last = len(block) - 1
        if prop == "C09":
            cut = [i for i in ev["threw"] if i < last]
            if not cut:
                continue
            variant = [ln for i, ln in enumerate(block) if i not in cut]
        elif prop == "C18" and ev["k"] == "X" and ev["cp"]:
            variant = [" ".join(ln.split()[:2] + ["fresh", "0"]) if ln.startswith("A ") else ln
                       for ln in block if " selfassign " not in ln]
        else:
            continue
        n += 1
        r = core.run_blocks(exe, [variant], work, module)
        if not (r.crashes if prop == "C18" else r.rej or r.crashes):
            out.append((tags + [prop], info, block, ev))
            break
    stopped = sorted((r[2] for r in rej if r[3]["k"] == "X"), key=lambda b: sum(len(x) for x in b))
    if not out and stopped:
        plain = core.build(work, "exec-plain")
        r = core.run_blocks(plain, stopped[:800], work, module)
        out = [x for x in r.rej if prop in x[0]]
        if out:
            return out, plain, "exec-plain"
    return out, exe, "exec"


def one_thread(prop, tier, seed, rng, work):
    """-> (model run, harness, {module: blocks}, exe, result, bad)"""
    k = 1 if tier == "quick" else int(os.environ.get("VERIF_K", "12"))
    harness, module = ("pool", "PoolTrace") if prop == "C20" else ("exec", "UrlTrace")
    exe = core.build(work, harness)
    mod, blocks = models.run_models(prop, tier, seed, work)
    nm = len(blocks)
    own = [b for b in blocks if b[0] == "Y new"]
    blocks = [b for b in blocks if b[0] != "Y new"] + plans.plan(prop, rng, k)
    res, bad = core.Result(), []
    for m, bs in ((module, blocks), ("OwnTrace", own)):
        if not bs:
            continue
        r = core.run_blocks(exe, bs, work, m)
        res.add(r)
        b = [x for x in r.rej if prop in x[0]]
        by, name = exe, harness
        if not b and r.rej and harness == "exec":
            b, by, name = attribute(prop, r.rej, exe, work, m)
        if b and not bad:
            report(prop, by, b, work, name, m, core.run_blocks)
        bad += b
    return mod, nm, blocks + own, res, bad


def check(prop, tier, seed):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rng = random.Random("%s-%s" % (prop, seed))
        if prop == "C22":
            mod, _ = models.run_models(prop, tier, seed, work)
            nm = 0
            blocks, res, bad = threads.run(rng, 1 if tier == "quick" else 12, work)
            if bad:
                threads.report(prop, bad, out_dir())
        else:
            mod, nm, blocks, res, bad = one_thread(prop, tier, seed, rng, work)
        smp = [[core.show(ln) for ln in b] for b in random.Random(1).sample(blocks, min(4, len(blocks)))]
        cov = {"states": mod.distinct + res.states, "transitions": mod.generated + res.events,
               "traces_validated_against_impl": res.blocks,
               "model_configurations": mod.names, "model_states": mod.distinct, "model_transitions": mod.generated,
               "cases_enumerated_by_the_model": mod.emitted, "of_these_replayed_in_the_code": mod.replayed,
               "histories_from_the_model": nm, "histories_from_generators": len(blocks) - nm,
               "calls_recorded": sum(len(b) for b in blocks), "executor_crashes": len(res.crashes), "samples": smp}
        evidence(prop, tier, seed, t0, cov, len(bad))
        print("%s %s: model %d states, %d transitions; %d histories (%d from the model), %d events validated, %.1f s"
              % (prop, tier, mod.distinct, mod.generated, res.blocks, nm, res.events, time.time() - t0))
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if sys.argv[1:2] == ["--replay"]:
        text = open(sys.argv[2]).read()
        lines = [x for x in text.split("\n") if x and not x.startswith("#")]
        work = tempfile.mkdtemp(prefix="verif-replay-")
        try:
            if text.startswith("# threads"):
                return threads.replay(lines, work)
            x = re.match(r"# property \w+; harness ([\w-]+); module (\w+);", text)
            r = core.run_blocks(core.build(work, x.group(1)), [lines], work, x.group(2))
            for x in r.rej:
                print(x[0], "the model expected:", x[1])
            return 1 if r.rej else 0
        finally:
            shutil.rmtree(work, ignore_errors=True)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return check(sys.argv[1], tier, seed)
    except core.ToolError as e:
        print("ERROR of the check:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
