#!/usr/bin/env python3
"""Decides one property by exhaustive bounded exploration of the code in /repo.

  check.py --property C01 [--tier quick|thorough]     run the check
  check.py --replay FILE                              run the recorded case again

Exit 0: held on everything explored.  Exit 1 + 'VIOLATION property=.. replay=..': broken.
Exit 2: the check itself could not run (build failure, internal error).
"""
import argparse, concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vbuild
from registry import CHECKS, BINARIES

V = vbuild.VERIF
ENV = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:fast_unwind_on_malloc=1:malloc_context_size=4",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1", "LSAN_OPTIONS": "exitcode=98"}

# In every fourth shard freed memory is given out again at once, so that later objects stand where earlier ones stood.
REUSE = {"ASAN_OPTIONS": ENV["ASAN_OPTIONS"] + ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"}


def build(binname):
    b = dict(BINARIES[binname])
    srcs = [os.path.join(V, s) for s in b.pop("srcs")]
    b["extra_inc"] = [os.path.join(V, i) for i in b.get("extra_inc", ())]
    return vbuild.build(binname, srcs, **b)


STALL = 120  # seconds without a sign of progress that count as a hang
MAX_RSS = 3500 << 20  # no case needs a tenth of this
STOP = threading.Event()  # set once a violation is known: the other shards are stopped


def rss(pid):
    try:
        return int(open("/proc/%d/statm" % pid).read().split()[1]) * 4096
    except (OSError, ValueError, IndexError):
        return 0


def run_shard(job):
    path, args, timeout, tmp, tag, env = job
    if STOP.is_set():
        return {"rc": "stopped", "stats": None, "case": "", "out": "", "wall": 0}
    stats, case, out = (os.path.join(tmp, tag + s) for s in (".json", ".case", ".out"))
    e = dict(os.environ)
    e.update(ENV)
    e.update(env or {})
    t = time.time()
    with open(out, "wb") as f:
        p = subprocess.Popen([path] + args + ["--stats", stats, "--casefile", case], stdout=f, stderr=subprocess.STDOUT,
                             env=e, cwd=tmp, start_new_session=True)
        rc, beat, since = None, None, time.time()
        while rc is None:
            try:
                rc = p.wait(timeout=0.2)
                continue
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            try:
                b = open(case, "rb").read()[-8:]
            except OSError:
                b = None
            if b != beat:
                beat, since = b, now
            if rss(p.pid) > MAX_RSS:
                why = "memory"
            else:
                why = "stopped" if STOP.is_set() and tag != "again" else "timeout" if now - t > timeout or now - since > STALL else None
            if why:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = why
    cur = ""
    try:
        cur = open(case, "rb").read().split(b"\0")[0].decode("latin-1")
    except OSError:
        pass
    st = None
    try:
        st = json.load(open(stats))
    except (OSError, ValueError):
        pass
    text = open(out, "rb").read()[-20000:].decode("latin-1")
    if rc not in (0, 2, "stopped", -signal.SIGKILL):
        STOP.set()
    return {"rc": rc, "stats": st, "case": cur, "out": text, "wall": time.time() - t}


def known_findings():
    f = os.path.join(V, "known-findings.txt")
    r = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                r.append(m.groups())
    return r


def violation(prop, binname, section, res, why, case, env=None, args=()):
    d = os.path.join(V, "replays")
    os.makedirs(d, exist_ok=True)
    n = 0
    while os.path.exists(os.path.join(d, "%s-%d.json" % (prop, n))):
        n += 1
    path = os.path.join(d, "%s-%d.json" % (prop, n))
    m = re.match(r"(\S+):(-?\d+) ?(.*)", case, re.S)
    json.dump({"property": prop, "binary": binname, "section_group": section,
               "args": args, "section": m.group(1) if m else None, "case": int(m.group(2)) if m else None,
               "env": env, "input": m.group(3) if m else case, "why": why, "output": res["out"][-6000:]},
              open(path, "w"), indent=1)
    print("property %s is broken: %s" % (prop, why))
    print("  case: %s" % case[:2000])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()


def judge(res):
    """None if the shard held, else a description. Raises on harness errors."""
    rc = res["rc"]
    if rc == "stopped" or rc == 0 and res["stats"] is not None:
        return None
    if rc == 3 and res["stats"] and res["stats"]["fails"]:
        return res["stats"]["fails"][0]
    if rc == 2:
        raise RuntimeError("harness error:\n" + res["out"][-3000:])
    if rc == "timeout":
        return "no progress (hang) in case " + res["case"]
    if rc == "memory":
        return "memory use grows without bound in case " + res["case"]
    if rc == -signal.SIGKILL:
        raise RuntimeError("shard was killed (out of memory?)")
    m = re.search(r"(ERROR: \w+Sanitizer[^\n]*|runtime error:[^\n]*|Assertion[^\n]*|terminate called[^\n]*(?:\n[^\n]*what[^\n]*)?|RACE[^\n]*)", res["out"])
    return "crash (%s): %s" % (rc, m.group(1) if m else "no message")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        path = build(r["binary"])
        args = ["--tier", a.tier, "--section", r["section_group"]] + list(r.get("args") or ())
        if r["case"] is not None:
            args += ["--only", str(r["case"])]
        e = dict(os.environ)
        e.update(ENV)
        e.update(r.get("env") or {})
        sys.exit(subprocess.call([path] + args, env=e))
    prop = a.property
    spec = CHECKS[prop]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ev = os.path.join(V, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.unlink(ev)
    runs = spec["runs"]
    bins = {}
    try:
        for b in sorted(set(r["bin"] for r in runs)):
            bins[b] = build(b)
    except vbuild.BuildError as e:
        print("cannot build the check:\n" + str(e)[-6000:])
        sys.exit(2)
    tbuild = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        limit = 700 if a.tier == "quick" else 7200
        jobs = []
        for i, r in enumerate(runs):
            n = r.get("shards", a.jobs)
            for s in range(n):
                args = ["--tier", a.tier, "--section", r["section"], "--shard", str(s), "--nshards", str(n)] + list(r.get("args", ()))
                jobs.append((r, (bins[r["bin"]], args, limit, tmp, "%d_%d" % (i, s), REUSE if s % 4 == 3 else None)))
        bad = []
        broken = []
        results = []
        with concurrent.futures.ThreadPoolExecutor(max_workers=a.jobs) as ex:
            for (r, j), res in zip(jobs, ex.map(run_shard, [j for _, j in jobs])):
                results.append((r, res))
                try:
                    why = judge(res)
                except RuntimeError as e:
                    broken.append(str(e))
                    continue
                if why:
                    bad.append((r, j, res, why))
        # a hang is only believed when the case hangs on its own
        confirmed = []
        for r, j, res, why in sorted(bad, key=lambda b: b[2]["rc"] in ("timeout", "memory")):
            if res["rc"] in ("timeout", "memory"):
                if confirmed:
                    continue
                m = re.match(r"(\S+):(-?\d+)", res["case"])
                if not m:
                    print("%s before the first case" % res["rc"])
                    sys.exit(2)
                STOP.clear()
                again = run_shard((j[0], list(j[1]) + ["--only", m.group(2)], 150, tmp, "again", j[5]))
                if judge(again) is None:
                    print("%s: a shard exceeded the limit; the case alone does not" % res["rc"])
                    sys.exit(2)
            confirmed.append((r, j, res, why))
        if broken and not confirmed:
            print(broken[0])
            sys.exit(2)
        cov = summarize(spec, results, runs)
        keys = {}
        for r, res in results:
            for f in (res["stats"] or {}).get("findings", []):
                keys[f] = 1
        known = [k for k in known_findings() if k[0] == prop]
        unlisted = [k for k in keys if not any(k == x[1] for x in known)]
        for pr, key, text in known:
            if key in keys:
                print("KNOWN-FINDING: property=%s %s" % (pr, text))
        nviol = len(confirmed) + len(unlisted)
        if nviol:
            cov["exhaustive"] = False
        json.dump({"property": prop, "tier": a.tier, "seed": seed, "level": spec["level"], "coverage": cov,
                   "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 2),
                   "build_s": round(tbuild, 2), "violations": nviol}, open(ev, "w"), indent=1)
        if confirmed:
            r, j, res, why = confirmed[0]
            case = res["case"]
            if res["stats"] and res["stats"]["fails"]:
                case = res["stats"]["fails"][0].split(" -> ")[0]
            violation(prop, r["bin"], r["section"], res, why, case, j[5], r.get("args", ()))
            sys.exit(1)
        if unlisted:
            violation(prop, runs[0]["bin"], runs[0]["section"], results[0][1], "unlisted finding " + unlisted[0], unlisted[0])
            sys.exit(1)
        ne = cov.get("evaluations", cov.get("transitions", 0))
        if ne == 0:
            print("nothing was explored")
            sys.exit(2)
        print("%s held: %s" % (prop, json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, bool))})))
        sys.exit(0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def summarize(spec, results, runs):
    counters, sections, samples, distinct, outcomes, states = {}, {}, [], 0, set(), set()
    for r, res in results:
        st = res["stats"]
        if not st:
            continue
        for k, v in st["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in st["sections"].items():
            sections[r["bin"] + ":" + k] = sections.get(r["bin"] + ":" + k, 0) + v
        distinct += st["distinct"]
        outcomes.update(st["outcomes"])
        states.update(st["states"])
        if len(samples) < 6:
            for s in st["samples"]:
                if not any(s.split(":")[0] == x.split(":")[0] for x in samples):
                    samples.append(s)
    cases = sum(sections.values())
    cov = {"exhaustive": not counters.get("cut_off"), "rule": spec["rule"], "samples": samples[:12], "cases_per_section": sections, "counters": counters}
    if spec["level"] == "model_checking":
        cov["states"] = counters.get("states", 0) + len(states)
        cov["transitions"] = counters.get("transitions", 0)
        cov["traces_validated_against_impl"] = counters.get("schedules", 0) or counters.get("traces", 0)
    else:
        cov["evaluations"] = max(counters.get("evaluations", 0) or cases, distinct)
        cov["distinct_nontrivial"] = distinct
    if outcomes:
        cov["distinct_outcomes"] = len(outcomes)
    return cov


if __name__ == "__main__":
    main()
