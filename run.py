#!/usr/bin/env python3
"""Driver for one property check: build harness(es) from /repo's working tree, run the monitored
workload, judge what the monitors saw, write evidence.

  run.py C05                 the check (tier from VERIF_TIER, seed from VERIF_SEED)
  run.py C05 --replay FILE   re-run the single failing case recorded in a replay file
"""
import concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(V, ".build"))
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

CXX = "/usr/bin/g++-14"
COMMON = ["-std=gnu++23", "-fopenmp", "-isystem", "/usr/include/opencv4", "-iquote", REPO, "-I" + os.path.join(V, "harness"), "-w", "-g1"]
FLAVOURS = {
    # memory/UB monitor
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    # memory/UB monitor, cheaper to compile
    "asan0": ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    # race monitor: OpenMP and parallel-STL run on instrumented stand-ins (see harness/par)
    "tsan": ["-O1", "-fsanitize=thread", "-DVP_TSAN", "-include", os.path.join(V, "harness/par/pstl_backend.hpp")],
    # the shipping parallel runtime, only library assertions
    "plain": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    # the same, for translation units whose optimised compilation is out of reach
    "plain0": ["-O0", "-g0", "-D_GLIBCXX_ASSERTIONS"],
}
SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1:max_malloc_fill_size=67108864:malloc_fill_byte=%d:quarantine_size_mb=64",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "exitcode=77:halt_on_error=1:second_deadlock_stack=1:history_size=4:memory_limit_mb=12000",
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def source_key(extra):
    h = hashlib.sha256()
    for root in (REPO,):
        for f in sorted(os.listdir(root)):
            if f.endswith((".h", ".cpp", ".hpp")):
                h.update(f.encode())
                h.update(open(os.path.join(root, f), "rb").read())
    for dp, _, fs in sorted(os.walk(os.path.join(V, "harness"))):
        for f in sorted(fs):
            h.update(f.encode())
            h.update(open(os.path.join(dp, f), "rb").read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


class HarnessError(Exception):
    pass


def compile_one(src, flags, key):
    os.makedirs(BUILD, exist_ok=True)
    obj = os.path.join(BUILD, "%s.%s.o" % (os.path.basename(src), hashlib.sha256((key + src + repr(flags)).encode()).hexdigest()[:20]))
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d.o" % os.getpid()
        r = sh([CXX] + flags + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            if os.path.exists(tmp):
                os.unlink(tmp)
            raise HarnessError("compilation of %s failed:\n%s" % (src, "\n".join(r.stdout.splitlines()[:60])))
        os.replace(tmp, obj)
    return obj


def build(unit):
    """unit: dict(sources, flavour, defs, libs). Returns path of the executable."""
    flavour = unit.get("flavour", "asan")
    flags = COMMON + FLAVOURS[flavour] + unit.get("flags", [])
    srcs = [s if s.startswith("/") else (os.path.join(REPO, s[5:]) if s.startswith("repo:") else os.path.join(V, "harness", s)) for s in unit["sources"]]
    key = source_key(flags)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: compile_one(s, flags, key), srcs))
    exe = os.path.join(BUILD, "exe.%s" % hashlib.sha256((key + repr(objs)).encode()).hexdigest()[:20])
    if not os.path.exists(exe):
        link = [f for f in FLAVOURS[flavour] if f.startswith("-fsanitize")]
        libs = unit.get("libs", ["-ltbb"])
        omp = [] if unit.get("no_gomp") else ["-fopenmp"]
        tmp = exe + ".tmp%d" % os.getpid()
        r = sh([CXX] + link + omp + objs + ["-o", tmp] + libs + ["-pthread", "-ldl"] + unit.get("link", []))
        if r.returncode != 0:
            raise HarnessError("link failed:\n" + r.stdout[-4000:])
        os.replace(tmp, exe)
    return exe


def known_for(prop):
    out = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def run_shard(exe, prop, unit, shard, shards, seed, tier, budget, scratch, known, section=None, case=None):
    out = os.path.join(scratch, "out.%d.json" % shard)
    crumb = os.path.join(scratch, "crumb.%d" % shard)
    sdir = os.path.join(scratch, "s%d" % shard)
    os.makedirs(sdir, exist_ok=True)
    env = dict(os.environ)
    fill = [190, 0, 255, 85, 127, 1, 63, 200][shard % 8]
    env.update({k: (v % fill if "%d" in v else v) for k, v in SAN_ENV.items()})
    for k, v in unit.get("san", {}).items():
        env[k] = env[k] + ":" + v
    env.update({
        "VERIF_SEED": str(seed), "VERIF_TIER": tier, "VP_SHARD": str(shard), "VP_SHARDS": str(shards), "VP_BUDGET": str(budget),
        "VP_OUT": out, "VP_CRUMB": crumb, "VP_SCRATCH": sdir, "VP_KNOWN": ",".join(known), "VP_REPO": REPO, "VP_HARNESS": os.path.join(V, "harness"),
        "VP_SCALE": str(unit.get("scale", 1)), "OMP_NUM_THREADS": str(unit.get("omp", 3)), "OMP_WAIT_POLICY": "passive", "MALLOC_PERTURB_": str(fill),
    })
    env.update(unit.get("env", {}))
    if section:
        env["VP_SECTION"] = section
        env["VP_CASE"] = str(case)
    err = os.path.join(scratch, "err.%d" % shard)
    t0 = time.time()
    with open(err, "wb") as ef:
        p = subprocess.Popen([exe], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=sdir, start_new_session=True)
        try:
            rc = p.wait(timeout=budget + unit.get("grace", 360))
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    res = {"rc": rc, "shard": shard, "secs": time.time() - t0, "json": None, "crumb": "", "stderr": ""}
    if os.path.exists(out):
        try:
            res["json"] = json.load(open(out))
        except ValueError:
            pass
    if os.path.exists(crumb):
        res["crumb"] = open(crumb, "rb").read().split(b"\0")[0].decode("utf8", "replace")
    raw = open(err, "rb").read()
    raw = re.sub(rb"(Fail to [^!\n]*!\n?|index = \d+, count = \d+\n)+", b"", raw)
    res["stderr"] = (raw if len(raw) < 24000 else raw[:12000] + b"\n...\n" + raw[-12000:]).decode("utf8", "replace")
    return res


SAN_RE = re.compile(r"(ERROR: AddressSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|[^\n]*runtime error:[^\n]*|VP-HANG[^\n]*|terminate called[^\n]*|[^\n]*Assertion '[^\n]*|what\(\):[^\n]*|AddressSanitizer:DEADLYSIGNAL)")


def judge(res):
    """Returns None (quiet), ('violation', info) or ('error', text)."""
    rc, js = res["rc"], res["json"]
    if rc == 0 and js is not None and js["violation"] is None:
        return None
    if rc == 1 and js is not None and js["violation"]:
        v = js["violation"]
        return ("violation", {"key": v["key"], "section": v["section"], "case": v["case"], "desc": v["desc"], "message": v["message"]})
    m = re.match(r"section=(\S+) case=(\d+) seed=(\d+) :: (.*)", res["crumb"], re.S)
    first = SAN_RE.search(res["stderr"])
    if rc == -signal.SIGKILL or (first and "memory limit" in first.group(0)):
        return ("error", "shard killed (out of memory?)\n" + res["stderr"][-2000:])
    if not m:
        return ("error", "shard ended with %r before any case\n%s" % (rc, res["stderr"][-3000:]))
    if rc is None:
        return ("violation", {"key": "hang:" + m.group(1), "section": m.group(1), "case": int(m.group(2)), "desc": m.group(4), "message": "the workload did not finish"})
    if rc == 3:
        return ("error", "harness self-check failed\n" + res["stderr"][-3000:])
    msg = first.group(0).strip() if first else ("process ended with signal %d" % -rc if rc < 0 else "process exited with status %d" % rc)
    return ("violation", {"key": "crash:" + m.group(1), "section": m.group(1), "case": int(m.group(2)), "desc": m.group(4), "message": msg})


def main():
    prop = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[prop]
    t0 = time.time()
    known = known_for(prop)
    scratch_root = tempfile.mkdtemp(prefix="vp_%s_" % prop, dir=os.environ.get("VP_TMP", "/tmp"))
    evid = os.path.join(os.environ.get("VP_EVID", os.path.join(V, "evidence")), prop + ".json")
    os.makedirs(os.path.dirname(evid), exist_ok=True)
    violation = None
    merged = {}
    events = {}
    known_hits = {}
    runs = []
    rep = json.load(open(replay)) if replay else None
    try:
        units = spec["units"]
        if rep:
            units = [u for u in units if u["name"] == rep["unit"]]
            seed, tier = rep["seed"], rep["tier"]
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            exes = list(ex.map(build, units))
        tb = time.time() - t0
        total = spec.get("budget", {}).get(tier, 150 if tier == "quick" else 1500)
        for u, exe in zip(units, exes):
            shards = 1 if rep else u.get("shards", 8)
            budget = u.get("budget", {}).get(tier, total / len(units))
            scratch = os.path.join(scratch_root, u["name"])
            os.makedirs(scratch)
            with concurrent.futures.ThreadPoolExecutor(shards) as ex:
                futs = [ex.submit(run_shard, exe, prop, u, s, shards, seed, tier, budget, scratch, list(known),
                                  rep and rep["section"], rep and rep["case"]) for s in range(shards)]
                results = [f.result() for f in futs]
            # A hang is reported only when it repeats with the machine to itself.
            hung = [r for r in results if r["rc"] in (None, 78)]
            results = [r for r in results if r["rc"] not in (None, 78)]
            if not any((judge(r) or ("",))[0] == "violation" for r in results):
                for r in hung:
                    again = run_shard(exe, prop, u, r["shard"], shards, seed, tier, budget, scratch, list(known), rep and rep["section"], rep and rep["case"])
                    results.append(again)
                    if again["rc"] in (None, 78):
                        break
            if not results:
                results = hung
            for res in results:
                v = judge(res)
                js = res["json"]
                if js:
                    for sec, d in js["sections"].items():
                        m = merged.setdefault(u["name"] + "/" + sec, {"evaluations": 0, "trivial": 0, "distinct": set(), "samples": []})
                        m["evaluations"] += d["evaluations"]
                        m["trivial"] += d["trivial"]
                        m["distinct"].update(d["distinct"])
                        m["samples"] += d["samples"]
                    for k, n in js["events"].items():
                        events[k] = max(events.get(k, 0), n) if k.startswith("max.") else events.get(k, 0) + n
                    known_hits.update(js["known"])
                if v is None:
                    continue
                kind, info = v
                if kind == "error":
                    raise HarnessError(info)
                if info["key"] in known:
                    known_hits[info["key"]] = info["message"]
                    continue
                info["unit"] = u["name"]
                info["stderr"] = res["stderr"]
                if violation is None:
                    violation = info
            runs.append({"unit": u["name"], "flavour": u.get("flavour", "asan"), "shards": shards, "seconds": round(max(r["secs"] for r in results), 1),
                         "time_budget_hit": any((r["json"] or {}).get("out_of_time") for r in results)})
            if violation:
                break
        # Coverage self-check: a monitor that saw nothing proves nothing.
        starved = []
        if not violation and not rep:
            for need in spec.get("must_observe", []):
                if events.get(need, 0) == 0:
                    starved.append(need)
            for name, m in merged.items():
                if m["evaluations"] == 0:
                    starved.append(name)
        evals = sum(m["evaluations"] for m in merged.values())
        distinct = sum(len(m["distinct"]) for m in merged.values())
        samples = []
        for name in sorted(merged):
            samples += ["%s: %s" % (name, s) for s in merged[name]["samples"][:1]]
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": distinct, "rule": spec["rule"], "samples": samples[:40],
                "per_section": {k: {"evaluations": m["evaluations"], "distinct_nontrivial": len(m["distinct"]), "trivial": m["trivial"]} for k, m in sorted(merged.items())},
                "observed_events": dict(sorted(events.items())), "runs": runs, "build_seconds": round(tb, 1),
            },
            "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
        }
        with open(evid, "w") as f:
            json.dump(ev, f, indent=1)
        for k, m in sorted(known_hits.items()):
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known.get(k, k), m[:200]))
        if violation:
            os.makedirs(os.path.join(V, "replays"), exist_ok=True)
            rp = os.path.join(V, "replays", "%s-%s-%d-seed%d.json" % (prop, re.sub(r"\W+", "_", violation["section"]), violation["case"], seed))
            with open(rp, "w") as f:
                json.dump({"property": prop, "unit": violation["unit"], "seed": seed, "tier": tier, "section": violation["section"], "case": violation["case"],
                           "key": violation["key"], "input": violation["desc"], "message": violation["message"],
                           "how": "python3 run.py %s --replay %s" % (prop, os.path.relpath(rp, V)), "stderr": violation["stderr"][:12000]}, f, indent=1)
            print("%s [%s] %s" % (violation["key"], violation["desc"][:300], violation["message"][:600]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        if starved:
            print("ERROR: monitors observed nothing for: %s" % ", ".join(starved))
            return 2
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs build=%.1fs" % (prop, tier, seed, evals, distinct, time.time() - t0, tb))
        return 0
    except HarnessError as e:
        print("ERROR: %s" % e)
        with open(evid, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
                       "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "no run: " + str(e)[:500], "samples": []}, "wall_s": round(time.time() - t0, 2)}, f, indent=1)
        return 2
    finally:
        shutil.rmtree(scratch_root, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
