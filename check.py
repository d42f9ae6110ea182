#!/usr/bin/env python3
"""Runs the model checking harness(es) of one property against /repo's current working tree.

usage: check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--suite NAME] [--config NAME] [--workers N]

exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not give an answer.
"""
import argparse, concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
REPLAYS = os.path.join(VERIF, "replays")

WARN = ["-w"]
INC = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src_deps"), "-I" + os.path.join(VERIF, "mc"),
       "-I" + os.path.join(VERIF, "harness")]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-DMC_ASAN",
        "-D_GLIBCXX_ASSERTIONS"]

CONFIGS = {
    # debug build: UTKI assertions on, C++17 code paths, address + undefined behaviour sanitizers
    "asan17": dict(cxx="g++", flags=["-std=c++17", "-DDEBUG", "-O1", "-g1"] + ASAN),
    # release builds of both language levels the library has distinct code paths for
    "rel17": dict(cxx="g++", flags=["-std=c++17", "-O2"]),
    "rel20": dict(cxx="g++", flags=["-std=c++20", "-O2"]),
    "asan20": dict(cxx="g++", flags=["-std=c++20", "-DDEBUG", "-O1", "-g1"] + ASAN),
    "clang17": dict(cxx="clang++", flags=["-std=c++17", "-O2"]),
    "clang20": dict(cxx="clang++", flags=["-std=c++20", "-O2", "-DDEBUG"]),
    # controlled scheduler: compiler inserts calls on every memory access / atomic, our runtime implements them
    "sched17": dict(cxx="g++", flags=["-std=c++17", "-O1", "-g1", "-fsanitize=thread", "-DMC_SCHED"],
                    extra=["mc/sched.cpp"], link=["-pthread", "-ldl"]),
    "sched20": dict(cxx="g++", flags=["-std=c++20", "-O2", "-g1", "-fsanitize=thread", "-DMC_SCHED"],
                    extra=["mc/sched.cpp"], link=["-pthread", "-ldl"]),
    "schedclang": dict(cxx="clang++", flags=["-std=c++17", "-O1", "-g1", "-fsanitize=thread", "-DMC_SCHED"],
                       extra=["mc/sched.cpp"], link=["-pthread", "-ldl"]),
}
WRAP = ["-Wl," + ",".join("--wrap=" + x for x in (
    "memcpy memmove memset memcmp strlen vsnprintf snprintf strtok localtime gmtime asctime ctime setlocale localeconv "
    "setenv").split())]
for _c in CONFIGS.values():
    if "mc/sched.cpp" in _c.get("extra", []):
        _c["flags"] += ["-U_FORTIFY_SOURCE"]
        _c["link"] += WRAP
SEQ_Q = ["asan17", "rel17", "rel20"]
SEQ_T = ["asan17", "asan20", "rel17", "rel20", "clang17", "clang20"]
SCH_Q = ["sched17", "sched20"]
SCH_T = ["sched17", "sched20", "schedclang"]

sys.path.insert(0, VERIF)
import props  # the property table: harness, configurations, technique ...


def sh_hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".cpp", ".h", ".cxx", ".c", ".inc", ".ipp")):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode())
                    try:
                        h.update(open(p, "rb").read())
                    except OSError:
                        pass
    return h.hexdigest()


class BuildError(Exception):
    pass


def run_compile(job):
    cmd, out = job
    if os.path.exists(out):
        return None
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = cmd + ["-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        text = r.stdout.decode(errors="replace")
        diag = re.search(r"^\S+:\d+:\d+: (fatal )?error: .*", text, re.M)
        if not diag or "internal compiler error" in text or "No space left" in text or "Killed" in text:
            diag = None
        return "compile failed: %s\n%s%s" % (" ".join(cmd), diag.group(0) + "\n" if diag else "", text[-4000:]), bool(diag)
    os.replace(tmp, out)
    return None


def build(prop, configs, tier):
    """returns {config: binary path}; raises BuildError, of kind "harness" if everything but the harness compiles"""
    os.makedirs(BUILD, exist_ok=True)
    repo_h = tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "src_deps")])
    mc_h = tree_hash([os.path.join(VERIF, "mc")])
    lib_cpps = sorted(glob.glob(os.path.join(REPO, "src", "utki", "**", "*.cpp"), recursive=True))
    jobs, links, harness = [], {}, set()
    for c in configs:
        cfg = CONFIGS[c]
        flags = cfg["flags"] + prop.get("flags", {}).get(c, []) + WARN + INC
        objs = []
        key = sh_hash(repo_h, c, json.dumps(cfg), flags)
        for f in lib_cpps:
            o = os.path.join(BUILD, "lib_%s_%s_%s.o" % (c, sh_hash(key, f), os.path.basename(f)[:-4]))
            jobs.append(([cfg["cxx"]] + flags + ["-c", f], o))
            objs.append(o)
        for f in prop["harness"]:
            p = os.path.join(VERIF, f)
            inc = b"".join(open(x, "rb").read() for x in sorted(glob.glob(os.path.join(VERIF, "harness", "*.hpp"))) +
                           sorted(glob.glob(os.path.join(VERIF, "harness", "*.inc"))))
            o = os.path.join(BUILD, "har_%s_%s_%s.o" % (c, sh_hash(key, mc_h, inc, open(p, "rb").read()),
                                                        os.path.basename(f)[:-4]))
            # harness objects first: they take longest
            jobs.insert(0, ([cfg["cxx"]] + flags + ["-c", p], o))
            harness.add(o)
            objs.append(o)
        for f in ["mc/mc.cpp"] + cfg.get("extra", []):
            p = os.path.join(VERIF, f)
            eflags = ["-std=c++17", "-O2", "-w", "-DMC_CONFIG=\"%s\"" % c] + \
                     [x for x in cfg["flags"] if x in ("-DMC_ASAN", "-DMC_SCHED")]
            o = os.path.join(BUILD, "eng_%s_%s_%s.o" % (c, sh_hash(mc_h, eflags), os.path.basename(f)[:-4]))
            jobs.append((["g++"] + eflags + ["-I" + os.path.join(VERIF, "mc"), "-c", p], o))
            objs.append(o)
        links[c] = (objs, cfg)
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        failed = [(j, e) for j, e in zip(jobs, ex.map(run_compile, jobs)) if e]
    if failed:
        be = BuildError(failed[0][1][0])
        be.harness_only = all(j[1] in harness and e[1] for j, e in failed)
        raise be
    bins = {}
    ljobs = []
    for c, (objs, cfg) in links.items():
        b = os.path.join(BUILD, "bin_%s_%s_%s" % (prop["id"], c, sh_hash(*objs)))
        lf = [x for x in cfg["flags"] if x.startswith("-fsanitize=") and "thread" not in x]
        ljobs.append(([cfg["cxx"]] + lf + objs + cfg.get("link", []) + prop.get("link", []), b))
        bins[c] = b
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for e in ex.map(run_compile, ljobs):
            if e:
                raise BuildError(e[0])
    return bins


def run_env(scratch):
    env = dict(os.environ)
    env["LOCPATH"] = os.path.join(scratch, "loc")
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=86:hard_rss_limit_mb=3000:allocator_may_return_null=0:"
                           "detect_stack_use_after_return=1:quarantine_size_mb=32:print_legend=0:disable_coredump=1:"
                           "check_initialization_order=1:strict_string_checks=1:detect_odr_violation=0:max_allocation_size_mb=4096")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=86"
    env["LC_ALL"] = "C"
    env["TZ"] = "UTC"
    return env


def make_locale(scratch):
    """a C locale with another decimal point, letter case, 8 bit letters and 8 bit spaces, for the checks of locale independence"""
    os.mkdir(os.path.join(scratch, "loc"))
    tool = shutil.which("localedef")
    dst = os.path.join(scratch, "loc", "tr_TR.ISO-8859-9")
    for src in (os.path.join(VERIF, "harness", "odd.locale"), "tr_TR"):
        if tool and not os.path.exists(dst):
            subprocess.run([tool, "-c", "-i", src, "-f", "ISO-8859-9", dst],
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)


def norandom(cmd):
    # address space randomisation off, where permitted, so that runs are repeatable
    return cmd


def load_known(pid):
    """ids of the recorded findings of the property: lines 'known: property=<id> id=<finding id> <what fails>'"""
    res = {}
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            f = line.split()
            if len(f) > 3 and f[0] == "known:" and f[1] == "property=" + pid and f[2].startswith("id="):
                res[f[2][3:]] = " ".join(f[3:])
    except OSError:
        pass
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--suite")
    ap.add_argument("--config")
    ap.add_argument("--workers", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = props.PROPS.get(a.property)
    if not prop:
        print("unknown property", a.property)
        return 2
    prop = dict(prop, id=a.property)
    t0 = time.time()
    configs = prop.get("configs_" + tier) or (
        (SCH_Q if tier == "quick" else SCH_T) if prop.get("sched") else (SEQ_Q if tier == "quick" else SEQ_T))
    rep = None
    if a.replay:
        rep = json.load(open(a.replay))
        configs = [rep["config"]]
        tier = rep["tier"]
    if a.config:
        configs = [a.config]
    all_configs = configs
    degraded = None  # why something could not be built
    unusable = False  # the library itself compiles, but documented uses of it do not, with any of the compilers
    try:
        bins = build(prop, configs, tier)
    except BuildError as e:
        degraded = str(e)
        bins = {}
        only_harness = getattr(e, "harness_only", False)
        if only_harness:
            for c in configs:
                try:
                    bins.update(build(prop, [c], tier))
                except BuildError as e1:
                    only_harness = only_harness and getattr(e1, "harness_only", False)
            unusable = only_harness and not bins
        if not bins and prop.get("fallback"):
            # leave out what is evaluated by the compiler: a violation there may show itself as a failure to compile
            prop["flags"] = {c: prop.get("flags", {}).get(c, []) + ["-DMC_FALLBACK"] for c in configs}
            try:
                bins = build(prop, configs, tier)
            except BuildError:
                pass
        if not bins and not unusable:
            print("BUILD-ERROR property=%s\n%s" % (a.property, degraded))
            return 2
        configs = [c for c in configs if c in bins]
    t_build = time.time() - t0
    if a.build_only:
        print("built in %.1fs" % t_build)
        return 0
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % a.property)
    try:
        if prop.get("locale"):
            make_locale(scratch)
        if rep:
            v = rep["violation"]
            if v["kind"] == "unusable":
                print(degraded or "compiles")
                if unusable:
                    print("VIOLATION property=%s replay=%s" % (a.property, a.replay))
                return 1 if unusable else 0
            if rep["config"] not in bins:
                print("BUILD-ERROR property=%s\n%s" % (a.property, degraded))
                return 2
            cmd = [bins[rep["config"]], "replay-shard" if v["shard"] else "replay", "--tier", tier, "--suite", v["suite"],
                   "--trace", v["trace"], "--shard", "%d/%d" % (v["worker"], v["workers"]), "--hang", "60",
                   "--scratch", scratch]
            r = subprocess.run(cmd, env=run_env(scratch), cwd=scratch)
            if r.returncode == 1:
                print("VIOLATION property=%s replay=%s" % (a.property, a.replay))
            return r.returncode
        total_budget = 400.0 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_BUDGET", "14400"))
        results = []
        t_run = time.time()
        for i, c in enumerate(configs):
            out = os.path.join(scratch, c + ".json")
            left = total_budget - (time.time() - t_run)
            budget = max(20.0, left / (len(configs) - i))
            cmd = [bins[c], "run", "--tier", tier, "--workers", str(a.workers), "--out", out, "--scratch", scratch,
                   "--budget", "%.0f" % budget, "--hang", str(prop.get("hang", 20 if tier == "quick" else 60))]
            if a.suite:
                cmd += ["--suite", a.suite]
            r = subprocess.run(cmd, env=run_env(scratch), cwd=scratch, stdin=subprocess.DEVNULL)
            if not os.path.exists(out):
                print("ENGINE-ERROR property=%s config=%s rc=%s" % (a.property, c, r.returncode))
                return 2
            res = json.load(open(out))
            results.append(res)
            if r.returncode != 0 or res["violation"]:
                break
        viol = next((r for r in results if r["violation"]), None)
        errs = [r for r in results if r["rc"] not in (0, 1)]
        states = max([r["states"] for r in results] or [0])
        ev = {
            "property": a.property,
            "tier": tier,
            "seed": seed,
            "level": "model_checking",
            "coverage": {
                "states": states,
                "transitions": sum(r["transitions"] for r in results),
                "traces_validated_against_impl": sum(r["executions"] for r in results),
                "exhaustive": all(r["complete"] for r in results) and bool(results) and not viol and not errs and not degraded,
                "max_choice_depth": max([r["max_depth"] for r in results] or [0]),
                "rule": "states: distinct reference-model/scheduler states (by hash, largest over the build "
                        "configurations); transitions: operations executed on the real code and compared with the "
                        "reference, all configurations; traces: complete choice sequences executed on the real code",
                "configurations": [{"name": r["config"], "compiler": CONFIGS[r["config"]]["cxx"],
                                    "flags": " ".join(CONFIGS[r["config"]]["flags"]),
                                    "executions": r["executions"], "states": r["states"],
                                    "transitions": r["transitions"], "complete": r["complete"],
                                    "wall_s": r["wall_s"], "suites": r["suites"]} for r in results],
                "samples": results[0]["samples"][:12] if results else [],
                "bounds": prop.get("bounds_" + tier) or prop.get("bounds", ""),
                "build_s": round(t_build, 2),
            },
            "assumptions": prop.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": 1 if viol else 0,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("property=%s tier=%s states=%d transitions=%d executions=%d exhaustive=%s wall=%.1fs (build %.1fs)" % (
            a.property, tier, ev["coverage"]["states"], ev["coverage"]["transitions"],
            ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["exhaustive"], ev["wall_s"], t_build))
        listed = load_known(a.property)
        seen = {}
        for r in results:
            for k in r.get("known", []):
                seen.setdefault(k["id"], (r["config"], k))
        for kid, (cfg, k) in seen.items():
            if kid in listed:
                print("KNOWN-FINDING: property=%s %s (%s)" % (a.property, listed[kid], k["text"]))
            elif not viol:
                viol = {"config": cfg, "violation": {"suite": "", "kind": "finding", "shard": False, "worker": 0, "workers": 1,
                                                     "trace": k["trace"], "message": "unlisted finding %s: %s" % (kid, k["text"]),
                                                     "replay_output": ""}}
        if unusable and not viol:
            viol = {"config": all_configs[0], "violation": {
                "suite": "", "kind": "unusable", "shard": False, "worker": 0, "workers": 1, "trace": "", "replay_output": "",
                "message": "the library compiles, but uses of its documented interface do not: " + degraded}}
        if viol:
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, "%s.json" % a.property)
            with open(path, "w") as f:
                json.dump({"property": a.property, "tier": tier, "config": viol["config"], "violation": viol["violation"],
                           "how": "cd /verif && python3 check.py %s --replay %s" % (a.property, path)}, f, indent=1)
            v = viol["violation"]
            print("config=%s suite=%s kind=%s trace=%s" % (viol["config"], v["suite"], v["kind"], v["trace"]))
            print(v["message"][:3000])
            print(v["replay_output"][:2000])
            print("VIOLATION property=%s replay=%s" % (a.property, path))
            return 1
        if degraded:
            print("NOT-BUILT property=%s %s" % (a.property, degraded))
        if errs:
            print("NO-ANSWER property=%s" % a.property)
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
