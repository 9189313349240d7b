#!/usr/bin/env python3
"""run.py <property> quick|thorough [extra args for the explorer]

Builds the library from /repo's current working tree (content-addressed, unity build) together with
the property's harness, explores, and writes evidence/<property>.json."""
import sys, os, subprocess, hashlib, json, glob, fcntl, time, shutil
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, ROOT)
from checks import CHECKS            # property -> configuration

CXX = "g++"
BASE = ["-std=gnu++17", "-w", "-pthread", "-I" + REPO + "/include", "-I" + ROOT + "/harness"]
VARIANTS = {
    "s": ["-O2"],                                         # single precision
    "sn": ["-O2", "-DNDEBUG"],                            # single precision, assertions off
    "d": ["-O2", "-DIS_RP3D_DOUBLE_PRECISION_ENABLED"],   # double precision
    "sasan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    # like sasan, but the pool, heap and frame allocators are replaced by harness/life_alloc.cc
    "life": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "stsan": ["-O1", "-g1", "-fsanitize=thread"],
    "sprof": ["-O1", "-DIS_RP3D_PROFILING_ENABLED"],
    # library instrumented for harness/smc.h, which replaces the ThreadSanitizer run time
    "smc": ["-O1", "-g1", "-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove"],
}
HARNESS_FLAGS = {"smc": ["-g1"]}      # instead of the variant's flags, for the harness
LINK_FLAGS = {"smc": ["-rdynamic", "-ldl"]}
REDEFINE = {"smc": ["memcpy", "memmove", "memset"]}     # calls of the library that the harness intercepts

REPLACE = {"life": ("life_alloc.cc", ["src/memory/PoolAllocator.cpp", "src/memory/HeapAllocator.cpp", "src/memory/SingleFrameAllocator.cpp"])}
FALLBACK = {"life": "sasan"}          # when the replacement does not fit the tree any more

class BuildError(Exception): pass

def sources():
    out = []
    for d, _, fs in os.walk(REPO + "/src"):
        out += [os.path.join(d, f) for f in fs if f.endswith((".cpp", ".h"))]
    for d, _, fs in os.walk(REPO + "/include"):
        out += [os.path.join(d, f) for f in fs]
    return sorted(out)

def digest(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def run_all(cmds):
    procs = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in cmds]
    bad = None
    for c, p in procs:
        o = p.communicate()[0]
        if p.returncode and not bad: bad = (c, o.decode(errors="replace"))
    return bad

def build(variant, harness):
    """returns the path of the explorer binary for harness/<harness>.cpp"""
    src = sources(); flags = BASE + VARIANTS[variant]
    hflags = BASE + HARNESS_FLAGS.get(variant, VARIANTS[variant]); lflags = flags if variant not in HARNESS_FLAGS else hflags
    hd = sorted(glob.glob(ROOT + "/harness/*.h"))
    os.makedirs(BUILD, exist_ok=True)
    rep, gone = REPLACE.get(variant, (None, [])); rep = rep and ROOT + "/harness/" + rep
    lib = os.path.join(BUILD, "lib-%s-%s" % (variant, digest(src + ([rep] if rep else []), flags)))
    hkey = digest([ROOT + "/harness/%s.cpp" % harness, ROOT + "/harness/mc.cpp"] + hd, [lib, hflags, LINK_FLAGS.get(variant)])
    exe = os.path.join(BUILD, "%s-%s-%s" % (harness, variant, hkey))
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        tmp = exe + ".d"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        cmds = []
        for h in (harness, "mc"):
            cmds.append([CXX] + hflags + ["-O1"] + ["-c", ROOT + "/harness/%s.cpp" % h, "-o", tmp + "/" + h + ".o"])
        newlib = not os.path.exists(lib + "/ok")
        if newlib:
            shutil.rmtree(lib, ignore_errors=True); os.makedirs(lib)
            cpps = [f for f in src if f.endswith(".cpp") and f.startswith(REPO + "/src/") and f[len(REPO) + 1:] not in gone] + ([rep] if rep else [])
            cpps.sort(key=lambda f: -os.path.getsize(f))
            groups = [[] for _ in range(8)]; size = [0] * 8
            for f in cpps:
                i = size.index(min(size)); groups[i].append(f); size[i] += os.path.getsize(f) + 6000
            for i, g in enumerate(groups):
                u = lib + "/u%d.cpp" % i
                open(u, "w").write("".join('#include "%s"\n' % f for f in sorted(g)))
                cmds.append([CXX] + flags + ["-c", u, "-o", u[:-4] + ".o"])
        bad = run_all(cmds)
        if bad and newlib:
            # two files may define clashing file-local names: fall back to one object per file
            for o in glob.glob(lib + "/*.o"): os.remove(o)
            todo = [[CXX] + flags + ["-c", f, "-o", lib + "/" + os.path.relpath(f, REPO).replace("/", "_") + ".o"] for f in cpps]
            bad2 = None
            for i in range(0, len(todo), 10): bad2 = bad2 or run_all(todo[i:i + 10])
            if bad2: return fail_build(bad2)
            bad = run_all(cmds[:2])
        if bad: return fail_build(bad)
        if newlib and variant in REDEFINE:
            opts = [x for n in REDEFINE[variant] for x in ("--redefine-sym", "%s=smc_%s" % (n, n))]
            bad = run_all([["objcopy"] + opts + [o] for o in glob.glob(lib + "/*.o")])
            if bad: return fail_build(bad)
        open(lib + "/ok", "w").write("1")
        bad = run_all([[CXX] + lflags + ["-o", exe + ".tmp"] + sorted(glob.glob(lib + "/*.o")) + glob.glob(tmp + "/*.o") + ["-lpthread"] + LINK_FLAGS.get(variant, [])])
        if bad: return fail_build(bad)
        os.rename(exe + ".tmp", exe); shutil.rmtree(tmp)
        # keep the build folder small
        for pat, keep in (("lib-*", 12), ("*-*-*", 90)):
            ds = sorted((d for d in glob.glob(BUILD + "/" + pat) if (os.path.isdir(d)) == (pat == "lib-*")), key=os.path.getmtime)
            for d in ds[:-keep]:
                shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else os.remove(d)
    return exe

def fail_build(bad):
    raise BuildError("build failed: %s\n%s\n" % (" ".join(bad[0]), bad[1][-4000:]))

def build_or_fallback(variant, harness):
    """returns (binary, variant really used)"""
    try: return build(variant, harness), variant
    except BuildError as e:
        if variant in FALLBACK:
            sys.stderr.write("variant %s does not build, using %s\n" % (variant, FALLBACK[variant]))
            return build(FALLBACK[variant], harness), FALLBACK[variant]
        sys.stderr.write(str(e)); sys.exit(2)

def main():
    if sys.argv[1] == "--setup":
        for h, v in sorted({(p[0], p[1]) for c in CHECKS.values() for p in c["parts"] if "quick" in p[2]}): build_or_fallback(v, h)
        return
    prop, tier = sys.argv[1], sys.argv[2]; extra = sys.argv[3:]
    env = dict(os.environ, VERIF_ROOT=ROOT)
    parts = CHECKS[prop]["parts"]
    only = None
    if "--part" in extra:
        i = extra.index("--part"); only = extra[i + 1]; extra = extra[:i] + extra[i + 2:]
    rc = 0; merged = []
    t0 = time.time()
    for (harness, variant, tiers, args) in parts:
        if tier not in tiers: continue
        tag = harness + "-" + variant
        if only and only != tag: continue
        exe, variant = build_or_fallback(variant, harness)
        cmd = [exe, "--" + tier, "--tag", tag] + args + extra
        e = dict(env)
        if variant == "stsan": e["TSAN_OPTIONS"] = "exitcode=66 halt_on_error=1 report_signal_unsafe=0"
        if variant in ("sasan", "life"): e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16:thread_local_quarantine_size_kb=256:malloc_context_size=6"
        if variant in ("stsan", "sasan"): cmd = ["setarch", "-R"] + cmd if variant == "stsan" else cmd
        e["MC_PROPERTY"] = prop
        r = subprocess.run(cmd, env=e).returncode
        f = os.path.join(ROOT, "evidence", "%s.%s.json" % (prop, tag))
        if os.path.exists(f):
            merged.append((tag, json.load(open(f)))); os.remove(f)
        if r == 1: rc = 1; break
        if r != 0: rc = rc or 2
    if merged and "--replay" not in extra:
        cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "pruned": 0, "oracle_comparisons": 0, "exhaustive": True, "scenarios": [], "samples": []}
        ass = []; viol = 0
        for tag, ev in merged:
            c = ev["coverage"]
            for k in ("states", "transitions", "traces_validated_against_impl", "pruned", "oracle_comparisons"): cov[k] += c[k]
            cov["exhaustive"] = cov["exhaustive"] and c["exhaustive"]
            for s in c["scenarios"]: s["part"] = tag; cov["scenarios"].append(s)
            cov["samples"] += c["samples"]; viol += ev["violations"]
            ass += [a for a in ev["assumptions"] if a not in ass]
        cov["bounds_note"] = "every choice vector of every scenario was executed on the library built from the working tree (states = distinct observable states hashed; parts: <harness>-<build variant>)" if cov["exhaustive"] else "stopped early (violation, deadline): see scenarios[].complete"
        out = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": CHECKS[prop].get("level", "model_checking"),
               "coverage": cov, "assumptions": ass, "violations": viol, "wall_s": round(time.time() - t0, 2)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(out, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    sys.exit(rc)

if __name__ == "__main__":
    main()
