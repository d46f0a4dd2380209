"""check.py <property> [--tier quick|thorough] [--replay FILE]

Builds what the property's exploration needs from /repo's current working tree, explores, judges, writes
evidence/<property>.json and prints VIOLATION / KNOWN-FINDING lines.  Exit 0: held on everything explored,
1: violated, anything else: the check itself failed."""
import hashlib, json, os, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(HERE, "mc")
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
JOBS = os.cpu_count() or 4
sys.path.insert(0, HERE)


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


_tree = None


def tree_hash():
    """content hash of the code under test and of the machinery"""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        files = []
        for base in (REPO, MC):
            for d, dirs, fs in os.walk(base):
                dirs[:] = sorted(x for x in dirs if x not in (".git", "_build", "benchmark", "benchmark_results", "test_results", "other_files"))
                files += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp", ".cpp", ".c"))]
        for f in sorted(files):
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
        _tree = h.hexdigest()
    return _tree


_lock = threading.Lock()
_sem = threading.Semaphore(JOBS)


def key(*parts):
    return hashlib.sha256(("\0".join(map(str, parts)) + tree_hash()).encode()).hexdigest()[:24]


def prune():
    """keep the cache bounded: drop what has not been used for a while"""
    try:
        files = [(os.path.getmtime(p), os.path.getsize(p), p) for p in (os.path.join(BUILD, f) for f in os.listdir(BUILD)) if os.path.isfile(p)]
        total = sum(f[1] for f in files)
        for t, s, p in sorted(files):
            if total < 600e6 or time.time() - t < 3600:
                break
            os.unlink(p)
            total -= s
    except OSError:
        pass


def compile_(cmd, out, must=True):
    """run one compiler command writing `out` (cached by content); returns out or None"""
    if os.path.exists(out):
        os.utime(out)
        return out
    tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    with _sem:
        r = sh(cmd + ["-o", tmp])
    if r.returncode != 0:
        if must:
            raise CheckError("build failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
        with _lock:
            build_notes.append("not built: %s: %s" % (os.path.basename(out), first_error(r.stderr)))
        return None
    os.replace(tmp, out)
    return out


build_notes = []


def first_error(s):
    for l in s.splitlines():
        if "error" in l:
            return l.strip()[:200]
    return s.strip()[:200]


def pmap(fn, items):
    with ThreadPoolExecutor(max_workers=64) as ex:
        return list(ex.map(fn, items))


class Config:
    def __init__(self, name, cc="g++", opt=("-O2",), defs=(), m32=False, server=False):
        self.name, self.cc, self.opt, self.defs, self.m32, self.server = name, cc, tuple(opt), tuple(defs), m32, server or m32


COMMON = ["-std=c++17", "-w", "-I" + REPO, "-I" + MC, "-I" + os.path.join(MC, "seam"), "-I" + os.path.join(MC, "stub")]
BASE = Config("gcc-O2")
CONFIGS = [
    Config("gcc-O0", opt=("-O0",)),
    Config("gcc-O3-NDEBUG", opt=("-O3", "-DNDEBUG")),
    Config("clang-O2", cc="clang++"),
    Config("clang-Os-NDEBUG", cc="clang++", opt=("-Os", "-DNDEBUG")),
    Config("generic", defs=("-DMC_PLATFORM_GENERIC",)),
    Config("generic-clang-O3-NDEBUG", cc="clang++", opt=("-O3", "-DNDEBUG"), defs=("-DMC_PLATFORM_GENERIC",)),
    Config("msvc-x64-branches", defs=("-DMC_PLATFORM_MSVC64",)),
    Config("msvc-x86-branches", defs=("-DMC_PLATFORM_MSVC32",)),
    Config("i686-gcc-O2", m32=True),
    Config("i686-clang-O2", cc="clang++", m32=True),
    Config("gcc-O3-c++20-fast-math-unsigned-char", opt=("-O3", "-std=c++20", "-ffast-math", "-funsigned-char", "-fno-exceptions", "-fno-rtti")),
    Config("clang-O3-c++20-fast-math-unsigned-char", cc="clang++", opt=("-O3", "-std=c++20", "-ffast-math", "-funsigned-char", "-DNDEBUG")),
    Config("x86-64-without-int128", defs=("-DMC_PLATFORM_NO_INT128",)),
    Config("clang-cl-branches", cc="clang++", defs=("-DMC_PLATFORM_CLANG_CL",)),
    Config("gcc-Os-unwrapped", opt=("-Os", "-fno-inline", "-fno-strict-aliasing", "-fno-builtin")),
]
try:
    _cpu = open("/proc/cpuinfo").read().split()
    if "bmi2" in _cpu and "abm" in _cpu and "avx2" in _cpu:
        CONFIGS.append(Config("gcc-O2-haswell", opt=("-O2", "-march=haswell")))
        CONFIGS.append(Config("clang-O2-haswell", cc="clang++", opt=("-O2", "-march=haswell")))
except OSError:
    pass


def impl_cmd(cfg, src, extra=()):
    cmd = [cfg.cc, *COMMON, *cfg.opt, *cfg.defs, *extra]
    if cfg.m32:
        cmd += ["-m32", "-msse2", "-mfpmath=sse"]
    else:
        cmd += ["-fPIC", "-fvisibility=hidden"]
        if cfg.cc == "g++":
            cmd += ["-fno-gnu-unique"]
    return cmd + ["-c", src]


def build_lib(cfg, modes=range(14), crsmask=31, chars=0, must=True, extra=(), sources=(), unit="impl.cpp", link=()):
    """one configuration of the code under test: a shared library, or for 32-bit builds a server executable"""
    objs = []

    def one(m):
        ex = ["-DMC_MODE=%d" % m, "-DMC_CRSMASK=%d" % crsmask, "-DMC_CHARS=%d" % chars, *extra]
        cmd = impl_cmd(cfg, os.path.join(MC, unit), ex)
        return compile_(cmd, os.path.join(BUILD, "o" + key(cmd)), must)

    def chars_obj(_):
        cmd = impl_cmd(cfg, os.path.join(REPO, "fp_to_chars", "fp_to_chars.cpp"), ["-include", os.path.join(MC, "platform.hpp"), *extra])
        return compile_(cmd, os.path.join(BUILD, "o" + key(cmd)), must)

    def other(s):
        cmd = impl_cmd(cfg, os.path.join(MC, s), list(extra))
        return compile_(cmd, os.path.join(BUILD, "o" + key(cmd)), must)

    def go(j):
        return j[0](j[1])
    jobs = [(one, m) for m in modes] + ([(chars_obj, 0)] if chars or sources or unit != "impl.cpp" else []) + [(other, s) for s in sources]
    objs = pmap(go, jobs)
    if any(o is None for o in objs):
        return None
    if cfg.server:
        how = ["-m32", "-O1"] if cfg.m32 else list(cfg.opt)
        cmd = [cfg.cc, *how, "-std=c++17", "-w", "-I" + MC, os.path.join(MC, "server.cpp"), *objs]
        return compile_(cmd, os.path.join(BUILD, "s" + key(cmd)), must)
    cmd = [cfg.cc, "-shared", "-fPIC", *link, *objs]
    return compile_(cmd, os.path.join(BUILD, "l" + key(cmd) + ".so"), must)


def build_life(cfg, order):
    """the program whose life is explored, its conversions compiled in `cfg` and linked in one of several orders, and the library it loads"""
    def obj(src, ex=()):
        cmd = impl_cmd(cfg, src, list(ex))
        return compile_(cmd, os.path.join(BUILD, "o" + key(cmd)))
    jobs = [(os.path.join(MC, "impl.cpp"), ("-DMC_MODE=%d" % m, "-DMC_CRSMASK=31", "-DMC_CHARS=1")) for m in range(14)]
    jobs.append((os.path.join(REPO, "fp_to_chars", "fp_to_chars.cpp"), ("-include", os.path.join(MC, "platform.hpp"))))
    jobs += [(os.path.join(MC, "life_prog.cpp"), ()), (os.path.join(MC, "life_prog.cpp"), ("-DLIFE_SO",))]
    o = pmap(lambda j: obj(*j), jobs)
    code, prog, so = o[:15], o[15], o[16]

    def arrange(x):
        return {"first": [x] + code, "last": code + [x], "middle": code[14:] + code[7:14] + [x] + code[:7]}[order]
    link = [cfg.cc, *cfg.opt, "-pthread", "-rdynamic", *arrange(prog), "-ldl"]
    lib = [cfg.cc, *cfg.opt, "-shared", "-fPIC", *arrange(so)]
    return compile_(link, os.path.join(BUILD, "p" + key(link))), compile_(lib, os.path.join(BUILD, "l" + key(lib) + ".so"))


def build_driver(name, extra=()):
    cmd = ["g++", "-std=c++17", "-O2", "-w", "-I" + MC, os.path.join(MC, name + ".cpp"), *extra, "-ldl", "-pthread"]
    return compile_(cmd, os.path.join(BUILD, "d" + key(cmd)))


def parallel(*fns):
    return pmap(lambda f: f(), fns)


def run_driver(exe, args, timeout=None, env=None):
    out = os.path.join(BUILD, "result.%d.json" % os.getpid())
    if os.path.exists(out):
        os.unlink(out)
    args = [out if a == "@OUT" else a for a in args]
    e = dict(os.environ)
    e.update(env or {})
    r = sh([exe] + args, timeout=timeout, env=e)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise CheckError("driver %s failed (%s)\n%s\n%s" % (os.path.basename(exe), r.returncode, r.stdout[-1500:], r.stderr[-3000:]))
    with open(out) as f:
        d = json.load(f)
    os.unlink(out)
    return d


def load_known(prop):
    keys = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("known: property=%s " % prop) and " key=" in l:
                k, _, what = l.split(" key=", 1)[1].partition(" :: ")
                keys[k] = what
    return keys


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    prune()
    import props
    t0 = time.time()
    known = load_known(a.prop)
    env = {}
    if known:
        kf = os.path.join(BUILD, "known.%s.%d" % (a.prop, os.getpid()))
        with open(kf, "w") as f:
            f.write("\n".join(known) + "\n")
        env["MC_KNOWN"] = kf
    spec = props.PROPS[a.prop]
    if a.replay:
        rec = json.load(open(a.replay))
        res = spec["run"](tier, env, rec)
        for v in res["violations"]:
            print(v["msg"])
        print("reproduced" if res["violations"] else "not reproduced")
        return 1 if res["violations"] else 0
    res = spec["run"](tier, env, None)
    for k in res.get("known", []):
        print("KNOWN-FINDING: property=%s %s :: %s" % (a.prop, k, known.get(k, "")))
    viol = res["violations"]
    rc = 0
    if viol:
        rc = 1
        rp = os.path.join(EVID, a.prop + ".replay.json")
        rec = {"property": a.prop, "violations": viol, "how": "cd /verif && python3 check.py %s --replay %s" % (a.prop, rp)}
        if spec.get("replayable"):
            try:
                again = spec["run"](tier, env, {"violations": viol[:1]})
                rec["reproduced_in_a_fresh_process"] = bool(again["violations"])
            except Exception as ex:  # the verdict stands without it
                rec["reproduced_in_a_fresh_process"] = "replay failed: %s" % str(ex)[:300]
        with open(rp, "w") as f:
            json.dump(rec, f, indent=1)
        for v in viol[:4]:
            print("  " + v["msg"])
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
    cov = {"states": res["states"], "transitions": res["transitions"], "traces_validated_against_impl": res["judged"],
           "samples": res["samples"] or ["none"], "rule": spec["rule"], "bounds": spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
           "outcome_classes": res.get("counters", {})}
    for k in res:
        if k not in ("states", "transitions", "judged", "samples", "counters", "violations", "nviol", "known", "notes", "wall"):
            cov[k] = res[k]
    notes = list(res.get("notes", [])) + build_notes
    if notes:
        cov["notes"] = notes
    ev = {"property": a.prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"), "coverage": cov,
          "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": res.get("nviol", len(viol))}
    with open(os.path.join(EVID, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: states=%d transitions=%d validated=%d violations=%d %.1fs" % (a.prop, tier, res["states"], res["transitions"], res["judged"], ev["violations"], ev["wall_s"]))
    return rc
