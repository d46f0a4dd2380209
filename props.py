"""What each check builds, runs and reports."""
import os
import mcfw as ck

ALPHA = ("For every exponent field of float and double, both signs: every significand whose value or interval end point comes within the stated distance of "
         "a multiple (or odd half multiple) of 10^j for any decimal position j, with its neighbours; the first/last significands of the binade; "
         "significands with few set or few clear bits; all numbers of a narrower format; a lattice of significands; the numbers nearest to short decimals "
         "and their neighbours. ")
TRUST = ["the exact reference model (mc/oracle.hpp): integer arithmetic on f*2^e and s*10^k, written without reference to the code under test",
         "the compilers and CPU of this sandbox; IEEE-754 binary32/binary64 float and double"]


def nsigned(L):
    return L


def conv_run(prop, crsmask=31, modes=range(14)):
    def run(tier, env, replay):
        drv, lib = ck.parallel(lambda: ck.build_driver("conv"), lambda: ck.build_lib(ck.BASE, modes, crsmask))
        args = [prop, tier, "@OUT", "gcc-O2=" + lib]
        if replay:
            args += one_args(replay)
        return ck.run_driver(drv, args, env=env)
    return run


def one_args(replay):
    k = replay["violations"][0]["key"].split()
    fmt = "float" if "float" in k else "double"
    return ["--one", fmt, k[-1]]


QB = "quick: critical distance 256/2^24 (float), 32/2^53 (double), windows 512/64, 2 set/clear bits, short decimals to 4 digits"
PROPS = {}


def P(pid, run, rule, bounds, **kw):
    PROPS[pid] = dict(run=run, rule=rule, bounds=bounds, assumptions=kw.pop("assumptions", TRUST), **kw)


ROTATION = "; in rotation (each under one of the combinations and one sign, chosen by a fixed hash of the input): every float, and 2^17 lattice points of every double binade"
ROTATION15 = ROTATION.replace("2^17", "2^15")


def conv(pid, rule, quick_full, **kw):
    P(pid, conv_run(pid, **kw), ALPHA + rule,
      {"quick": "all 70 (rounding mode, tie policy) combinations the property covers, on the alphabets (critical distance 256/2^24 float, 32/2^53 double; windows 512/64; two set/clear bits; decimals of up to 4 digits; 2048/1024 lattice points; one input per scale of closeness and per machine-word remainder), positive, and every third of them negative" + quick_full + ROTATION,
       "thorough": "every float (all 2^32 bit patterns that are finite and nonzero) under every combination the property covers; double alphabets with critical distance 256/2^53, windows 2048, three set/clear bits, 5-digit decimals, 8192 lattice points per binade"},
      replayable=True)


conv("C01", "A state is one input; a transition is one real conversion call under one (mode, policy); each outcome is placed exactly against the two ends of the rounding interval.",
     "; every positive float for nearest_to_even/do_not_care")
conv("C02", "Each outcome is compared with the neighbours one decimal position up (floor and ceiling of s/10), exactly.",
     "; every positive float for nearest_toward_zero/do_not_care")
conv("C03", "Each outcome is compared with its neighbours s-1 and s+1 inside the interval, and the midpoints to them with the input, exactly.",
     "; every positive float for nearest_to_even/tie_to_even", modes=range(10), crsmask=30)
conv("C04", "As C03, deciding exact ties by the requested policy.", "; every positive float for nearest_away_from_zero/tie_to_odd", modes=range(10), crsmask=30)
conv("C05", "The four directed modes: side, shortness and closeness.", "; every positive float for toward_zero and away_from_zero with tie_to_even", modes=range(10, 14))

conv("C24", "Each outcome's significand and scientific exponent are compared with the format's printable range.", "; every positive float for nearest_to_even/tie_to_even")

P("C25", conv_run("C25"), ALPHA + "A state is one input; the inputs of an exploration are visited in increasing magnitude, and under every mode the largest decimal any policy gives for one must lie below the smallest any policy gives for the next (so the whole explored set is ordered). No reference model of the conversion is involved.",
  {"quick": "all 14 modes x 5 policies on the alphabets (as C01), both signs, with the neighbours across binade borders; every positive float for nearest_to_odd under tie_to_up and tie_to_down; in rotation (runs of 128 neighbours under one of the modes and all its policies): every float, and 1024 runs in every double binade",
   "thorough": "every positive float under all 70 combinations; the deep double alphabets"}, replayable=False)

P("C06", conv_run("C06"), ALPHA + "Each input is run with both signs, each under its mirrored mode, with and without the sign requested; a state is one magnitude, an outcome group of four calls is one comparison.",
  {"quick": "the quick alphabets x 14 modes x 5 policies x 2 signs x signed/unsigned; in rotation (each magnitude under one of the 70 combinations, chosen by a fixed hash): every float, and 2^17 lattice points of every double binade", "thorough": "the deep alphabets x all combinations; every float magnitude for four (mode, policy) combinations"}, replayable=True)
P("C07", conv_run("C07", modes=[0, 1, 2, 3, 6, 7, 8, 9]), ALPHA + "Each input is run under a mode and its static-boundary variant with the same policy; outcomes must be identical.",
  {"quick": "the quick alphabets and every third of their negatives x 4 pairs x 5 policies x signed/unsigned result; one float in 16 (by a fixed hash) and 2^13 lattice points of every double binade likewise", "thorough": "every float and the deep double alphabets x 4 pairs x 5 policies"}, replayable=True)
P("C23", conv_run("C23", modes=range(10)), "A state is one decimal d*10^m in the normal range (d not a multiple of 10), read into the nearest number by the exact reference reader; the real conversion must give it back.",
  {"quick": "float: every decimal of at most 6 digits x 50 combinations (complete); double: every decimal of at most 5 digits x 50 combinations; for every length from 6 to 14 and every exponent a lattice of 1009, the 40 smallest and the 40 largest; 15-digit families at every exponent (lattice of 9001, the 200 smallest, the 200 largest)",
   "thorough": "double: at most 6 digits, lattices of 20011 for the lengths 7 to 14, 15-digit lattice of 360 000 per exponent; all x 50 combinations"})


def c13_run(tier, env, replay):
    cfgs = list(ck.CONFIGS)
    modes = [0, 4, 12, 13]
    r = ck.parallel(lambda: ck.build_driver("conv"), lambda: ck.build_lib(ck.BASE, modes, 31, chars=1),
                    *[(lambda c=c: ck.build_lib(c, modes, 31, chars=1, must=False)) for c in cfgs])
    args = ["C13", tier, "@OUT", "gcc-O2=" + r[1]]
    have = []
    for c, path in zip(cfgs, r[2:]):
        if path:
            args.append("%s=%s%s" % (c.name, "!" if c.m32 else "", path))
            have.append(c.name)
    if replay:
        args += one_args(replay)
    d = ck.run_driver(r[0], args, env=env)
    d["configurations"] = ["gcc-O2"] + have
    return d


P("C13", c13_run, ALPHA + "Each input is run in every configuration; outcomes must be identical to those of the first.",
  {"quick": "18 configurations (gcc -O0/-O2/-O3 -DNDEBUG, clang -O2/-Os -DNDEBUG, portable generic branches with gcc and clang, MSVC x64, MSVC x86 and clang-cl branches with stand-ins for the intrinsics, x86-64 without 128-bit integers, i686 gcc and clang, gcc and clang -O3 -std=c++20 -ffast-math -funsigned-char, gcc -Os -fno-inline, gcc and clang -march=haswell) x 4 representative modes x 5 policies, small alphabets, both signs; printed text for two combinations",
   "thorough": "the same configurations on the quick alphabets of the other checks, plus every positive float for two combinations"}, replayable=True)


def chars_run(prop, seam=False):
    def run(tier, env, replay):
        jobs = [lambda: ck.build_driver("chars"), lambda: ck.build_lib(ck.BASE, chars=1)]
        if seam:
            jobs.append(lambda: ck.build_lib(ck.BASE, modes=[], must=False, sources=["print_seam.cpp"]))
        r = ck.parallel(*jobs)
        args = [prop, tier, "@OUT", "gcc-O2=" + r[1]]
        if seam and r[2]:
            args.append("seam=" + r[2])
        if replay and not replay["violations"][0]["key"].startswith("digits"):
            args += one_args(replay)
        return ck.run_driver(r[0], args, env=env)
    return run


P("C08", chars_run("C08", True), ALPHA + "Each text is compared with the reference rendering of the (significand, exponent) that the conversion returns under the same mode and policy; the digit printer alone is also run on every significand of the stated blocks.",
  {"quick": "small alphabets x 14 modes x 5 policies x 2 signs; printed text checked with and without terminator; 3 x 10^7 integers as doubles; printer alone: every float significand below 10^8 and 9-digit ones in steps, every low 8 digits under two high halves, 10^7 high halves, every scientific exponent x every digit count" + ROTATION15,
   "thorough": "quick alphabets of the conversion checks x 70 combinations; printer alone: every float significand below 10^9, three high halves"}, replayable=True)
P("C09", chars_run("C09"), ALPHA + "Each text is parsed strictly and placed exactly in the input's rounding interval for the mode used, which is what a correct reader of that mode does.",
  {"quick": "every positive float in the default mode; small alphabets x 10 nearest modes x 5 policies x 2 signs; zeros, infinities" + ROTATION15, "thorough": "as quick with the larger alphabets"}, replayable=True)
P("C10", chars_run("C10"), "A state is one special bit pattern; each is printed with and without terminator under every mode and policy, with canaries around the text.",
  "float: all 2^24-2 NaNs, both infinities, both zeros; double: zeros, infinities and the NaN payloads with at most three set or clear bits, the 4096 smallest and largest, and all 14-bit quiet prefixes; both signs; x 14 modes x 5 policies x 2 calls", replayable=True)
P("C11", chars_run("C11"), ALPHA + "Each input is printed with and without terminator over six previous buffer contents (among them other texts) with canaries, every 256th over all 256 byte values, and flush against an unmapped page in front and behind.",
  {"quick": "tiny alphabets x 2 signs x 17 placements x 6 (mode, policy) combinations, every 24th/40th input x the other 64 combinations, special values" + ROTATION15.replace("every float", "one float in 64").replace("2^15", "2^11"), "thorough": "small alphabets x the same"}, replayable=True)


def bits_run(tier, env, replay):
    r = ck.parallel(lambda: ck.build_driver("bits"), lambda: ck.build_lib(ck.BASE, modes=[0], crsmask=3, sources=["bits_unit.cpp"]))
    return ck.run_driver(r[0], ["C12", tier, "@OUT", "gcc-O2=" + r[1]], env=env)


P("C12", bits_run, "A state is one bit pattern; its transitions are the calls of the 14 inspectors, each compared with the IEEE-754 meaning of the pattern computed arithmetically from the fields; each finite input of the alphabets is also converted and must read back to the same number.",
  {"quick": "all 2^32 float patterns; double: 2 signs x 2048 exponent fields x all fractions with at most three set or clear bits, the first/last 512, 10-bit prefixes, 1024 lattice points; conversions: tiny alphabets",
   "thorough": "the same patterns; conversions: the quick alphabets"}, replayable=True)

UBTRAP = ck.Config("clang-ubsan-trap", cc="clang++", opt=("-O1", "-fsanitize=undefined", "-fsanitize-trap=undefined"))


def seam_run(prop, wanted):
    """wanted: [(seam, configuration)]; falls back to whole conversions when none of them is reachable"""
    def run(tier, env, replay):
        jobs = [lambda: ck.build_driver("seams")] + [(lambda s=s, c=c: ck.build_lib(c, modes=[], must=False, sources=["seam/%s.cpp" % s])) for s, c in wanted]
        r = ck.parallel(*jobs)
        args = ["%s:%s=%s" % (s, c.name, p) for (s, c), p in zip(wanted, r[1:]) if p]
        kinds = [k for k in dict.fromkeys(s for s, _ in wanted) if k != "cache" or prop == "C18"]
        d, left = None, set()
        if any(not a.startswith("cache:") for a in args) or (args and prop == "C18"):
            d = ck.run_driver(r[0], [prop, tier, "@OUT"] + args, env=env)
            left = set(str(d.get("seams_explored", "")).split())
            if d["violations"] or left.issuperset(kinds):
                return d
        ck.build_notes.append("seams not offered by this tree (%s): whole conversions explored as well" % ", ".join(k for k in kinds if k not in left))
        drv, lib = ck.parallel(lambda: ck.build_driver("conv"), lambda: ck.build_lib(ck.BASE, [0, 4, 12, 13], 31))
        a = ck.run_driver(drv, ["ANY", tier, "@OUT", "gcc-O2=" + lib], env=env)
        if d:
            for k in ("states", "transitions", "judged"):
                a[k] += d[k]
            a["notes"] = list(a.get("notes", [])) + list(d.get("notes", []))
            a["samples"] = list(d["samples"]) + list(a["samples"])
        return a
    return run


_g = {c.name: c for c in ck.CONFIGS}
_SEAMNOTE = ("Explored at the internal seams of the working tree, against exact big-integer arithmetic; a seam a future tree no longer offers is skipped with a note, "
             "and the property is then explored through whole conversions as well.")
P("C17", seam_run("C17", [("log", c) for c in (ck.BASE, _g["gcc-O0"], _g["clang-O2"], UBTRAP)]),
  "A state is one (helper, exponent); each value is compared with the exact floor of the logarithm from bit lengths of exact powers of five. " + _SEAMNOTE,
  "every exponent of the three documented ranges x asserting and non-asserting form x 4 builds (one with signed overflow trapping)", replayable=False)
P("C18", seam_run("C18", [("cache", ck.BASE), ("cache", _g["generic"])]),
  "A state is one table entry or one exponent field; entries are compared with the exact power of ten. " + _SEAMNOTE,
  "all entries of both tables, all 255 + 2047 exponent fields, x 2 representations of 128-bit values", replayable=False)
P("C19", seam_run("C19", [("cache", ck.BASE)] + [("mul", c) for c in (ck.BASE, _g["generic"])] + [("umul", c) for c in (ck.BASE, _g["generic"], _g["msvc-x64-branches"], _g["msvc-x86-branches"], _g["x86-64-without-int128"], _g["clang-cl-branches"])]),
  "A state is one (exponent field, significand or end point); the product is compared with the exact floor. " + _SEAMNOTE,
  {"quick": "float: every exponent field x every significand and both half-unit end points (complete); double: every exponent field x the significands whose scaled value or half-unit neighbours are closest to an integer on either side (256/2^53) and windows, sparse, lattice; every interval width; wide products: limb alphabets of about 330 values cubed x 6 platform branches",
   "thorough": "double with 2048/2^53; float complete for the portable branches too"}, replayable=False)
P("C20", seam_run("C20", [("cache", ck.BASE)] + [("eqfrac", c) for c in (ck.BASE, _g["generic"])] + [("intcheck", c) for c in (ck.BASE, _g["generic"])] + [("div", c) for c in (ck.BASE, _g["generic"], _g["msvc-x64-branches"], _g["msvc-x86-branches"], _g["clang-cl-branches"])]),
  "A state is one (exponent field, argument, kind of test); the answer is compared with exact divisibility by 2 and 5. " + _SEAMNOTE,
  {"quick": "float: every exponent field x every significand x every kind of test (complete); double: every exponent field x near-integral, multiple-of-5^k and structured significands; power-of-five test: 200 000 multiples from each end x neighbours x every exponent; power-of-two test: all values with at most three set bits x every exponent; 5 platform branches",
   "thorough": "larger near-integral families, 4 000 000 multiples, float complete for the portable branches too"}, replayable=False)

O1 = ck.Config("gcc-O1", opt=("-O1",))


def handlers_run(tier, env, replay):
    r = ck.parallel(lambda: ck.build_driver("handlers", ["-rdynamic"]), lambda: ck.build_lib(O1, unit="handlers_unit.cpp", must=False))
    if not r[1]:
        return refused("C21", "handlers", ck.build_lib(O1, chars=1))
    return ck.run_driver(r[0], ["C21", tier, "@OUT", "gcc-O1=" + r[1]], env=env)


P("C21", handlers_run, "A state is one bit pattern; its transitions are calls with recording (temporary, named and const), throwing and library-provided handlers; assertions of the code under test are intercepted, so stopping is an observed outcome.",
  {"quick": "every exponent field of both formats x both signs x fractions with at most two (double: mostly one) set or clear bits, the first/last eight, 4-bit prefixes; x 8 handler forms x 2 result forms x 70 (mode, policy) combinations for zeros, subnormals, the largest finite binade, infinities and NaNs and every 64th other pattern, x 10 combinations for the rest",
   "thorough": "two set or clear bits for double everywhere"}, replayable=False)


def refused(prop, what, lib):
    """the unit with every argument form does not compile although plain uses do: a form is no longer accepted"""
    err = next((n for n in reversed(ck.build_notes) if n.startswith("not built")), "not built")
    return {"states": 1, "transitions": 1, "judged": 1, "samples": [err], "counters": {}, "nviol": 1,
            "violations": [{"key": "refused", "msg": "%s: a form of passing the arguments is refused by the compiler while explicit temporaries are accepted: %s" % (what, err)}]}


def forms_run(tier, env, replay):
    r = ck.parallel(lambda: ck.build_driver("forms"), lambda: ck.build_lib(O1, unit="forms_unit.cpp", must=False), lambda: ck.build_lib(ck.BASE, chars=1))
    if not r[1]:
        return refused("C22", "conversion or printing", r[2])
    return ck.run_driver(r[0], ["C22", tier, "@OUT", "forms=" + r[1], "gcc-O2=" + r[2]], env=env)


P("C22", forms_run, ALPHA + "Each input is converted and printed with its arguments passed as temporaries, named, const and moved objects, explicit template arguments (by value and as const references), with handler, and omitted; all must agree.",
  {"quick": "tiny alphabets x 2 signs: 16 conversion and 14 printing forms with the default mode and policy, every 64th input with each of the other 69 combinations (offset by combination); zeros, infinities and NaNs x 14 printing forms x 70",
   "thorough": "small alphabets, every 8th input with each of the other 69 combinations"}, replayable=False)


def purity_run(tier, env, replay):
    cfgs = [ck.BASE, _g["clang-O2"], _g["gcc-O0"], _g["generic"]]
    r = ck.parallel(lambda: ck.build_driver("purity"), *[(lambda c=c: ck.build_lib(c, chars=1)) for c in cfgs])
    return ck.run_driver(r[0], ["C14", tier, "@OUT"] + ["%s=%s" % (c.name, l) for c, l in zip(cfgs, r[1:])], env=env)


P("C14", purity_run, "A global state is the content of the library's writable segments and thread-local block; from every reachable one every operation is run (to a fixpoint when there is one), every result compared with the one a fresh library gives. "
  "Independently of that graph, all histories of length 2 and 3 over the stated operations, and long repetitions. Then every operation of the alphabets under every floating-point environment, errno, locale and memory prefill.",
  {"quick": "32 inputs x 70 (mode, policy) combinations x {unsigned, signed, text with and without terminator} plus specials: all histories of length 2; 48 more inputs that together take every branch direction of the code: from every reachable state, and all histories of length 2 with the operations of the same combination or the same input; 220 operations: all histories of length 3, 2^17 repetitions; 320 operations x about 3000 related arguments (bits flipped, halves replaced, added to, rotated): b,a,b and one long history; "
            "tiny alphabets x 70 combinations x 17 environments (4 rounding directions x flush-to-zero x denormals-are-zero, x87 precisions) and three of errno and locale (decimal comma, for the thread and for the process) x 2 builds; every 307th (input, combination) x 4 stack/register/buffer patterns x 4 kinds of call x 4 builds (one at -O0)",
   "thorough": "small alphabets, 260 operations, 2^20 repetitions"}, replayable=False)

TSAN = ck.Config("clang-tsan", cc="clang++", opt=("-O1", "-fsanitize=thread"))
_WRAP = ["-Wl,--wrap=" + f for f in ("memcpy memmove memset pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_wrlock pthread_rwlock_rdlock "
         "pthread_rwlock_unlock pthread_spin_lock pthread_spin_unlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort malloc free calloc realloc "
         "_Znwm _Znam _ZdlPv _ZdaPv _ZdlPvm _ZdaPvm").split()]


def conc_run(tier, env, replay):
    r = ck.parallel(lambda: ck.build_driver("conc", ["-rdynamic"]), lambda: ck.build_lib(TSAN, chars=1, link=_WRAP),
                    lambda: ck.build_lib(TSAN, modes=[], sources=["conc_selftest.cpp"], link=_WRAP))
    return ck.run_driver(r[0], ["C15", tier, "@OUT", r[1], r[2]], env=env)


P("C15", conc_run, "A state is one complete execution (schedule) of a program of two or three threads on the real code, with every memory access and synchronisation operation of the code routed through a controlled scheduler and checked for unordered conflicts; "
  "schedules that differ only in the order of accesses to unshared locations are explored once (a location found to be shared becomes a scheduling point and the program is explored again); on a subset every access is a scheduling point regardless.",
  {"quick": "2 threads: all pairs of 60 operations, each of 17920 operations (32 inputs per format, which together take every branch direction of the code, x 70 combinations x 4 kinds of call) with itself and another, all 2+2-operation programs and 3-thread programs over 12 operations; preemption bound 2; engine self-test on 11 known-good and known-bad sharing patterns",
   "thorough": "20160 operations, 16-operation alphabets, preemption bound 3"}, replayable=False,
  technique="stateless model checking of the real code: all schedules of bounded concurrent programs up to a preemption bound under a controlled scheduler, with happens-before race detection",
  note="Exhaustive over the stated programs and bound; sequentially consistent memory (races are reported as such, so weaker behaviours need no exploration). Trusts clang's access instrumentation.")

REENT = [ck.BASE, _g["clang-O2"]]


def reent_run(tier, env, replay):
    r = ck.parallel(lambda: ck.build_driver("reent"), lambda: ck.build_lib(ck.BASE, modes=[], sources=["reent_selftest.cpp"]), *[(lambda c=c: ck.build_lib(c, chars=1)) for c in REENT])
    return ck.run_driver(r[0], ["C26", tier, "@OUT", "selftest=" + r[1]] + ["%s=%s" % (c.name, p) for c, p in zip(REENT, r[2:])], env=env)


P("C26", reent_run, "A state is one execution of the real, uninstrumented machine code in which a call is interrupted (or abandoned for good) at one particular executed instruction by a signal handler that itself converts or prints; every instruction of every call of the stated programs is tried, in one process after other calls and as the first calls of a fresh process; every participating result is compared with the one the call gives alone.",
  {"quick": "gcc -O2: each of 17920 operations (32 inputs per format, which together take every branch direction of the code, x 70 combinations x 4 kinds of call) interrupted at every instruction by 4 others, abandoned at every instruction, and interrupted at all instructions of one run; all pairs of 102 operations; nesting of depth 2 at every pair of instructions (60 triples); 170 pairs of first calls, one process per instruction; clang -O2: a quarter of that; engine self-test on 5 good and bad ways of keeping scratch memory",
   "thorough": "36 inputs per format, all pairs of 198 operations, 240 nested triples, all pairs of first calls"}, replayable=False,
  technique="stateless model checking of the real code: every interruption and abandonment point of bounded nested call programs, at machine-instruction granularity, under a breakpoint-driven scheduler",
  note="Exhaustive over the stated programs and all their instructions. Interruptions between two instructions cover all behaviours of asynchronous signal handlers on one thread. Trusts the processor's breakpoint and single-step traps.")

LIVES = [(c, o) for c in (ck.BASE, _g["gcc-O0"], _g["clang-O2"], ck.Config("clang-O0", cc="clang++", opt=("-O0",))) for o in ("first", "last", "middle")]


def life_run(tier, env, replay):
    r = ck.parallel(lambda: ck.build_driver("life"), *[(lambda c=c, o=o: ck.build_life(c, o)) for c, o in LIVES])
    return ck.run_driver(r[0], ["C27", tier, "@OUT"] + ["%s, conversions linked %s=%s:%s" % (c.name, {"first": "after the user", "last": "before the user", "middle": "around the user"}[o], p, l) for (c, o), (p, l) in zip(LIVES, r[1:])], env=env)


P("C27", life_run, "A state is one program life: a process that performs its conversions in a given set of phases, from before any initialisation to the last destructor, in other threads, in a forked child, in loaded, unloaded and reloaded libraries, and with every memory allocation failing; every result is compared with the one main alone gives. A life that ends early or not at all is a violation.",
  {"quick": "24 phases; every single phase, every pair of phases, all phases; x 20160 operations (36 inputs per format, which together take every branch direction of the code, x 70 combinations x 4 kinds of call) x 3 link orders x 4 builds (gcc and clang, -O0 and -O2)",
   "thorough": "also every three phases"}, replayable=False,
  technique="explicit-state exhaustive exploration of program life histories (phase sets x link orders x builds) on the real code")

WORK = [ck.Config("gcc-O1-counted", opt=("-O1", "-fsanitize-coverage=trace-pc")), ck.Config("clang-O1-counted", cc="clang++", opt=("-O1", "-fsanitize-coverage=trace-pc,bb"))]


def work_run(tier, env, replay):
    r = ck.parallel(lambda: ck.build_driver("work", ["-rdynamic"]), *[(lambda c=c: ck.build_lib(c, chars=1)) for c in WORK])
    return ck.run_driver(r[0], ["C28", tier, "@OUT"] + ["%s=%s" % (c.name, l) for c, l in zip(WORK, r[1:])], env=env)


P("C28", work_run, "A state is one input; every call on it runs in code whose every basic block reports its execution: blocks and depth of the stack are counted, and system calls are intercepted. The calls of one exploration follow each other in a few processes, so work that grows with history shows.",
  {"quick": "small alphabets x 2 signs x 70 combinations x conversion, every eighth also as text, x gcc and clang; zeros, infinities, NaNs, extremes and picked inputs x 70 x 4 kinds of call; every non-negative float pattern (2^31) as text; 48 histories of 2^18 calls on distinct numbers of one binade; bounds 4000 basic blocks, 8 KiB of stack (the code needs about 80 and 0.5 KiB); engine self-test on 4 cases",
   "thorough": "quick alphabets, 4 complete sweeps, histories of 2^21 calls"}, replayable=False)

_SAN = ("-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fno-sanitize-recover=all")
SANITIZED = [ck.Config("asan+ubsan", cc="clang++", opt=_SAN + ("-fsanitize=address,undefined",), server=True),
             ck.Config("msan", cc="clang++", opt=("-O0",) + _SAN[1:] + ("-fsanitize=memory",), server=True),      # unoptimised: an optimiser may replace an uninitialised value by any other
             ck.Config("ubsan-generic", cc="clang++", opt=_SAN + ("-fsanitize=undefined",), defs=("-DMC_PLATFORM_GENERIC",), server=True)]


def robust_run(tier, env, replay):
    r = ck.parallel(lambda: ck.build_driver("robust"), lambda: ck.build_lib(ck.BASE, chars=1), *[(lambda c=c: ck.build_lib(c, chars=1, sources=["faults.cpp"])) for c in SANITIZED])
    return ck.run_driver(r[0], ["C16", tier, "@OUT", "native=" + r[1]] + ["%s=!%s" % (c.name, p) for c, p in zip(SANITIZED, r[2:])], env=env)


P("C16", robust_run, ALPHA + "Each input is converted and printed by the real code with assertions on, under address, undefined-behaviour and memory sanitizers, and natively with all floating-point exceptions unmasked; a report, failed assertion, trap or call that does not return is a violation.",
  {"quick": "tiny alphabets x 5 (mode, policy) combinations, every 8th/16th input (offset by combination) x the other 65; every third printed; NaN patterns with at most two set bits, infinities, zeros x 70; 3 sanitized builds (one of the portable branches); natively with trapping floating-point: every positive float in two combinations, the tiny alphabets in 70",
   "thorough": "small alphabets; every positive float under address+undefined sanitizers in four combinations; every float natively in four"}, replayable=False)

NOT_APPLICABLE = {}
ENUM = "explicit-state exhaustive exploration of the real code over bounded input/configuration spaces, every outcome decided by an exact reference model"
NOTE = ("Every state of the stated bounded space is executed on the real code built from the working tree and its outcome decided exactly; complete for float where a "
        "complete sweep is stated, otherwise bounded to the enumerated inputs (which contain those with the closest decimal boundaries). Trusts the reference model and the compiler.")
for _p in PROPS.values():
    _p.setdefault("technique", ENUM)
    _p.setdefault("note", NOTE)
