"""plant.py SPECFILE: writes seeded/<id>/{patch.diff,demo.sh,demo.cpp,meta.json} for every planted bug described in SPECFILE
(a Python file with a list BUGS of dicts: id, property, needs, breaks, edits [(file, old, new)], demo (C++), flags, std main)."""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = r'''// Exits 0 when the code behaves, 1 when it does not.
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <cmath>
#include <string>
#include <limits>
#include <type_traits>
#include "fp_to_chars.h"
namespace rm = jkj::grisu_exact_rounding_modes; namespace cr = jkj::grisu_exact_correct_rounding;
static int fails = 0;
#define EXPECT(c) do { if (!(c)) { ++fails; std::printf("FAILED: %s\n", #c); } } while (0)
template <class F, class U> F mk(U u) { F x; std::memcpy(&x, &u, sizeof x); return x; }
static float fl(std::uint32_t u) { return mk<float>(u); }
static double db(std::uint64_t u) { return mk<double>(u); }
template <class R, class C, class F> std::string conv(F x) { auto v = jkj::grisu_exact(x, R{}, C{}); return (v.is_negative ? "-" : "") + std::to_string((unsigned long long)v.significand) + "e" + std::to_string(v.exponent); }
template <class F> std::string text(F x) { char b[64]; char* e = jkj::fp_to_chars_n(x, b); return std::string(b, e); }
'''
SH = '''#!/bin/bash
# run in /repo after the build: 0 on a correct tree, nonzero with the planted change
D="$(cd "$(dirname "$0")" && pwd)"; T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w %s -I. "$D/demo.cpp" fp_to_chars/fp_to_chars.cpp -o "$T/demo" -pthread || exit 2
timeout 120 "$T/demo"
'''
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns["BUGS"]:
        if only and b["id"] not in only: continue
        d = os.path.join(HERE, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp()
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "--detach", "-f", t + "/w"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(t, "w", f); s = open(p, newline="").read()
                crlf = "\r\n" in s
                if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                n = s.count(old)
                if n != 1: sys.exit("%s: %d matches of %r in %s" % (b["id"], n, old, f))
                open(p, "w", newline="").write(s.replace(old, new))
            diff = subprocess.run(["git", "-C", t + "/w", "diff"], stdout=subprocess.PIPE).stdout
            open(os.path.join(d, "patch.diff"), "wb").write(diff)
        finally:
            subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"]); shutil.rmtree(t)
        if "raw" in b: src = b["raw"]
        else: src = PRE + b.get("head", "") + "int main() {\n" + b["demo"] + "\n\tif (!fails) std::puts(\"ok\");\n\treturn fails ? 1 : 0;\n}\n"
        open(os.path.join(d, "demo.cpp"), "w").write(src)
        open(os.path.join(d, "demo.sh"), "w").write(b["sh"] if "sh" in b else SH % b.get("flags", "-O1"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print(b["id"], len(diff))
main()
