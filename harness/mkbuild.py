#!/usr/bin/env python3
"""Writes build.ninja for the harness: compiles the sources of the repository
under test (taken from its current working tree, found by globbing) together
with the harness drivers, under ASan+UBSan.

usage: mkbuild.py REPO VERIF OUT
"""
import glob, os, re, sys

repo, verif, out = map(os.path.abspath, sys.argv[1:4])
H = f"{verif}/harness"
os.makedirs(out, exist_ok=True)
gen = f"{out}/gen"
os.makedirs(gen, exist_ok=True)

with open(f"{gen}/nixd-config.h.tmp", "w") as f:
    f.write('#pragma once\n#define NIXD_LIBEXEC "/nonexistent"\n'
            '#define NIXD_VERSION "nightly"\n')
p = f"{gen}/nixd-config.h"
if not os.path.exists(p) or open(p).read() != open(p + ".tmp").read():
    os.replace(p + ".tmp", p)
else:
    os.remove(p + ".tmp")

SAN = "-fsanitize=address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=all"
BASE = ("-std=c++20 -O1 -g1 -fno-omit-frame-pointer -Wno-everything -pthread "
        "-UNDEBUG -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS "
        "-D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS")
INC = (f"-I{repo}/libnixf/include -I{gen} -I{repo}/nixd/lspserver/include "
       f"-I{repo}/nixd/include -I{H}/stub -I{H}")

lines = ["ninja_required_version = 1.5", f"builddir = {out}", ""]
w = lines.append
CLANG = "clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
w(f"cflags = {BASE} {INC}")
w(f"san = {SAN}")
w("rule cc")
w(f"  command = {CLANG} $cflags $san $xflags $pch -MD -MF $out.d -c $in -o $out")
w("  depfile = $out.d\n  deps = gcc\n  description = CC $out")
w("rule pch")
w(f"  command = {CLANG} $cflags $san $xflags -x c++-header -MD -MF $out.d -c $in -o $out")
w("  depfile = $out.d\n  deps = gcc\n  description = PCH $out")
w("rule ar\n  command = rm -f $out && llvm-ar-18 rcs $out $in\n  description = AR $out")
w("rule link")
w(f"  command = {CLANG} $san $lflags -pthread $in -o $out $libs\n  description = LINK $out")
w("rule py\n  command = PYTHONDONTWRITEBYTECODE=1 python3 $in $out\n  description = GEN $out\n")

GENH = []
for src, dst in [("Basic/DiagnosticEnum.h.py", "DiagnosticEnum.h"),
                 ("Basic/Diagnostic.cpp.py", "Diagnostic.cpp"),
                 ("Parse/Tokens.h.py", "Tokens.h"),
                 ("Parse/TokenKinds.inc.py", "TokenKinds.inc")]:
    d = os.path.dirname(f"{repo}/libnixf/src/{src}")
    deps = " ".join(sorted(glob.glob(f"{d}/*.py")))
    w(f"build {gen}/{dst}: py {repo}/libnixf/src/{src} | {deps}")
    GENH.append(f"{gen}/{dst}")
GENS = " ".join(GENH)
w("")


def obj(kind, src):
    b = src
    for pre, tag in [(repo + "/", "r/"), (H + "/", "h/"), (gen + "/", "g/")]:
        if b.startswith(pre):
            b = tag + b[len(pre):]
            break
    return f"{out}/{kind}/{b}.o"


def ccs(kind, srcs, pch=None, xflags=None):
    objs = []
    for s in srcs:
        o = obj(kind, s)
        imp = f" {pch}" if pch else ""
        w(f"build {o}: cc {s} | {GENS}{imp}")
        x = xflags or ""
        if s.startswith(f"{repo}/libnixf/src") or s.startswith(gen):
            x += f" -I{repo}/libnixf/src -I{repo}/libnixf/src/Parse"
        if x:
            w(f"  xflags = {x}")
        if pch:
            w(f"  pch = -include-pch {pch}")
        objs.append(o)
    return objs


def gl(*pats):
    r = []
    for p in pats:
        r += glob.glob(p, recursive=True)
    return sorted(set(r))


nixf_src = [s for s in gl(f"{repo}/libnixf/src/**/*.cpp")
            if not s.endswith("PrimOpsInfoGen.cpp")] + [f"{gen}/Diagnostic.cpp", f"{H}/stub/PrimOpsInfo.cpp"]
lsp_src = gl(f"{repo}/nixd/lspserver/src/**/*.cpp")


def needs_nix(path):
    """Sources that cannot be compiled without the Nix C++ libraries."""
    t = open(path, errors="replace").read()
    if re.search(r"#include\s*<nixt/|nixd/Eval/AttrSetProvider\.h", t):
        return True
    return any(m != "nix/expr/value.hh" for m in re.findall(r"#include\s*<(nix/[^>]*)>", t))


nixd_src = [s for s in gl(f"{repo}/nixd/lib/**/*.cpp") if not needs_nix(s)]

for kind, extra in [("asan", ""), ("fuzz", "-fsanitize=fuzzer-no-link")]:
    pl = None
    if kind == "asan":
        pl = f"{out}/lsp.pch"
        w(f"build {pl}: pch {H}/core/lsp_pch.h | {GENS}")
        pd = f"{out}/nixd.pch"
        w(f"build {pd}: pch {H}/core/nixd_pch.h | {GENS}")
    w(f"build {out}/{kind}/libnixf.a: ar {' '.join(ccs(kind, nixf_src, None, extra))}")
    if kind == "asan":
        w(f"build {out}/{kind}/liblsp.a: ar {' '.join(ccs(kind, lsp_src, pl, extra))}")
        w(f"build {out}/{kind}/libnixd.a: ar {' '.join(ccs(kind, nixd_src, pd, extra))}")

core = ccs("asan", gl(f"{H}/core/*.cpp", f"{H}/ref/*.cpp", f"{H}/gen/*.cpp"))
w(f"build {out}/libcore.a: ar {' '.join(core)}")
srv = ccs("asan", gl(f"{H}/srv/*.cpp"), f"{out}/nixd.pch")
w(f"build {out}/libsrv.a: ar {' '.join(srv)}")
A = f"{out}/asan"
LLVM = "-L/usr/lib/llvm-18/lib -lLLVM-18 -lrt"

for s in gl(f"{H}/props/*.cpp"):
    name = os.path.basename(s)[:-4]
    head = open(s).read(4000)
    uses = re.search(r"//\s*USES:\s*(.*)", head)
    uses = uses.group(1).split() if uses else ["nixf"]
    pch = None
    libs = []
    ll = ""
    if "server" in uses:
        uses.append("nixd")
        libs += [f"{out}/libsrv.a"]
    if "nixd" in uses:
        pch = f"{out}/nixd.pch"
        libs += [f"{A}/libnixd.a"]
        uses += ["lsp", "nixf"]
    if "lsp" in uses:
        pch = pch or f"{out}/lsp.pch"
        libs += [f"{A}/liblsp.a"]
        ll = LLVM
    if "nixf" in uses:
        libs += [f"{A}/libnixf.a"]
    if "tidy" in uses:
        t = ccs("asan", [f"{repo}/libnixf/tools/nixf-tidy.cpp"], None, "-Dmain=nixf_tidy_main")
    o = ccs("asan", [s], pch)
    if "nixd" in uses:   # command-line options register themselves
        whole = f"{A}/libnixd.a"
    lk = re.search(r"//\s*LINK:\s*(.*)", head)
    w(f"build {out}/{name}: link {' '.join(o)} {out}/libcore.a {' '.join(libs)}")
    w(f"  libs = {ll}")
    if lk:
        w(f"  lflags = {lk.group(1)}")

w(f"build {A}/nixd: link {' '.join(ccs('asan', [f'{repo}/nixd/tools/nixd.cpp'], f'{out}/nixd.pch'))} {A}/libnixd.a {A}/liblsp.a {A}/libnixf.a")
w(f"  libs = {LLVM}")
w(f"build {A}/nixf-tidy: link {' '.join(ccs('asan', [f'{repo}/libnixf/tools/nixf-tidy.cpp']))} {A}/libnixf.a")
w(f"  libs = {LLVM}")

for s in gl(f"{H}/fuzz/*.cpp"):
    name = os.path.basename(s)[:-4]
    o = ccs("fuzz", [s], None, "-fsanitize=fuzzer-no-link")
    w(f"build {out}/{name}: link {' '.join(o)} {out}/fuzz/libnixf.a")
    w(f"  lflags = -fsanitize=fuzzer\n  libs = ")

t = "\n".join(lines) + "\n"
bn = f"{out}/build.ninja"
if not os.path.exists(bn) or open(bn).read() != t:
    open(bn, "w").write(t)
