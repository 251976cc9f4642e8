#!/usr/bin/env python3
"""Generates a ninja file that compiles drjit-core's sources (from DRJIT_REPO,
default /repo) together with the simulator, and runs it."""
import glob, os, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("DRJIT_REPO", "/repo")

def out_dir():
    d = os.environ.get("DRSIM_BUILD", os.path.join(ROOT, "build"))
    return d

def generate(bdir, opt="-O1"):
    os.makedirs(bdir + "/gen/resources", exist_ok=True)
    cxx = "g++"
    defs = ("-DDRJIT_BUILD=1 -DDRJIT_DYNAMIC_LLVM=1 -DDRJIT_DYNAMIC_CUDA=1 "
            "-DDRJIT_ENABLE_CUDA=1 -DLZ4LIB_VISIBILITY= "
            "-DDRJIT_TSAN=1")
    inc = (f"-I{HERE}/shim -I{HERE} -I{REPO} -I{REPO}/include -I{REPO}/ext/lz4 "
           f"-I{bdir}/gen")
    base = f"{opt} -g1 -std=c++17 -pthread -w -fno-omit-frame-pointer -fno-stack-protector -fno-gnu-unique"
    drflags = (f"{base} {defs} {inc} -fsanitize-coverage=trace-pc -include {HERE}/drjit_pre.h")
    L = ["ninja_required_version = 1.3", f"builddir = {bdir}",
         "rule cxx", "  command = $cxx $flags -MMD -MF $out.d -c $in -o $out",
         "  depfile = $out.d", "  deps = gcc", "  description = CXX $in",
         "rule cc", "  command = gcc -O2 -g1 -w -c $in -o $out $flags", "  description = CC $in",
         "rule link", "  command = g++ -o $out @$out.rsp -rdynamic -pthread "
         "-L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -Wl,--no-as-needed $llvm -ldl "
         "-Wl,--wrap=_Z9jitc_freePv",
         "  rspfile = $out.rsp", "  rspfile_content = $in",
         "rule merge", "  command = ld -r --force-group-allocation -o $out.tmp $in && "
         "nm --defined-only $out.tmp | awk '$$2 ~ /^[WVu]$$/ || $$3 ~ /^_Z+N?K?St/ {print $$3}' | grep -v 'sim' > $out.weak; "
         "objcopy --localize-symbols=$out.weak $out.tmp $out",
         "rule bin2c", "  command = cmake -DBIN2C_OUTPUT=$out -DBIN2C_SYMBOLS=$sym "
         "-DBIN2C_INPUTS=$in -DBIN2C_TYPE=char -DBIN2C_HEADER=resources/kernels.h -P $script"]
    objs = []
    def add(src, flags, tag, rule="cxx"):
        o = f"{bdir}/{tag}/{os.path.basename(src)}.o"
        L.append(f"build {o}: {rule} {src}")
        L.append(f"  cxx = {cxx}")
        L.append(f"  flags = {flags}")
        objs.append(o)
        return o
    for sym in ("kernels_dict", "kernels_75"):
        c = f"{bdir}/gen/resources/{sym}.c"
        L.append(f"build {c}: bin2c {REPO}/resources/{sym}.lz4")
        L.append(f"  sym = {sym}")
        L.append(f"  script = {REPO}/cmake/bin2c.cmake")
        add(c, f"-I{REPO} -I{REPO}/resources", "res", "cc")
    for src in sorted(glob.glob(f"{REPO}/src/*.cpp")):
        b = os.path.basename(src)
        if b.startswith(("metal_", "optix_")):
            continue
        fl = drflags
        if b == "llvm_ts.cpp":
            fl += " -fassociative-math -fno-signed-zeros -fno-trapping-math"
        add(src, fl, "dr")
    add(f"{HERE}/adv/adversary.cpp", drflags + f" -I{REPO}/src", "adv")
    add(f"{REPO}/ext/lz4/lz4.c", "-DLZ4LIB_VISIBILITY=", "lz4", "cc")
    add(f"{REPO}/ext/lz4/xxhash.c", "", "lz4", "cc")
    # The simulator and the workloads are linked into one relocatable object whose weak
    # symbols are made local: it must not share (instrumented) template
    # instantiations with the library
    keep = len(objs)
    for src in sorted(glob.glob(f"{HERE}/*.cpp")):
        add(src, f"{base} {inc} -O1", "sim")
    for src in sorted(glob.glob(f"{HERE}/scen/*.cpp")):
        add(src, f"{base} -I{HERE} {inc} -mf16c", "scen")
    simobjs = objs[keep:]
    del objs[keep:]
    L.append(f"build {bdir}/simall.o: merge {' '.join(simobjs)}")
    objs.append(f"{bdir}/simall.o")
    L.append(f"build {bdir}/drsim: link {' '.join(objs)}")
    L.append("  llvm = -l:libLLVM.so")
    L.append(f"default {bdir}/drsim")
    txt = "\n".join(L) + "\n"
    p = f"{bdir}/build.ninja"
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)

def build(quiet=True):
    bdir = out_dir()
    generate(bdir)
    r = subprocess.run(["ninja", "-C", bdir, "-j8"], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        return None
    return bdir + "/drsim"

if __name__ == "__main__":
    r = build()
    print(r)
    sys.exit(0 if r else 2)
