"""Builds /repo's working tree with the sanitizers on, outside /repo (into /verif/build/<variant>).

Variants
  san  : interpkernel + medcoupling + remapper + icoco + renumber + shaperecogn and the gathered Python
         module, clang AddressSanitizer + the UndefinedBehaviorSanitizer checks listed in UB.
  med  : the same plus src/MEDLoader (MED file I/O); three functions which libmed 4.1.0 lacks are supplied
         by /verif/shim/med_objdesc.h.
  mpi  : like san without Python, plus src/ParaMEDMEM and the C++ driver of the parallel property.

The list of sources comes from /repo/src/**/CMakeLists.txt, as in /opt/vp/project.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
S = REPO + "/src"
CXX = "/usr/bin/clang++"
UB = ("bounds,shift,signed-integer-overflow,integer-divide-by-zero,float-cast-overflow,bool,enum,return,"
      "unreachable,vla-bound")
GUARD = "MEDCOUPLING_VERIF_HOOKS"
ASAN_RT = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so"

HEAVY = ["MEDCouplingMemArray.cxx", "MEDCouplingRemapper.cxx", "MEDCouplingUMesh.cxx",
         "MEDCouplingUMesh_intersection.cxx", "MEDCouplingTimeDiscretization.cxx", "MEDCouplingFieldDouble.cxx",
         "MEDCoupling1GTUMesh.cxx", "MEDCouplingMemArrayFloat.cxx", "MEDCouplingFieldDiscretizationOnNodesFE.cxx",
         "MEDFileField1TS.cxx", "MEDFileMesh.cxx", "MEDFileFieldMultiTS.cxx"]


class BuildError(Exception):
    pass


def mc_sources(directory, var):
    text = re.sub(r"#.*", "", open(f"{S}/{directory}/CMakeLists.txt").read())
    res = []
    for block in re.findall(r"set\(\s*" + var + r"\s([^)]*)\)", text):
        for f in re.findall(r"[A-Za-z0-9_/.]+\.(?:cxx|cpp|c)(?=\s|$)", block):
            f = f"{S}/{directory}/{f}"
            if f not in res:
                res.append(f)
    if not res:
        raise BuildError(f"no set({var} ...) in {directory}")
    return res


IK = ["INTERP_KERNEL", "INTERP_KERNEL/Bases", "INTERP_KERNEL/Geometric2D", "INTERP_KERNEL/ExprEval",
      "INTERP_KERNEL/GaussPoints", "INTERP_KERNEL/LinearAlgebra"]
SWIGDIRS = ["MEDCoupling_Swig", "RENUMBER", "RENUMBER_Swig", "ICoCo", "ICoCo/Swig", "ShapeRecogn",
            "ShapeRecogn/Swig", "MEDCoupling"] + IK
PYINC = ["/usr/include/python3.12", "/usr/lib/python3/dist-packages/numpy/core/include"]
MEDINC = ["/usr/include/hdf5/openmpi", "/usr/lib/x86_64-linux-gnu/openmpi/include"]


def version_header(path):
    top = open(f"{REPO}/CMakeLists.txt").read()
    m = re.search(r"salome_setup_version\((\d+)\.(\d+)\.(\d+)\)", top)
    if not m:
        raise BuildError("no version in CMakeLists.txt")
    a, b, c = map(int, m.groups())
    text = open(f"{REPO}/MEDCoupling_version.h.in").read()
    for k, v in {"MEDCOUPLING_MAJOR_VERSION": a, "MEDCOUPLING_MINOR_VERSION": b, "MEDCOUPLING_PATCH_VERSION": c,
                 "MEDCOUPLING_VERSION": f"{a}.{b}.{c}", "MEDCOUPLING_XVERSION": hex((a << 16) + (b << 8) + c)}.items():
        text = text.replace("@%s@" % k, str(v))
    text = re.sub(r"#cmakedefine\s+(\w+)", r"#define \1", text)
    write_if_changed(path, text)


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def tree_files():
    """Every file of the working tree the build may read, in a fixed order."""
    out = []
    for root, dirs, files in os.walk(S):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cxx", ".hxx", ".txx", ".i", ".cpp", ".c", ".h", ".py", ".txt", ".in", "Enum")) or "." not in f:
                out.append(os.path.join(root, f))
    out.append(f"{REPO}/CMakeLists.txt")
    out.append(f"{REPO}/MEDCoupling_version.h.in")
    return out


def guard_against_stale(bdir):
    """ninja goes by times: drop the build when a file's contents changed without its time moving past the
    build's."""
    state = os.path.join(bdir, "tree.json")
    old = json.load(open(state)) if os.path.exists(state) else None
    new = {}
    for f in tree_files() + [os.path.join(VERIF, "shim", x) for x in sorted(os.listdir(VERIF + "/shim"))]:
        with open(f, "rb") as h:
            new[f] = hashlib.sha1(h.read()).hexdigest()
    if old is not None:
        for f, h in new.items():
            if old["files"].get(f) not in (None, h) and os.path.getmtime(f) <= old["built"] + 2:
                shutil.rmtree(bdir)
                os.makedirs(bdir)
                break
    return state, new


def build(variant="san", log=None):
    t0 = time.time()
    bdir = f"{BUILD}/{variant}"
    os.makedirs(bdir, exist_ok=True)
    state, hashes = guard_against_stale(bdir)
    if os.path.exists(state):
        os.unlink(state)
    version_header(f"{bdir}/MEDCoupling_version.h")
    san = os.environ.get("VERIF_SAN", f"-fsanitize=address,{UB} -fno-sanitize-recover=all -shared-libasan")
    opt = os.environ.get("VERIF_OPT", "-O1 -gline-tables-only -fno-omit-frame-pointer")
    defs = (f"-DMEDCOUPLING_USE_64BIT_IDS -DMED_ENABLE_METIS -D{GUARD} -D_POSIX_MAPPED_FILES -DENABLE_BOOST")
    incs = [bdir] + [f"{S}/{d}" for d in IK + ["MEDCoupling", "ICoCo", "RENUMBER", "ShapeRecogn"]]
    src = (mc_sources("INTERP_KERNEL", "interpkernel_SOURCES") + mc_sources("MEDCoupling", "medcoupling_SOURCES")
           + mc_sources("MEDCoupling", "medcouplingremapper_SOURCES"))
    libs = ""
    wrap = variant in ("san", "med")
    if wrap:
        src += (mc_sources("ICoCo", "icoco_SOURCES") + mc_sources("RENUMBER", "renumbercpp_SOURCES")
                + mc_sources("ShapeRecogn", "shaperecogn_SOURCES"))
        libs = "-lmetis -llapacke -llapack -lblas"
    swdefs = ("-DWITH_NUMPY -DWITH_SCIPY -DMEDCOUPLING_USE_64BIT_IDS -DMEDCOUPLING_SWIG4_COMPAT -DWITH_SHAPE_RECOGN "
              "-DWITH_RENUMBER -DWITH_ITERATIVE_STATISTICS")
    swinc = [bdir] + [f"{S}/{d}" for d in SWIGDIRS]
    extra = ""
    if variant == "med":
        src += mc_sources("MEDLoader", "medloader_SOURCES")
        incs += [f"{S}/MEDLoader"]
        swinc += [f"{S}/MEDLoader", f"{S}/MEDLoader/Swig"]
        swdefs += " -DWITH_MED_FILE"
        extra = "-isystem " + " -isystem ".join(MEDINC) + f" -include {VERIF}/shim/med_objdesc.h"
        libs += " -lmedC -lhdf5_openmpi"
        link = f"{bdir}/MEDConverter"
        if os.path.islink(link):
            os.unlink(link)
        os.symlink(f"{S}/MEDConverter", link)
    if variant == "mpi":
        src += mc_sources("ParaMEDMEM", "paramedmem_SOURCES")
        incs += [f"{S}/ParaMEDMEM", f"{S}/ParaMEDMEM/MPIAccess", f"{S}/ICoCo"]
        src += mc_sources("ICoCo", "icoco_SOURCES")
        extra = "-isystem " + " -isystem ".join(MEDINC[1:])
        libs += " -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi_cxx -lmpi"
    if not wrap:
        libs += ""
    src = list(dict.fromkeys(src))
    rank = {n: i for i, n in enumerate(HEAVY)}
    src.sort(key=lambda p: rank.get(os.path.basename(p), 99))
    flags = f"-std=c++17 -fPIC -w {opt} {san} {defs} {extra} " + " ".join("-I" + i for i in incs)
    n = [f"rule cxx\n command = {CXX} {flags} -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n",
         f"rule link\n command = {CXX} -fuse-ld=lld -shared -Wl,-rpath,'$$ORIGIN' {san} @$out.rsp -o $out $libs\n"
         " rspfile = $out.rsp\n rspfile_content = $in\n"]
    if wrap:
        sw = " ".join("-I" + i for i in swinc)
        n.append(f"rule swig\n command = /usr/bin/swig -python -c++ {swdefs} {sw} -I/usr/include -module medcoupling "
                 f"-interface _medcoupling -outdir {bdir} -MD -MF $out.d -o $out $in\n depfile = $out.d\n deps = gcc\n")
        py = " ".join("-isystem " + i for i in PYINC)
        wo = os.environ.get("VERIF_WRAPOPT", "-O0 -g0")
        n.append(f"rule wrap\n command = {CXX} -std=c++17 -fPIC -w {wo} {san} {defs} {swdefs} {extra} {sw} {py} "
                 "-DMEDCOUPLING_GIT_SHA1='\"sandbox\"' -DMEDCOUPLING_CONFIG_DT='\"sandbox\"' "
                 "-MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n")
        n.append(f"build {bdir}/wrap.cxx | {bdir}/medcoupling.py: swig {S}/PyWrapping/medcoupling.i\n")
        n.append(f"build {bdir}/wrap.o: wrap {bdir}/wrap.cxx\n")
    objs = []
    for s in src:
        o = f"{bdir}/o/{os.path.relpath(s, S).replace('/', '_')}.o"
        objs.append(o)
        n.append(f"build {o}: cxx {s}\n")
    n.append(f"build {bdir}/libmcall.so: link {' '.join(objs)}\n libs = {libs}\n")
    targets = [f"{bdir}/libmcall.so"]
    if wrap:
        n.append(f"build {bdir}/_medcoupling.so: link {bdir}/wrap.o {bdir}/libmcall.so\n libs = {libs}\n")
        targets.append(f"{bdir}/_medcoupling.so")
    if variant == "mpi":
        n.append(f"rule exe\n command = {CXX} {flags} -fuse-ld=lld $in -Wl,-rpath,'$$ORIGIN' -o $out {libs}\n")
        n.append(f"build {bdir}/pardriver: exe {VERIF}/props/pardriver.cxx {bdir}/libmcall.so\n")
        targets.append(f"{bdir}/pardriver")
    n.append("default " + " ".join(targets) + "\n")
    write_if_changed(f"{bdir}/build.ninja", "\n".join(n))
    jobs = str(os.cpu_count() or 4)
    r = subprocess.run(["ninja", "-C", bdir, "-j", jobs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if log:
        with open(log, "w") as f:
            f.write(r.stdout)
    if r.returncode:
        raise BuildError(r.stdout[-4000:])
    with open(state, "w") as f:
        json.dump({"built": t0, "files": hashes}, f)
    return bdir, time.time() - t0


if __name__ == "__main__":
    print(build(*sys.argv[1:]))
