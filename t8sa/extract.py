"""Extraction driver: builds the clang extractor (tool/extract.cpp) and runs it over every
translation unit of the *current* /repo working tree.  Results are cached under /verif/.cache keyed by
the content of every source/header file involved, so a changed tree is always re-extracted."""
import hashlib, json, os, subprocess, sys, shutil, glob, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.environ.get("T8SA_VERIF", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("T8SA_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")

DEFS = ["HAVE_CONFIG_H", "HAVE_FSTREAM", "HAVE_IOMANIP", "HAVE_IOSTREAM", "HAVE_LIMITS_H", "LIN", "LININTEL",
        "MPICH_SKIP_MPICXX", "MPI_NO_CPPBIND", "OMPI_SKIP_MPICXX", 'T8_CC="cc"', 'T8_CFLAGS=""', "T8_CMAKE_BUILD",
        'T8_CXX="c++"', 'T8_CXXFLAGS=""', "T8_ENABLE_MPI=1", "T8_ENABLE_MPIIO=1",
        "T8_ENABLE_OCC=1", "T8_ENABLE_VTK=1", 'T8_LDFLAGS=""', 'T8_LIBS=""', 'T8_PACKAGE_STRING="t8 4.0.0"',
        "T8_TEST_LEVEL_INT=0", 'T8_VERSION="4.0.0"', "T8_VERSION_MAJOR=4", "T8_VERSION_MINOR=0",
        "T8_VERSION_PATCH=0", "T8_VERSION_POINT=4.0.0", 'T8_VTK_VERSION_USED="9.1"', "TBB_USE_DEBUG", "_MPICC_H",
        "_OCC64", "kiss_fft_scalar=double"]
SYS = ["/usr/include/opencascade", "/usr/lib/x86_64-linux-gnu/openmpi/include",
       "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi", "/usr/include/vtk-9.1", "/usr/include/jsoncpp"]


def flags(path, debug=True):
    a = ["-D" + d for d in DEFS]
    if debug:
        a.append("-DT8_ENABLE_DEBUG=1")
    a += ["-I" + REPO + "/src", "-I" + REPO, "-I" + REPO + "/api/t8_fortran_interface"]
    for s in SYS:
        a += ["-isystem", s]
    a += ["-include", VERIF + "/shim/sc_compat.h", "-w", "-ferror-limit=0", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]
    if path.endswith(".c"):
        a += ["-x", "c", "-std=gnu11"]
    else:
        a += ["-x", "c++", "-std=gnu++20"]
    return a


def sources():
    """every translation unit of the library: what a user links against"""
    out = []
    for top in ("src", "api", "mesh_handle"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".cxx", ".cpp", ".cc")):
                    out.append(os.path.join(d, f))
    return out


def all_files():
    out = []
    for top in ("src", "api", "mesh_handle"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".cxx", ".cpp", ".cc", ".h", ".hxx", ".hpp", ".f90", ".txx", ".inc", ".in")):
                    out.append(os.path.join(d, f))
    return out


def header_stubs(scratch):
    """the header-only mesh handle: one stub TU that includes all of its headers"""
    p = os.path.join(scratch, "stub_mesh_handle.cxx")
    hs = []
    for d, ds, fs in os.walk(os.path.join(REPO, "mesh_handle")):
        hs += [os.path.join(d, f) for f in fs if f.endswith(".hxx")]
    if not hs:
        return []
    with open(p, "w") as o:
        o.write("#include <t8.h>\n#include <t8_forest/t8_forest.h>\n#include <t8_forest/t8_forest_general.h>\n")
        for h in sorted(hs, key=lambda h: (not h.endswith('/mesh.hxx'), h)):
            o.write('#include "%s"\n' % h)
    q = os.path.join(scratch, "stub_headers.cxx")
    with open(q, "w") as o:
        o.write("""#include <t8.h>
#include <t8_schemes/t8_scheme.hxx>
#if __has_include(<t8_data/t8_vector_handler.hxx>)
#include <t8_data/t8_data_handler.hxx>
#include <t8_data/t8_vector_handler.hxx>
/* a user's data type: the handler templates are analysed in this instance */
struct vp_item { int a; };
template <> struct t8_data_handler<vp_item> {
  int size (const vp_item &item, sc_MPI_Comm comm);
  void pack (const vp_item &data, int &pos, void *buffer, const int num_bytes, sc_MPI_Comm comm);
  void unpack (const void *buffer, const int num_bytes, int &pos, vp_item &data, sc_MPI_Comm comm);
  constexpr t8_data_handler_type type () { return t8_data_handler_type (1); }
};
template struct t8_vector_handler<vp_item>;
#endif
""")
        for d, ds, fs in os.walk(os.path.join(REPO, "src")):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(".hxx") and ("t8_helper_functions" in d or "t8_types" in d or "t8_data" in d):
                    o.write('#include "%s"\n' % os.path.join(d, f))
    return [p, q]


def tool_path():
    src = open(os.path.join(VERIF, "tool/extract.cpp"), "rb").read() + open(os.path.join(VERIF, "tool/build.sh"), "rb").read()
    h = hashlib.sha256(src).hexdigest()[:16]
    p = os.path.join(CACHE, "t8x-" + h)
    if not os.path.exists(p):
        os.makedirs(CACHE, exist_ok=True)
        r = subprocess.run(["bash", os.path.join(VERIF, "tool/build.sh"), p], capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError("extractor does not build: " + r.stderr[-2000:])
    return p


def tree_hash():
    h = hashlib.sha256()
    for f in all_files():
        h.update(f.encode() + b"\0")
        h.update(hashlib.sha256(open(f, "rb").read()).digest())
    for f in ("tool/extract.cpp", "shim/sc_compat.h", "t8sa/extract.py"):
        h.update(hashlib.sha256(open(os.path.join(VERIF, f), "rb").read()).digest())
    return h.hexdigest()[:20]


class ExtractError(Exception):
    pass


def extract(debug=True):
    """returns the directory with one JSON per translation unit"""
    th = tree_hash() + ("" if debug else "-rel")
    out = os.path.join(CACHE, "ext-" + th)
    if os.path.exists(os.path.join(out, "DONE")):
        return out
    tool = tool_path()
    tmp = out + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    srcs = sources() + header_stubs(tmp)
    # the largest files first, spread over processes
    srcs.sort(key=lambda f: -weight(f))
    nproc = os.cpu_count() or 4
    nb = nproc * 2
    buckets = [[] for _ in range(nb)]
    load = [0] * nb
    for f in srcs:
        i = load.index(min(load))
        load[i] += weight(f)
        buckets[i].append(f)
    jobs = []
    for i, b in enumerate(buckets):
        if not b:
            continue
        job = [{"file": f, "out": os.path.join(tmp, os.path.basename(f).replace(".", "_") + "_" + hashlib.md5(f.encode()).hexdigest()[:8] + ".json"), "args": flags(f, debug)} for f in b]
        jf = os.path.join(tmp, "job%d.in" % i)
        json.dump(job, open(jf, "w"))
        jobs.append(jf)

    def run(jf):
        r = subprocess.run([tool, REPO + "/," + tmp + "/", jf], capture_output=True, text=True)
        return r.returncode, r.stderr
    with ThreadPoolExecutor(nproc) as ex:
        res = list(ex.map(run, jobs))
    bad = [e for rc, e in res if rc]
    open(os.path.join(tmp, "ERRORS"), "w").write("\n".join(bad)[-20000:])
    if any(rc < 0 for rc, e in res):
        shutil.rmtree(tmp, ignore_errors=True)
        raise ExtractError("the extractor crashed:\n" + "\n".join(bad)[-3000:])
    # keep the cache small
    old = sorted(glob.glob(os.path.join(CACHE, "ext-*")), key=os.path.getmtime)
    for o in old[:-3]:
        if ".tmp" not in o:
            shutil.rmtree(o, ignore_errors=True)
    open(os.path.join(tmp, "DONE"), "w").write("ok")
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def weight(f):
    try:
        t = open(f, errors="replace").read()
    except OSError:
        return 1
    w = 60000 + len(t)
    if "vtk" in t and f.endswith(".cxx"):
        w += 200000
    if "TopoDS" in t or "cad" in f:
        w += 300000
    if f.endswith(".c"):
        w = len(t)
    return w


if __name__ == "__main__":
    t = time.time()
    print(extract(), time.time() - t)
