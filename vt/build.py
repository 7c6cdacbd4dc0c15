"""Builds the instrumented harnesses from /repo's current working tree.

Every .cpp under /repo/src is compiled with the chosen sanitizers into an object cached under /verif/.build by the
hash of its preprocessed inputs (all of /repo/src, the stand-ins, the harness files and the flags), so nothing stale
can be linked.  Nothing is written under /repo."""
import concurrent.futures, hashlib, os, subprocess, sys, pathlib, shutil, time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
SRC = REPO / "src"
BUILD = VERIF / ".build"

COMMON = ["-std=c++20", "-g1", "-O1", "-fno-omit-frame-pointer", "-w", "-DUSE_PETSC",
          "-I/usr/lib/petsc/include", "-I" + str(VERIF / "standin"), "-I" + str(VERIF / "harness"),
          "-I" + str(SRC), "-include", str(VERIF / "standin/force.h")]
VARIANTS = {
    # gcc's object-size checks add nothing over ASan here and double the compile time
    "asan": ["-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize=object-size",
             "-fno-sanitize-recover=undefined", "-ftrivial-auto-var-init=pattern"],
    "tsan": ["-fsanitize=thread"],
    "plain": [], # for valgrind
}
LIBS = ["-L/usr/lib/petsc/lib", "-Wl,-rpath,/usr/lib/petsc/lib", "-lp4est", "-lsc", "-lz", "-lpetsc", "-llapack",
        "-lblas", "-lpthread"]


def mpi_env():
    e = dict(os.environ)
    e.update(CC="gcc", CXX="g++", OMPI_CC="gcc", OMPI_CXX="g++", OMPI_ALLOW_RUN_AS_ROOT="1",
             OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader", OMPI_MCA_plm_rsh_agent="/bin/false",
             OMPI_MCA_btl_vader_single_copy_mechanism="none", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
             OMPI_MCA_mpi_yield_when_idle="1", LC_ALL="C")
    return e


def tree_hash(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(str(f).encode()); h.update(b"\0"); h.update(f.read_bytes()); h.update(b"\0")
    return h.hexdigest()


def compile_one(src, flags, key_base):
    key = hashlib.sha256((key_base + str(src) + " ".join(flags)).encode() + src.read_bytes()).hexdigest()[:24]
    obj = BUILD / "obj" / (src.stem + "-" + key + ".o")
    if not obj.exists():
        tmp = obj.with_suffix(".tmp%d.o" % os.getpid())
        p = subprocess.run(["mpicxx", *flags, "-c", str(src), "-o", str(tmp)], capture_output=True, text=True,
                           env=mpi_env())
        if p.returncode != 0:
            raise RuntimeError("compiling %s failed:\n%s" % (src, p.stderr[-4000:]))
        tmp.rename(obj)
    return obj


def build(names, variant="asan", only_sources=None):
    """Returns {name: path of the executable}; raises RuntimeError when /repo does not compile."""
    (BUILD / "obj").mkdir(parents=True, exist_ok=True)
    flags = COMMON + VARIANTS[variant]
    headers = [f for f in SRC.rglob("*") if f.suffix in (".hpp", ".h")]
    headers += list((VERIF / "standin").glob("*.h"))
    lib_key = tree_hash(headers)
    har_key = lib_key + tree_hash((VERIF / "harness").glob("*.hpp"))
    sources = sorted(SRC.rglob("*.cpp"))
    if only_sources is not None:
        sources = [s for s in sources if s.name in only_sources]
    else:
        sources += sorted((VERIF / "standin").glob("*.cpp"))
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        # the harnesses are the longest compilations: start them first
        hf = {n: ex.submit(compile_one, VERIF / "harness" / (n + ".cpp"), flags, har_key) for n in names}
        lf = [ex.submit(compile_one, s, flags, lib_key) for s in sources]
        lib = [f.result() for f in lf]
        har = {n: f.result() for n, f in hf.items()}
        out, jobs = {}, []
        for n, o in har.items():
            key = hashlib.sha256(" ".join(map(str, [o, *lib, *flags])).encode()).hexdigest()[:24]
            exe = BUILD / (n + "-" + variant + "-" + key)
            out[n] = exe
            if not exe.exists():
                jobs.append(ex.submit(link, o, lib, flags, exe))
        for j in jobs:
            j.result()
    return out


def link(obj, lib, flags, exe):
    tmp = exe.with_name(exe.name + ".tmp%d" % os.getpid())
    p = subprocess.run(["mpicxx", *[f for f in flags if f.startswith("-f") or f == "-g1"], str(obj), *map(str, lib),
                        "-o", str(tmp), *LIBS], capture_output=True, text=True, env=mpi_env())
    if p.returncode != 0:
        raise RuntimeError("linking %s failed:\n%s" % (exe.name, p.stderr[-4000:]))
    tmp.rename(exe)


def prune(max_gb=3.0):
    """Keeps the cache bounded (scratch output of earlier trees)."""
    if not BUILD.exists():
        return
    files = sorted((f for f in BUILD.rglob("*") if f.is_file()), key=lambda f: f.stat().st_mtime, reverse=True)
    total = 0
    for f in files:
        total += f.stat().st_size
        if total > max_gb * 1e9 and time.time() - f.stat().st_mtime > 3600:
            f.unlink(missing_ok=True)


if __name__ == "__main__":
    t = time.time()
    names = sys.argv[1:]
    if names == ["--all"]:
        from props import PROPS
        jobs = {(j["harness"], j.get("variant", "asan")) for p in PROPS.values() for j in p["jobs"]}
        for v in sorted({v for _, v in jobs}):
            for n, p in build(sorted(n for n, w in jobs if w == v), v).items():
                print(n, v, p)
    else:
        for n, p in build(names).items():
            print(n, p)
    print("%.1f s" % (time.time() - t))
