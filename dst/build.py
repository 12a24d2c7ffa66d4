"""Builds what a check runs: libsim.so and /repo's C extensions, from the current tree.

Nothing is written in /repo.  Products live in /verif/.build/<hash of inputs>/.
"""
from __future__ import annotations
import ast, concurrent.futures as cf, fcntl, hashlib, os, subprocess, sys, sysconfig
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("DST_REPO", "/repo"))
PY = os.environ.get("DST_PY", "/opt/venv/bin/python")
BUILD = Path(os.environ.get("DST_BUILD", str(VERIF / ".build")))

def _hash(*parts) -> str:
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:16]

def py_info():
    out = subprocess.check_output([PY, "-c",
        "import numpy, mpi4py, sysconfig; print(numpy.get_include()); print(mpi4py.get_include()); print(sysconfig.get_paths()['include']); print(sysconfig.get_config_var('EXT_SUFFIX'))"],
        env={**os.environ, "OMPI_MCA_ess_singleton_isolated": "1"}).decode().split("\n")
    return out[0], out[1], out[2], out[3]

def extensions() -> dict[str, list[str]]:
    """dotted module name -> C sources, as setup.py declares them."""
    found: dict[str, list[str]] = {}
    try:
        tree = ast.parse((REPO / "setup.py").read_text())
        for node in ast.walk(tree):
            if isinstance(node, ast.Call) and getattr(node.func, "id", getattr(node.func, "attr", "")) == "Extension":
                kw = {k.arg: k.value for k in node.keywords}
                name = ast.literal_eval(kw["name"] if "name" in kw else node.args[0])
                src = ast.literal_eval(kw["sources"] if "sources" in kw else node.args[1])
                found[name] = list(src)
    except Exception:
        pass
    if not found:
        for c in sorted((REPO / "src/lambdapic").rglob("*.c")):
            found[".".join(c.relative_to(REPO / "src").with_suffix("").parts)] = [str(c.relative_to(REPO))]
    return found

def src_bytes() -> bytes:
    h = hashlib.sha256()
    root = REPO / "src/lambdapic"
    for p in sorted(root.rglob("*")):
        if p.suffix == ".py" and "__pycache__" not in p.parts:
            h.update(str(p.relative_to(root)).encode()); h.update(p.read_bytes())
    return h.digest()

CFLAGS = ["-O2", "-g1", "-fPIC", "-shared", "-fopenmp", "-march=native", "-fno-math-errno", "-fno-trapping-math",
          "-fwrapv", "-Werror=incompatible-pointer-types", "-w", "-DNDEBUG"]

def build(tsan: bool = False, verbose: bool = False) -> Path:
    """Returns a directory with libsim.so, ext/<module>.so [, ext_tsan/...]."""
    npinc, mpiinc, pyinc, suffix = py_info()
    simsrc = (VERIF / "dst/libsim/sim.c").read_bytes()
    csrc = b"".join(p.read_bytes() for p in sorted((REPO / "src").rglob("*.[ch]")))
    key = _hash("v3", simsrc, csrc, CFLAGS, (REPO / "setup.py").read_bytes())
    out = BUILD / key
    out.mkdir(parents=True, exist_ok=True)
    with open(out / ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        jobs = []
        sim = out / "libsim.so"
        env = {**os.environ, "OMPI_CC": os.environ.get("OMPI_CC", "gcc")}
        if not sim.exists():
            jobs.append((sim, ["mpicc", "-O2", "-g", "-fPIC", "-shared", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-w",
                               str(VERIF / "dst/libsim/sim.c"), "-ldl", "-lpthread"]))
        exts = extensions()
        for variant, extra in (("ext", []),) + ((("ext_tsan", ["-fsanitize=thread", "-fno-tree-vectorize", "-O1"]),) if tsan else ()):
            (out / variant).mkdir(exist_ok=True)
            for name, srcs in exts.items():
                so = out / variant / (name + ".so")
                if so.exists():
                    continue
                flags = CFLAGS + extra
                # OpenMP and tsan entry points resolve to the preloaded libsim.so, so neither runtime is linked
                compile_only = [f for f in flags if f not in ("-shared",)]
                jobs.append((so, ("ext", compile_only, srcs)))
        def run(job):
            target, spec = job
            tmp = str(target) + f".tmp{os.getpid()}"
            if spec[0] == "ext":
                objs = []
                for i, s in enumerate(spec[2]):
                    o = f"{tmp}.{i}.o"
                    subprocess.run(["mpicc", *spec[1], "-c", f"-I{npinc}", f"-I{mpiinc}", f"-I{pyinc}", f"-I{(REPO / s).parent}", str(REPO / s), "-o", o],
                                   check=True, env=env, cwd=REPO, capture_output=True, text=True)
                    objs.append(o)
                subprocess.run(["mpicc", "-shared", *objs, "-lm", "-o", tmp], check=True, env=env, capture_output=True, text=True)
                for o in objs: os.unlink(o)
            else:
                subprocess.run([*spec, "-o", tmp], check=True, env=env, capture_output=True, text=True)
            os.replace(tmp, target)
        with cf.ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(run, j) for j in jobs]:
                try:
                    f.result()
                except subprocess.CalledProcessError as e:
                    sys.stderr.write(e.stderr or ""); raise
    return out

def numba_cache_dir() -> Path:
    d = BUILD / ("numba_" + _hash("v1", src_bytes(), (VERIF / "dst/profiles.py").read_bytes()))
    d.mkdir(parents=True, exist_ok=True)
    return d

def run_env(out: Path, tsan: bool = False) -> dict[str, str]:
    env = {k: v for k, v in os.environ.items() if not k.startswith(("OMPI_", "PMIX_", "PYTHON", "NUMBA_", "OMP_", "LAMBDAPIC"))}
    env.update(LD_PRELOAD=str(out / "libsim.so"), OMPI_MCA_ess_singleton_isolated="1", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", LAMBDAPIC_CHECK_UPDATE="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1", NUMBA_NUM_THREADS="4", NUMBA_THREADING_LAYER="omp", NUMBA_CACHE_DIR=str(numba_cache_dir()),
               DST_EXT=str(out / ("ext_tsan" if tsan else "ext")), DST_LIBSIM=str(out / "libsim.so"), DST_REPO=str(REPO),
               PYTHONPATH=str(VERIF), LAMBDAPIC_LOG_LEVEL="CRITICAL", HDF5_USE_FILE_LOCKING="FALSE", PYTHONUNBUFFERED="1",
               TERM="dumb", HOME=os.environ.get("HOME", "/root"))
    return env

if __name__ == "__main__":
    import time
    t = time.time(); print(build(tsan="tsan" in sys.argv)); print(f"{time.time()-t:.1f}s")
