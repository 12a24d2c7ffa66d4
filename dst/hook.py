"""Import hook: lambdapic's Python comes from /repo/src, its C extensions from the build made for this run."""
from __future__ import annotations
import importlib.machinery, importlib.util, os, sys, subprocess
from pathlib import Path

EXT = Path(os.environ["DST_EXT"])
REPO = Path(os.environ.get("DST_REPO", "/repo"))

class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.startswith("lambdapic."):
            so = EXT / (name + ".so")
            if so.exists():
                return importlib.util.spec_from_file_location(name, so, loader=importlib.machinery.ExtensionFileLoader(name, str(so)))
        return None
    @staticmethod
    def invalidate_caches():
        pass

def _qed_tables():
    """The build generates these; if they are absent generate them outside /repo."""
    qed = REPO / "src/lambdapic/core/qed"
    if (qed / "optical_depth_tables.npz").exists():
        return
    cache = EXT.parent / "qed_tables"
    if not (cache / "optical_depth_tables.npz").exists():
        tmp = EXT.parent / f"qed_tables.tmp{os.getpid()}"
        tmp.mkdir(exist_ok=True)
        (tmp / "optical_depth_tables.py").write_text((qed / "optical_depth_tables.py").read_text())
        env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
        subprocess.run([sys.executable, str(tmp / "optical_depth_tables.py")], check=True, env=env, stdout=subprocess.DEVNULL)
        if not cache.exists():
            try: os.rename(tmp, cache)
            except OSError: pass
    import numpy as np
    real = np.load
    def load(f, *a, **k):
        p = Path(f) if isinstance(f, (str, os.PathLike)) else None
        if p is not None and p.name == "optical_depth_tables.npz" and not p.exists():
            return real(cache / p.name, *a, **k)
        return real(f, *a, **k)
    np.load = load

def install():
    sys.meta_path.insert(0, _Finder)
    src = str(REPO / "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    _qed_tables()
