"""Process set-up: environment, import seams, code-object registry.

Must be imported before torch and before the library under test.
"""
from __future__ import annotations

import os
import sys

REPO = os.environ.get("DST_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = "tad_dftd4"
PKGDIR = os.path.join(SRC, PKG)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = ("tad_mctc", "tad_multicharge", "opt_einsum", "tomli")

_ENV = {
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": os.environ.get("DST_HASHSEED", "0"),
    "CUDA_VISIBLE_DEVICES": "",
    "MKL_CBWR": "COMPATIBLE",
}


def ensure_env() -> None:
    """Re-execute once with a fixed hash seed, one thread and no ASLR."""
    if os.environ.get("DST_BOOTED") == "1":
        return
    env = dict(os.environ)
    env.update(_ENV)
    env["DST_BOOTED"] = "1"
    env["PYTHONPATH"] = VERIF
    argv = [sys.executable, *sys.orig_argv[1:]]
    import shutil
    import subprocess

    sa = shutil.which("setarch")
    if sa and subprocess.run(
        [sa, "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL
    ).returncode == 0:
        argv = [sa, "-R", *argv]
        os.execvpe(argv[0], argv, env)
    os.execvpe(argv[0], argv, env)


class ModInfo:
    __slots__ = ("name", "path", "code")

    def __init__(self, name, path, code):
        self.name, self.path, self.code = name, path, code


REPO_CODES: dict[str, ModInfo] = {}   # repository modules (by module name)
DEP_CODES: list = []                  # code objects of dependency modules
IMPORT_HOOK = [None]                  # callable(event, name, path) or None
LOCK_PATCH = [None]

# the library under test is always compiled straight from the working tree
import importlib.abc
import importlib.machinery
import importlib.util


class RepoLoader(importlib.machinery.SourceFileLoader):
    """Compile from /repo's working tree, never through .pyc files.

    It is also the seam for faults during imports.
    """

    def get_code(self, fullname):
        hook = IMPORT_HOOK[0]
        if hook is not None:
            hook("read", fullname, self.path)
        mi = REPO_CODES.get(fullname)
        if mi is None:
            with open(self.path, "rb") as fp:
                src = fp.read()
            code = compile(src, self.path, "exec", dont_inherit=True)
            mi = REPO_CODES[fullname] = ModInfo(fullname, self.path, code)
        return mi.code


class DepLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        code = super().get_code(fullname)
        DEP_CODES.append(code)
        return code


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        root = fullname.partition(".")[0]
        if root == PKG:
            base = os.path.join(SRC, *fullname.split("."))
            for loc, is_pkg in (
                (os.path.join(base, "__init__.py"), True),
                (base + ".py", False),
            ):
                if os.path.exists(loc):
                    ld = RepoLoader(fullname, loc)
                    return importlib.util.spec_from_file_location(
                        fullname, loc, loader=ld,
                        submodule_search_locations=[base] if is_pkg else None,
                    )
            return None
        if root in DEPS:
            spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
            if spec is not None and isinstance(
                spec.loader, importlib.machinery.SourceFileLoader
            ):
                spec.loader = DepLoader(fullname, spec.loader.path)
            return spec
        return None


LAZY: list[str] = []      # repository modules not loaded by `import tad_dftd4`
IMPORT_ERROR = [None]


def all_repo_modules() -> list[str]:
    out = []
    for d, dirs, files in os.walk(PKGDIR):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        if "__init__.py" not in files:
            continue
        rel = os.path.relpath(d, SRC).replace(os.sep, ".")
        for f in sorted(files):
            if f.endswith(".py"):
                out.append(rel if f == "__init__.py" else f"{rel}.{f[:-3]}")
    return out


def load(warm: bool = True) -> None:
    """Import torch, the dependencies and the library (never call it)."""
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())
    import torch
    import torch.linalg  # noqa
    import torch.autograd.functional  # noqa
    import numpy  # noqa
    # loaded lazily by torch during (double) backward; load once here
    import torch.nested._internal.nested_tensor  # noqa
    import torch._dynamo  # noqa

    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    from . import seams

    seams.install()          # lock factories, clock, files: before the library
    import importlib

    import opt_einsum  # noqa
    import opt_einsum.backends.torch  # noqa
    import tad_mctc  # noqa
    import tad_mctc.data  # noqa
    import tad_mctc.ncoord  # noqa
    import tad_multicharge  # noqa
    import tomli  # noqa

    importlib.import_module(PKG)
    for name in all_repo_modules():
        if name in sys.modules:
            continue
        LAZY.append(name)
        # compile now so that cold children only have to execute the code
        base = os.path.join(SRC, *name.split("."))
        init = os.path.join(base, "__init__.py")
        path = init if os.path.exists(init) else base + ".py"
        RepoLoader(name, path).get_code(name)
    if warm:
        for name in LAZY:
            try:
                importlib.import_module(name)
            except ImportError:
                pass
