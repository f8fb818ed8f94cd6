"""Snapshots of caller-owned objects and of process-wide state."""
from __future__ import annotations

import decimal
import faulthandler
import gc
import locale
import logging
import math
import os
import random
import resource
import signal
import socket
import sys
import threading
import tracemalloc
import types
import warnings

import numpy as np
import torch

from . import boot


def tens(t):
    try:
        v = t._version
    except RuntimeError:
        v = None
    if t.numel() > 200_000:
        b = None
    else:
        b = t.detach().cpu().numpy().tobytes()
    g = t.grad if t.is_leaf else None
    return ("T", str(t.dtype), tuple(t.shape), tuple(t.stride()),
            bool(t.requires_grad), v, b, None if g is None else tens(g))


def attrs(o):
    names = []
    for c in type(o).__mro__:
        sl = c.__dict__.get("__slots__", ())
        if isinstance(sl, str):
            sl = (sl,)
        names += [s for s in sl if not s.startswith("__")]
    d = getattr(o, "__dict__", None)
    if d:
        names += list(d)
    out = []
    for n in sorted(set(names)):
        try:
            out.append((n, getattr(o, n)))
        except Exception:
            continue
    return out


def snap(o, depth=0):
    if isinstance(o, torch.Tensor):
        return tens(o)
    if o is None or isinstance(o, (int, float, str, bool, bytes, complex)):
        return ("P", repr(o))
    if depth > 6:
        return ("?",)
    if isinstance(o, dict):
        return ("D", [(repr(k), snap(v, depth + 1)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return ("L", [snap(v, depth + 1) for v in o])
    if isinstance(o, (torch.dtype, torch.device, type, types.FunctionType,
                      types.BuiltinFunctionType, types.ModuleType)):
        return ("R", repr(o)[:80])
    mod = type(o).__module__
    if mod.startswith((boot.PKG, "dst", "tad_", "__main__")):
        from tad_dftd4.damping import Damping

        out = []
        for n, v in attrs(o):
            if n == "doi" and isinstance(o, Damping):
                continue
            out.append((n, snap(v, depth + 1)))
        return ("O", type(o).__name__, out)
    return ("R", type(o).__name__)


def empty(s):
    return s == ("P", "None") or (s[0] in "DL" and not s[1])


def diff(a, b, path=""):
    """First difference between two snapshots, or None."""
    if a == b:
        return None
    if a[0] != b[0]:
        return f"{path or 'object'}: kind {a[0]} -> {b[0]}"
    k = a[0]
    if k == "T":
        for i, n in enumerate(("dtype", "shape", "stride", "requires_grad",
                               "version", "values"), 1):
            if a[i] != b[i]:
                if n == "values":
                    return f"{path}: values changed"
                if n == "version":
                    if a[6] == b[6]:
                        return f"{path}: written in place (version {a[i]} -> {b[i]})"
                    return f"{path}: values changed in place"
                return f"{path}: {n} {a[i]} -> {b[i]}"
        return f"{path}: accumulated gradient changed"
    if k == "P" or k == "R":
        return f"{path}: {a[1]} -> {b[1]}"
    if k == "L":
        if len(a[1]) != len(b[1]):
            return f"{path}: length {len(a[1])} -> {len(b[1])}"
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = diff(x, y, f"{path}[{i}]")
            if d:
                return d
    if k == "D":
        ka, kb = [x for x, _ in a[1]], [x for x, _ in b[1]]
        if ka != kb:
            return f"{path}: keys {ka} -> {kb}"
        for (n, x), (_, y) in zip(a[1], b[1]):
            d = diff(x, y, f"{path}[{n}]")
            if d:
                return d
    if k == "O":
        da, db = dict(a[2]), dict(b[2])
        for n in da:
            if n.startswith("_") and empty(da[n]):
                # a private slot that was empty may be filled (a cache)
                continue
            if n not in db:
                return f"{path}.{n}: removed"
            d = diff(da[n], db[n], f"{path}.{n}")
            if d:
                return d
        for n in db:
            # a new private attribute is not an observable modification
            if n not in da and not n.startswith("_"):
                return f"{path}.{n}: added"
        return None
    return None


# ------------------------------------------------------------ process state
def _flag(f):
    try:
        return f()
    except Exception as e:  # pragma: no cover
        return type(e).__name__


_B = torch.backends


def ambient_global(full=False):
    """Process-wide settings visible to other threads."""
    d = {
        "default dtype": str(torch.get_default_dtype()),
        "default device": str(_flag(torch.get_default_device)),
        "torch rng": torch.random.get_rng_state().numpy().tobytes(),
        "python rng": hash(random.getstate()),
        "numpy rng": _np_state(),
        "thread count": torch.get_num_threads(),
        "deterministic algorithms": (
            torch.are_deterministic_algorithms_enabled(),
            torch.is_deterministic_algorithms_warn_only_enabled()),
        "matmul precision": torch.get_float32_matmul_precision(),
        "print options": str(vars(torch._tensor_str.PRINT_OPTS)),
        "numpy print options": str(sorted(np.get_printoptions().items(), key=lambda x: x[0])),
        "warning filters": repr(warnings.filters),
        "showwarning": id(warnings.showwarning),
        "environment": hash(tuple(sorted(os.environ.items()))),
        "working directory": os.getcwd(),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "sys.path": tuple(sys.path),
        "stdout": id(sys.stdout), "stderr": id(sys.stderr),
        "excepthook": id(sys.excepthook),
        "gc enabled": gc.isenabled(), "gc threshold": gc.get_threshold(),
        "root logger": (logging.getLogger().level, len(logging.getLogger().handlers),
                        logging.root.manager.disable),
        "SIGINT handler": repr(signal.getsignal(signal.SIGINT))[:40],
        "mkldnn": _flag(lambda: _B.mkldnn.enabled if hasattr(_B.mkldnn, "enabled") else None),
        "anomaly mode": torch.is_anomaly_enabled(),
        "einsum options": (_B.opt_einsum.enabled, _B.opt_einsum.strategy),
        "signal handlers": tuple(repr(signal.getsignal(x))[:60] for x in _SIGS),
        "timer": signal.getitimer(signal.ITIMER_REAL)[1],
        "sparse checks": torch.sparse.check_sparse_tensor_invariants.is_enabled(),
        "fill memory": torch.utils.deterministic.fill_uninitialized_memory,
        "warn always": torch.is_warn_always_enabled(),
        "socket timeout": socket.getdefaulttimeout(),
        "hooks": (id(threading.excepthook), id(sys.unraisablehook), id(sys.displayhook)),
        "digits": sys.get_int_max_str_digits(),
        "stack size": threading.stack_size(),
    }
    if full:
        d["limits"] = tuple(resource.getrlimit(x) for x in (
            resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_CPU))
        d["affinity"] = tuple(sorted(os.sched_getaffinity(0)))
        d["priority"] = os.getpriority(os.PRIO_PROCESS, 0)
        d["tracing"] = (faulthandler.is_enabled(), tracemalloc.is_tracing())
        d["logger class"] = id(logging.getLoggerClass())
        d["locale"] = _flag(lambda: locale.setlocale(locale.LC_ALL))
        d["umask"] = _umask()
        d["threads"] = threading.active_count()
    return d


def _np_state():
    s = np.random.get_state(legacy=False)
    return (s["state"]["pos"], s["state"]["key"].tobytes())


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def ambient_thread():
    """Settings private to the calling thread (checked at call ends)."""
    return {
        "grad mode": torch.is_grad_enabled(),
        "inference mode": torch.is_inference_mode_enabled(),
        "autocast": torch.is_autocast_enabled("cpu"),
        "numpy errstate": str(sorted(np.geterr().items())),
        "saved tensor hooks": _hooks(),
        "autocast options": (str(torch.get_autocast_dtype("cpu")), torch.is_autocast_cache_enabled()),
        "autograd options": (torch._C._is_multithreading_enabled(), torch._C._is_view_replay_enabled()),
        "modes": (torch._C._len_torch_function_stack(), torch._C._len_torch_dispatch_stack()),
        "transform": torch._C._functorch.peek_interpreter_stack() is None,
        "trace functions": (id(sys.gettrace()), id(sys.getprofile())),
        "decimal context": repr(decimal.getcontext()),
        "denormals": _TINY[0] * 0.5 != 0.0,
        "torch function": torch._C._is_torch_function_enabled()
        if hasattr(torch._C, "_is_torch_function_enabled") else None,
    }


_TINY = [5e-310]
_SIGS = (signal.SIGHUP, signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGPIPE, signal.SIGCHLD)


def _hooks():
    try:
        return repr(torch._C._autograd._top_saved_tensors_default_hooks(False))[:60]
    except Exception as e:  # pragma: no cover
        return type(e).__name__


def diff_amb(a, b):
    for k in a:
        if a[k] != b[k]:
            def sh(v):
                return "..." if isinstance(v, bytes) or (
                    isinstance(v, tuple) and len(str(v)) > 120) else str(v)[:80]
            return f"{k}: {sh(a[k])} -> {sh(b[k])}"
    return None


# ------------------------------------------------------------ library tables
class Tables:
    """Module-level tensors, constants and class-level lists of the library.

    Only objects that exist when the snapshot is taken are compared; additions
    (for example a private cache) are not modifications.
    """

    def __init__(self):
        self.t = []       # (path, tensor, version, bytes)
        self.f = []       # functions of other packages: (path, namespace, name, function)
        for mod in PATCHABLE():
            d = vars(mod)
            for k, v in sorted(d.items(), key=lambda x: x[0]):
                if callable(v):
                    self.f.append((f"{mod.__name__}.{k}", d, k, v))
        self.c = []       # (path, getter, repr)
        seen = set()
        for name in sorted(sys.modules):
            mod = sys.modules.get(name)
            if mod is None or not (
                name == boot.PKG or name.startswith((boot.PKG + ".", "tad_mctc", "tad_multicharge"))):
                continue
            own = name.startswith(boot.PKG)
            for k, v in sorted(vars(mod).items(), key=lambda x: x[0]):
                if k.startswith("__"):
                    continue
                p = f"{name}.{k}"
                if isinstance(v, torch.Tensor):
                    if id(v) in seen:
                        continue
                    seen.add(id(v))
                    self.t.append((p, v, v._version if not v.is_inference() else None,
                                   v.detach().numpy().tobytes(), v.requires_grad))
                elif isinstance(v, (int, float, str, bool, tuple)) and not k.startswith("_"):
                    self.c.append((p, mod, k, repr(v)))
                elif isinstance(v, (list,)) and own and not k.startswith("_"):
                    self.c.append((p, mod, k, repr(v)[:4000]))
                elif isinstance(v, type) and own and v.__module__ == name:
                    for ck in ("TERMS", "_ALLOWED_MODELS", "ALLOWED_MODELS",
                               "REQUIRED_BY_ORDER", "radius_type"):
                        if ck in v.__dict__:
                            self.c.append((f"{p}.{ck}", v, ck, _rep(v.__dict__[ck])))
                elif isinstance(v, types.FunctionType) and own and v.__module__ == name:
                    if v.__defaults__ or v.__kwdefaults__:
                        self.c.append((f"{p} defaults", v, None, _rep_defaults(v)))

    def check(self, full=True):
        for p, t, ver, b, rg in self.t:
            try:
                cv = t._version
            except RuntimeError:
                cv = None
            if ver is not None and cv != ver:
                return f"table {p} written in place"
            if t.requires_grad != rg:
                return f"table {p}: requires_grad changed"
            if full and t.detach().numpy().tobytes() != b:
                return f"table {p}: values changed"
        for p, d, k, v in self.f:
            if d.get(k) is not v:
                return f"{p} was replaced"
        for p, o, k, r in self.c:
            if k is None:
                cur = _rep_defaults(o)
            else:
                cur = getattr(o, k, "<removed>")
                cur = _rep(cur) if isinstance(o, type) else repr(cur)[:4000]
            if cur != r:
                return f"{p}: {r[:100]} -> {cur[:100]}"
        return None


def PATCHABLE():
    out = [torch, torch.Tensor, torch.linalg, torch.nn.functional, torch.autograd, math, np, warnings, os.path]
    for name in sorted(sys.modules):
        if name.startswith(("tad_mctc", "tad_multicharge")) and sys.modules[name] is not None:
            out.append(sys.modules[name])
    return out


def _rep(v):
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(_rep(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ",".join(f"{k}:{_rep(x)}" for k, x in v.items()) + "}"
    if isinstance(v, torch.Tensor):
        return repr(v.tolist()) + str(v.dtype)
    if isinstance(v, (int, float, str, bool)) or v is None:
        return repr(v)
    if isinstance(v, type):
        return v.__qualname__
    return type(v).__qualname__


def _rep_defaults(f):
    return _rep(f.__defaults__ or ()) + _rep(f.__kwdefaults__ or {})
