"""C17: importing glass needs nothing optional and changes nothing."""

from __future__ import annotations

import atexit
import builtins
import contextlib
import gc
import importlib
import importlib.machinery
import importlib.util
import json
import locale
import logging
import os
import resource
import shutil
import signal
import socket
import sys
import tempfile
import threading
import warnings

import numpy as np

from .. import sched, seams, simcase, values
from .. import workload as wl
from ..core import Check, HarnessError, Stats, Violation, fresh

HARD = [
    "numpy", "numpy.random", "numpy.linalg", "numpy.fft", "healpy", "healpix", "array_api_compat",
    "array_api_compat.numpy", "array_api_extra", "transformcl", "astropy", "flt",
]
STANDARD = [
    "asyncio", "concurrent.futures", "contextvars", "copy", "csv", "ctypes.util", "dataclasses", "decimal",
    "enum", "fractions", "glob", "hashlib", "importlib.metadata", "importlib.resources", "inspect",
    "io", "multiprocessing", "multiprocessing.pool", "multiprocessing.shared_memory", "numbers",
    "operator", "pickle", "pkgutil", "platform", "queue", "secrets", "shelve", "sqlite3",
    "statistics", "string", "struct", "subprocess", "textwrap", "timeit", "typing", "unittest.mock",
    "urllib.request", "uuid", "weakref", "zipfile", "zipimport", "zoneinfo",
]
# not among the dependencies which glass declares
OPTIONAL = [
    "jax", "fitsio", "array_api_strict", "cosmology", "scipy", "camb", "jaxtyping",
    "matplotlib", "pytest", "torch", "cupy", "dask", "sparse", "ndonnx", "pandas",
]
PRESENT = {"jax", "fitsio", "array_api_strict", "cosmology", "scipy", "jaxtyping"}
STASH: dict[str, dict] = {}
BROKEN = {
    "ImportError": ImportError, "OSError": OSError, "RuntimeError": RuntimeError,
    "AttributeError": AttributeError, "SystemError": SystemError, "ValueError": ValueError,
}
MODULES = [
    "glass", "glass.fields", "glass.galaxies", "glass.lensing", "glass.observations",
    "glass.points", "glass.shapes", "glass.shells", "glass.user", "glass.healpix",
    "glass.harmonics", "glass.algorithm", "glass.arraytools", "glass.grf", "glass.grf._solver",
    "glass.rng", "glass._types", "glass._array_api_utils", "glass.ext",
]
PUBLIC = [m for m in MODULES[1:-1] if "._" not in m]
# events of the interpreter that stand for effects outside of the process
EFFECTS = (
    "socket.connect", "socket.bind", "socket.getaddrinfo", "socket.gethostbyname", "socket.sendto",
    "subprocess.Popen", "os.system", "os.exec", "os.fork", "os.posix_spawn", "os.mkdir", "os.remove",
    "os.rename", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.kill",
    "os.putenv", "os.unsetenv", "os.chdir", "shutil.", "tempfile.", "urllib.", "os.utime",
    "signal.pthread_kill", "webbrowser.",
)


def broken(kind, name):
    e = BROKEN[kind](f"{name} is broken (simulated)")
    e.simulated = name
    return e


class Break:
    """Loader of an installation which fails when it is used."""

    def __init__(self, kind) -> None:
        self.kind = kind

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        raise broken(self.kind, module.__name__)


class Installation:
    """What is installed at the moment, as the import system sees it."""

    def __init__(self, state) -> None:
        self.state = dict(state)

    def gone(self, top) -> bool:
        return top in OPTIONAL and self.state.get(top, "missing") == "missing"

    def find_spec(self, name, path=None, target=None):
        top = name.partition(".")[0]
        if top not in OPTIONAL:
            return None
        state = self.state.get(top, "missing")
        if state == "missing":
            return None
        if state != "ok":
            return importlib.machinery.ModuleSpec(name, Break(state), is_package=True) if name == top else None
        mod = STASH.get(top, {}).get(name)
        if mod is None:
            return None
        return importlib.machinery.ModuleSpec(name, Keep(mod, STASH[top]), is_package=hasattr(mod, "__path__"))


class Keep:
    """
    Loader of an installed package: those imported before the run.

    All of its modules come at once.
    """

    def __init__(self, mod, mods) -> None:
        self.mod = mod
        self.mods = mods
        self.attrs = {k: vars(mod)[k] for k in ("__spec__", "__loader__", "__package__", "__path__") if k in vars(mod)}

    def create_module(self, spec):
        for k, m in self.mods.items():
            sys.modules.setdefault(k, m)
        return self.mod

    def exec_module(self, module):
        vars(module).update(self.attrs)


class Filter:
    """A finder of the interpreter which does not see what is not installed."""

    def __init__(self, finder, inst) -> None:
        self._finder = finder
        self._inst = inst

    def find_spec(self, name, path=None, target=None):
        top = name.partition(".")[0]
        if self._inst.gone(top) or (top in OPTIONAL and self._inst.state[top] != "ok"):
            return None
        return self._finder.find_spec(name, path, target)

    def __getattr__(self, a):
        return getattr(self._finder, a)


class Written:
    """Standard output or error of the process."""

    encoding = "utf-8"

    def __init__(self) -> None:
        self.text: list = []

    def write(self, s):
        self.text.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


# of the interpreter, and code of glass by file and level
LEVEL = [0]
CODES: dict = {}
_get_code = importlib.machinery.SourceFileLoader.get_code


def get_code(self, name):
    path = self.get_filename(name)
    if not path.startswith(sched.REPO):
        return _get_code(self, name)
    key = path, LEVEL[0]
    if key not in CODES:
        CODES[key] = compile(self.get_data(path), path, "exec", dont_inherit=True, optimize=LEVEL[0])
    return CODES[key]


def compile_all():
    for level in (0, 1, 2):
        for d, _, files in os.walk(sched.REPO):
            for f in files:
                if f.endswith(".py"):
                    path = os.path.join(d, f)
                    with open(path, "rb") as fd:
                        CODES[path, level] = compile(fd.read(), path, "exec", dont_inherit=True, optimize=level)
    importlib.machinery.SourceFileLoader.get_code = get_code


class Audit:
    """Effects on the world while something is watched."""

    def __init__(self) -> None:
        self.on = False
        self.seen: list = []
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on:
            return
        if event == "open":
            path, mode, flags = args
            if isinstance(path, int) or str(path).startswith("/proc/"):
                return
            if (isinstance(mode, str) and set(mode) & set("wax+")) or (
                mode is None and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
            ):
                self.seen.append(f"open {path!r} for writing")
        elif event.startswith(EFFECTS):
            self.seen.append(f"{event} {str(args)[:80]}")


def ident(ns):
    return {k: id(v) for k, v in list(ns.items())}


def flat(d):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from flat(v)
        else:
            yield k, v


def world():
    """State of the process which an import has no business changing."""
    out = {}
    try:
        cwd = os.getcwd()
    except FileNotFoundError:
        cwd = None
    umask = os.umask(0o22)
    os.umask(umask)
    out["environ"] = dict(os.environ)
    out["cwd"] = cwd
    out["umask"] = umask
    out["np.random"] = str(
        {k: v.tobytes() if hasattr(v, "tobytes") else v for k, v in flat(np.random.get_state(legacy=False))}
    )
    import random

    out["random"] = hash(random.getstate())
    out["numpy settings"] = [np.geterr(), id(np.geterrcall()), np.getbufsize()]
    out["printoptions"] = sorted(map(str, np.get_printoptions().items()))
    out["warnings"] = [
        [str(f) for f in warnings.filters], id(warnings.showwarning), id(warnings.formatwarning),
        id(warnings.warn),
    ]
    out["sys"] = [
        sys.getrecursionlimit(), sys.getswitchinterval(), sys.getdlopenflags(),
        id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(sys.stdout),
        id(sys.stderr), id(sys.stdin), sys.dont_write_bytecode, sys.get_int_max_str_digits(),
        id(sys.gettrace()), id(sys.getprofile()), list(sys.argv), sys.tracebacklimit if hasattr(sys, "tracebacklimit") else None,
    ]
    out["sys.path"] = list(sys.path)
    out["import system"] = [
        [id(f) for f in sys.meta_path], [id(f) for f in sys.path_hooks], id(builtins.__import__),
    ]
    out["signal handlers"] = {int(s): str(signal.getsignal(s)) for s in signal.valid_signals()}
    out["threads"] = [t.name for t in threading.enumerate()] + [id(threading.excepthook)]
    out["gc"] = [gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)]
    out["atexit"] = atexit._ncallbacks()
    out["locale"] = locale.setlocale(locale.LC_ALL, None)
    out["tempdir"] = tempfile.tempdir
    out["socket timeout"] = socket.getdefaulttimeout()
    out["limits"] = [resource.getrlimit(r) for r in range(10)] + [
        os.getpriority(os.PRIO_PROCESS, 0), sorted(os.sched_getaffinity(0))
    ]
    root = logging.getLogger()
    out["logging"] = [logging.root.manager.disable, id(logging.getLoggerClass()), logging.raiseExceptions]
    out["loggers"] = {
        name: [lg.level, [id(h) for h in lg.handlers], lg.propagate, lg.disabled]
        for name, lg in [("", root), *logging.root.manager.loggerDict.items()]
        if isinstance(lg, logging.Logger) and not name.startswith("glass")
    }
    out["builtins"] = ident(vars(builtins))
    return out


PATCHABLE = ("healpy", "healpix", "array_api_compat", "array_api_extra", "transformcl", "flt")


def attributes():
    """Names of the modules glass depends on, and what they stand for."""
    out = {}
    for name, mod in list(sys.modules.items()):
        top = name.partition(".")[0]
        if mod is None or not (
            top in PATCHABLE
            or name in ("os", "random", "warnings", "math", "threading", "itertools", "functools", "astropy")
            or (top == "numpy" and name.count(".") < 2 and "test" not in name)
        ):
            continue
        out[name] = list(vars(mod)), list(map(id, vars(mod).values()))
    return out


def compare_world(before, what):
    after = world()
    for k, b in before.items():
        a = after[k]
        if a == b:
            continue
        if isinstance(b, dict):
            ks = [x for x in sorted({*a, *b}, key=str) if a.get(x) != b.get(x)]
            if k == "loggers":
                ks = [x for x in ks if x in b]
                if not ks:
                    continue
            raise Violation("ambient-state", f"{what} changed {k}: {ks[:5]}")
        raise Violation("ambient-state", f"{what} changed {k}: {str(b)[:80]} -> {str(a)[:80]}")


def compare_attributes(before, what):
    after = attributes()
    for m, b in before.items():
        a = after.get(m)
        if a is None:
            raise Violation("ambient-state", f"{what} removed the module {m}")
        if a == b:
            continue
        a, b = dict(zip(*a)), dict(zip(*b))
        for k in sorted({*a, *b}):
            if a.get(k) == b.get(k):
                continue
            if k in ("__warningregistry__", "__spec__", "__getattr__"):
                continue
            if k not in b and (f"{m}.{k}" in sys.modules or not callable(vars(sys.modules[m])[k])):
                # a submodule which was loaded, a cache
                continue
            if k in b and k in a and not callable(vars(sys.modules[m])[k]):
                continue
            raise Violation("ambient-state", f"{what} changed {m}.{k}")


def jax_config():
    jax = STASH["jax"]["jax"]
    return {k: str(v) for k, v in jax.config.values.items()}


class C17(Check):
    id = "C17"
    title = "importing glass needs nothing optional and changes nothing"
    quick = 3000
    thorough = 60000
    rule = (
        "A process in which the declared dependencies of glass are loaded, glass is not, and each "
        "optional package is installed, missing, or fails when it is loaded. Python optimises or "
        "not; warnings may be errors; HOME, working directory, standard streams or the version "
        "file may be missing. A history of imports (any module first), calls, streams, catalogues, "
        "uses of the JAX generator and of extension packages (several portions of glass.ext on the "
        "path, some broken), while an operator installs, removes and repairs optional packages. "
        "Non-trivial: something is missing, broken or unusual. Oracle: imports work and load no "
        "optional package, and the state of the process and of the packages glass depends on is as "
        "before; results are those in a process with everything; what needs a package raises its "
        "error, leaves nothing behind, and works once the package does."
    )
    measure = "digest of installation, environment and history"
    assumptions = [
        "an import that was interrupted is not tried again in the same process",
        "the import system is that of CPython; packages are exchanged below it, at sys.meta_path",
    ]
    real = ["all of glass except glass.jax beyond a draw", "import system", "numpy", "healpy", "fitsio", "jax"]
    stub = ["installation of optional packages", "extension packages", "standard streams"]

    def setup(self):
        # what loading the standard library changes is not the doing of glass
        for m in STANDARD:
            importlib.import_module(m)
        for m in HARD:
            importlib.import_module(m)
        wl_healstore()
        from .. import jaxenv

        jaxenv.setup()
        for m in ("jax.numpy", "jax.random", "jax.scipy", "jax.dtypes", "jax.typing", "fitsio",
                  "array_api_strict", "cosmology", "cosmology.api", "jaxtyping"):
            importlib.import_module(m)
        # what else the dependencies load while they are used
        loaded = fresh(warm_modules, 300.0)
        for m in loaded:
            if m.split(".")[0] not in ("glass", *OPTIONAL, "jaxlib"):
                with contextlib.suppress(Exception):
                    importlib.import_module(m)
        if any(m.split(".")[0] == "glass" for m in sys.modules):
            raise HarnessError("glass is loaded")
        for m in sorted(sys.modules):
            top = m.split(".")[0]
            if top in OPTIONAL:
                STASH.setdefault(top, {})[m] = sys.modules[m]
        self.names = sorted(n for n, o in wl.OPS.items() if not o.heavy)
        compile_all()

    def gen(self, rnd, i, tier):
        state = {}
        how = rnd.choice(["all", "none", "mixed", "mixed", "broken"])
        for o in OPTIONAL:
            if how == "all":
                s = "ok"
            elif how == "none":
                s = "missing"
            elif how == "broken":
                s = rnd.choice(sorted(BROKEN))
            else:
                s = rnd.choice(["ok", "missing", rnd.choice(sorted(BROKEN))])
            if s == "ok" and o not in PRESENT:
                s = "missing"
            state[o] = s
        dirs = []
        for d in range(rnd.choice([0, 0, 1, 2, 3])):
            dirs.append(
                {
                    "front": rnd.chance(0.4),
                    "init": rnd.choice(["none", "empty", "raises"]),
                    "extinit": rnd.choice(["none", "empty", "raises"]),
                    "mods": {
                        n: rnd.choice(["module", "package", "uses", "broken"])
                        for n in ("foo", "bar", "camb", "rng", "_x")
                        if rnd.chance(0.4)
                    },
                    "noext": rnd.chance(0.1),
                }
            )
        steps = []
        first = rnd.choice([*MODULES, "glass", "glass", "glass.jax", "glass.cosmology", "glass.ext.foo"])
        steps.append({"do": "import", "mod": first})
        for _ in range(rnd.choice([1, 2, 3, 5, 7])):
            k = rnd.choice(
                ["op", "op", "op", "import", "import", "catalog", "ext", "ext", "set", "set",
                 "names", "purge", "jax", "cosmology", "version", "star", "stream", "strict"]
            )
            if k == "import":
                steps.append({"do": k, "mod": rnd.choice([*MODULES, "glass.jax", "glass.cosmology"])})
            elif k in ("op", "stream"):
                s = wl.random_spec(rnd, names=self.names, big=0.0)
                s["xp"] = "n"
                steps.append({"do": k, "spec": s, "seed": rnd.u32()})
            elif k == "strict":
                s = wl.random_spec(rnd, names=self.names, big=0.0)
                if "s" in wl.OPS[s["op"]].xps:
                    s["xp"] = "s"
                    steps.append({"do": k, "spec": s, "seed": rnd.u32()})
            elif k == "catalog":
                steps.append({"do": k, "rows": rnd.choice([0, 1, 5]), "exists": rnd.chance(0.5), "file": rnd.choice("ab")})
                if rnd.chance(0.5):
                    steps.append({"do": "set", "name": "fitsio", "to": "ok"})
                    steps.append({"do": k, "rows": 3, "exists": False, "file": rnd.choice("ab")})
            elif k == "ext":
                steps.append({"do": k, "name": rnd.choice(["foo", "bar", "camb", "rng", "_x", "absent"])})
            elif k == "set":
                n = rnd.choice(["jax", "fitsio", "fitsio", "cosmology", "array_api_strict", "scipy"])
                steps.append({"do": k, "name": n, "to": rnd.choice(["ok", "ok", "missing", rnd.choice(sorted(BROKEN))])})
            elif k == "jax":
                # compiling takes time
                steps.append({"do": k, "draw": rnd.chance(0.03)})
            else:
                steps.append({"do": k})
        return {
            "state": state,
            "dirs": dirs,
            "steps": steps,
            "optimize": rnd.choice([0, 0, 1, 2]),
            "werror": rnd.chance(0.5),
            "nohome": rnd.chance(0.2),
            "nocwd": rnd.chance(0.15),
            "nostd": rnd.chance(0.15),
            "noversion": rnd.chance(0.15),
            "warnset": rnd.chance(0.3),
            # the user's configuration of JAX
            "jaxset": {k: rnd.chance(0.3) for k in ("jax_enable_x64", "jax_debug_nans", "jax_disable_jit")},
            "errset": rnd.choice(["ignore", "ignore", "raise", "warn"]),
        }

    # ------------------------------------------------------------------ run

    def run(self, case, st: Stats):
        specs = [s for s in case["steps"] if s["do"] in ("op", "stream", "strict")]

        def references():
            return [wl.call_spec(s["spec"], seed=s["seed"]) for s in specs]

        refs = fresh(references) if specs else []
        self.want = {json.dumps(s, sort_keys=True): r for s, r in zip(specs, refs)}
        for m in [m for m in sys.modules if m.split(".")[0] in OPTIONAL]:
            del sys.modules[m]
        root = tempfile.mkdtemp(prefix="dst-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        cwd = os.getcwd()
        std = sys.stdout, sys.stderr
        try:
            self.go(case, st, root)
        finally:
            sys.stdout, sys.stderr = std
            os.chdir(cwd)
            shutil.rmtree(root, ignore_errors=True)

    def go(self, case, st, root):
        self.inst = inst = Installation(case["state"])
        self.root = root
        self.st = st
        self.case = case
        self.audit = Audit()
        self.pending: list = []
        self.extpath = None
        self.missing = {k for k, v in case["state"].items() if v == "missing"}
        st.sig = values.digest([case["state"], case["dirs"], case["steps"], case["optimize"]])
        st.nontrivial = (
            any(v != "ok" for v in case["state"].values()) or bool(case["dirs"]) or case["optimize"] > 0
            or case["nohome"] or case["nocwd"] or case["nostd"] or case["noversion"]
        )
        for k, v in case["state"].items():
            if k in PRESENT and v != "ok":
                st.add("fault:" + ("missing " if v == "missing" else "broken ") + k)
        for k in ("nohome", "nocwd", "nostd", "noversion", "werror"):
            if case[k]:
                st.add("fault:" + k)
        if case["optimize"]:
            st.add(f"fault:python -{'O' * case['optimize']}")
        repo = os.path.dirname(sched.REPO.rstrip("/"))
        self.portions(case, root, repo)
        noversion = case["noversion"]
        LEVEL[0] = case["optimize"]

        class NoVersion:
            @staticmethod
            def find_spec(name, path=None, target=None):
                if noversion and name == "glass._version":
                    raise ModuleNotFoundError("No module named 'glass._version'", name=name)

        sys.meta_path[:] = [inst, NoVersion, *(Filter(f, inst) for f in sys.meta_path)]
        if case["nohome"]:
            for k in ("HOME", "USER", "LOGNAME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "TMPDIR"):
                os.environ.pop(k, None)
        if case["nocwd"]:
            d = os.path.join(root, "cwd")
            os.mkdir(d)
            os.chdir(d)
            os.rmdir(d)
        np.seterr(all=case["errset"])
        for k, v in case["jaxset"].items():
            STASH["jax"]["jax"].config.update(k, v)
        if case["warnset"]:
            # settings of the user
            np.set_printoptions(precision=3)
            warnings.filterwarnings("always", message="simulated")
            np.random.seed(3)
        self.out = Written()
        sys.stdout = sys.stderr = None if case["nostd"] else self.out

        for j, step in enumerate(case["steps"]):
            st.add("steps")
            st.add(step["do"])
            getattr(self, "do_" + step["do"])(step, f"{j}: {json.dumps(step)}")
            if self.out.text:
                raise Violation("output", f"{step} printed {''.join(self.out.text)[:200]!r}")
        for what, it, got, want in self.pending:
            while True:
                x = next(it, wl)
                if x is wl:
                    break
                got.append(values.freeze(x))
            simcase.check_equal(("value", ("seq", "stream", got)), want, what)
        # in the end, everything is there
        self.complete("in the end")

    def portions(self, case, root, repo):
        """Portions of glass.ext in other places."""
        front, back = [], []
        self.layout = []
        for d, spec in enumerate(case["dirs"]):
            top = os.path.join(root, f"site{d}")
            pkg = os.path.join(top, "glass")
            ext = os.path.join(pkg, "ext")
            os.makedirs(pkg)
            if not spec["front"] and spec["init"] != "none":
                with open(os.path.join(pkg, "__init__.py"), "w") as f:
                    f.write("" if spec["init"] == "empty" else "raise RuntimeError('not to be imported')\n")
            if not spec["noext"]:
                os.makedirs(ext)
                if spec["extinit"] != "none":
                    with open(os.path.join(ext, "__init__.py"), "w") as f:
                        f.write("" if spec["extinit"] == "empty" else "raise RuntimeError('not to be imported')\n")
                for n, kind in spec["mods"].items():
                    text = f"WHERE = {d}\n"
                    if kind == "uses":
                        text = "import glass\nfrom glass import grf, RadialWindow\nimport glass.points as p\np.displace\n" + text
                    elif kind == "broken":
                        text = "raise ValueError('extension is broken (simulated)')\n"
                    path = os.path.join(ext, n + ".py")
                    if kind == "package":
                        os.makedirs(os.path.join(ext, n))
                        path = os.path.join(ext, n, "__init__.py")
                    with open(path, "w") as f:
                        f.write(text)
            (front if spec["front"] else back).append((d, top))
        sys.path[:0] = [t for _, t in front]
        sys.path += [t for _, t in back]
        importlib.invalidate_caches()
        self.layout = [d for d, _ in front + back]

    # ---------------------------------------------------------------- watch

    @contextlib.contextmanager
    def watched(self, what, *, attrs=True):
        case = self.case
        before = world()
        names = attributes() if attrs else {}
        loaded = set(sys.modules)
        saved = list(warnings.filters)
        if case["werror"]:
            warnings.simplefilter("error")
        self.audit.on = True
        try:
            yield
        finally:
            self.audit.on = False
            if case["werror"]:
                if str(warnings.filters[0][:2]) != str(("error", None)):
                    raise Violation("ambient-state", f"{what} changed the warning filters")
                warnings.filters[:] = saved
                warnings._filters_mutated()
        if self.audit.seen:
            raise Violation("outside-effect", f"{what}: {self.audit.seen[0]}")
        compare_world(before, what)
        if attrs:
            compare_attributes(names, what)
        self.loaded = {m for m in sys.modules if m not in loaded}

    def not_loaded(self, what, allowed=()):
        tops = sorted({m.split(".")[0] for m in self.loaded} & set(OPTIONAL) - set(allowed))
        if tops:
            raise Violation("optional-loaded", f"{what} loaded {tops}")

    def complete(self, what):
        import glass

        for n in glass.__all__:
            if getattr(glass, n, self) is self:
                raise Violation("name-missing", f"{what}: no glass.{n}")
        for m in PUBLIC:
            importlib.import_module(m)

    def works(self, top) -> bool:
        """Whether a package can be used now."""
        return top in sys.modules or self.inst.state[top] == "ok"

    def failure(self, e, top, what):
        """The error for a package which cannot be used."""
        state = self.inst.state[top]
        if state == "missing":
            if not isinstance(e, ImportError):
                raise Violation("wrong-error", f"{what} without {top} raised {type(e).__name__}: {e}")
            if top not in f"{e.name} {e}":
                raise Violation("wrong-error", f"{what} without {top} does not tell so: {e}")
            return
        while e is not None:
            if getattr(e, "simulated", None):
                return
            e = e.__cause__ or e.__context__
        raise Violation("wrong-error", f"{what} with broken {top} hides its error")

    # ---------------------------------------------------------------- steps

    def do_import(self, step, what):
        mod = step["mod"]
        if mod.startswith("glass.ext."):
            return self.do_ext({"name": mod[10:]}, what)
        need = {"glass.jax": "jax", "glass.cosmology": "cosmology"}.get(mod)
        config = jax_config()
        ok = need is None or mod in sys.modules or self.works(need)
        err = None
        with self.watched(what):
            try:
                importlib.import_module(mod)
            except Exception as e:  # noqa: BLE001
                err = e
        if err is not None:
            if ok:
                raise Violation(
                    "import-failed", f"{what} raised {type(err).__name__}: {err}"
                ) from err
            self.failure(err, need, what)
        elif not ok:
            raise Violation("fault-swallowed", f"{what} without {need} did not fail")
        self.not_loaded(what, (need,) if need else ())
        if jax_config() != config:
            raise Violation("ambient-state", f"{what} changed the configuration of JAX")
        if "glass" not in sys.modules:
            raise Violation("import-failed", f"glass is not there after {what}")

    def do_names(self, step, what):
        self.complete(what)

    def do_star(self, step, what):
        ns = {}
        with self.watched(what):
            exec("from glass import *", ns)
        import glass

        if set(ns) - {"__builtins__"} != set(glass.__all__):
            raise Violation("name-missing", f"{what}: {sorted(set(ns) ^ set(glass.__all__))[:5]}")
        self.not_loaded(what)

    def do_version(self, step, what):
        import glass

        if hasattr(glass, "__version__") is self.case["noversion"]:
            raise Violation("name-missing", "glass.__version__ does not follow the version file")

    def do_purge(self, step, what):
        """As test runners and notebooks do."""
        for m in [m for m in sys.modules if m.split(".")[0] == "glass"]:
            del sys.modules[m]
        self.extpath = None
        with self.watched(what):
            import glass  # noqa: F401
        self.not_loaded(what)

    def op(self, step, what, strict=False):
        spec = step["spec"]
        want = self.want[json.dumps(step, sort_keys=True)]
        before = np.geterr()
        with np.errstate(all="ignore"):
            A, fn = wl.build(spec)
            o = wl.OPS[spec["op"]]
            rng = wl.generator(spec["xp"], step["seed"]) if o.rng else None
            return o, A, fn, rng, want, before

    def do_op(self, step, what):
        o, A, fn, rng, want, _ = self.op(step, what)
        files = step["spec"]["op"] in ("save_load_cls",) or "cls" in step["spec"]["op"] and "save" in step["spec"]["op"]
        loaded = set(sys.modules)
        before = world()
        self.audit.on = not files
        with np.errstate(all="ignore"):
            got = wl.outcome(lambda: wl.collect(o, fn(A, rng)))
        self.audit.on = False
        self.loaded = set(sys.modules) - loaded
        if self.audit.seen:
            raise Violation("outside-effect", f"{what}: {self.audit.seen[0]}")
        simcase.check_equal(got, want, what)
        compare_world(before, what)
        self.not_loaded(what, ("array_api_strict",) if step["do"] == "strict" else ())

    def do_strict(self, step, what):
        if not self.works("array_api_strict"):
            return
        import array_api_strict  # noqa: F401

        self.do_op(step, what)

    def do_stream(self, step, what):
        o, A, fn, rng, want, _ = self.op(step, what)
        if not o.stream or want[0] != "value":
            return self.do_op(step, what)
        it = iter(fn(A, rng))
        x = next(it, wl)
        self.pending.append((what, it, [] if x is wl else [values.freeze(x)], want))
        return None

    def do_set(self, step, what):
        top = step["name"]
        if top in sys.modules:
            # loaded already: what happens on disk does not matter
            return
        if self.inst.state[top] != step["to"]:
            self.st.add("fault:operator " + ("repairs" if step["to"] == "ok" else "breaks") + " package")
        self.inst.state[top] = step["to"]

    def do_cosmology(self, step, what):
        self.do_import({"mod": "glass.cosmology"}, what)

    def do_jax(self, step, what):
        self.do_import({"mod": "glass.jax"}, what)
        if "glass.jax" not in sys.modules:
            return
        import glass.jax

        bridge = sys.modules.get("jax._src.xla_bridge")
        if bridge is not None and getattr(bridge, "_backends", None) and not getattr(self, "drew", False):
            raise Violation("ambient-state", f"{what} started a JAX device")
        if step["draw"]:
            self.drew = True
            x = np.asarray(glass.jax.Generator(seed=5).random(3))
            if x.shape != (3,) or not ((x >= 0) & (x < 1)).all():
                raise Violation("different-result", f"{what}: {x}")

    def do_catalog(self, step, what):
        import glass

        path = os.path.join(self.root, step["file"] + ".fits")
        if step["exists"] and not os.path.exists(path):
            with open(path, "wb") as f:
                f.write(b"precious")
        old = open(path, "rb").read() if os.path.exists(path) else None
        ok = self.works("fitsio")
        x = np.arange(step["rows"]) * 1.5
        entered = False
        err = None
        before = world()
        try:
            with glass.write_catalog(path) as out:
                entered = True
                out.write(X=x, Y=x + 1)
                out.write(X=x + 2, Y=x + 3)
        except Exception as e:  # noqa: BLE001
            err = e
        compare_world(before, what)
        new = open(path, "rb").read() if os.path.exists(path) else None
        if not ok:
            if err is None:
                raise Violation("fault-swallowed", f"{what} without fitsio did not fail")
            self.failure(err, "fitsio", what)
            if entered:
                raise Violation("wrong-error", f"{what} entered its body without fitsio")
            if new != old:
                raise Violation("file-left", f"{what} without fitsio changed the file")
            return
        if err is not None:
            raise Violation("poisoned", f"{what} raised {type(err).__name__}: {err}") from err
        import fitsio

        with fitsio.FITS(path) as f:
            t = f[1].read()
        if not np.array_equal(t["X"], np.r_[x, x + 2]) or not np.array_equal(t["Y"], np.r_[x + 1, x + 3]):
            raise Violation("different-result", f"{what}: {t}")

    def do_ext(self, step, what):
        name = step["name"]
        full = "glass.ext." + name
        want = None
        for d in self.layout:
            spec = self.case["dirs"][d]
            if not spec["noext"] and name in spec["mods"]:
                want = (d, spec["mods"][name])
                break
        err = None
        with self.watched(what):
            try:
                mod = importlib.import_module(full)
            except Exception as e:  # noqa: BLE001
                err = e
        self.not_loaded(what)
        if want is None:
            if not isinstance(err, ModuleNotFoundError) or err.name != full:
                raise Violation("extension", f"{full} is not there, but: {err!r}")
        elif want[1] == "broken":
            if not isinstance(err, ValueError):
                raise Violation("extension", f"{full} is broken, but: {err!r}")
            if full in sys.modules:
                raise Violation("extension", f"broken {full} is still there")
        elif err is not None:
            raise Violation("extension", f"{full} in portion {want[0]}: {err!r}")
        elif mod.WHERE != want[0]:
            raise Violation("extension", f"{full} is that of portion {mod.WHERE}, not {want[0]}")
        if "glass" not in sys.modules:
            raise Violation("import-failed", f"glass is not there after {what}")

    def shrinks(self, case):
        for ys in simcase.shrink_list(case["steps"], least=1):
            yield {**case, "steps": ys}
        for ys in simcase.shrink_list(case["dirs"]):
            yield {**case, "dirs": ys}
        for k, v in case["state"].items():
            if v != "ok" and k in PRESENT:
                yield {**case, "state": {**case["state"], k: "ok"}}
        for k in ("werror", "nohome", "nocwd", "nostd", "noversion", "warnset"):
            if case[k]:
                yield {**case, k: False}
        if case["optimize"]:
            yield {**case, "optimize": 0}
        if case["errset"] != "ignore":
            yield {**case, "errset": "ignore"}


def wl_healstore():
    from .. import healstore

    healstore.install()


def warm_modules():
    """Modules which are loaded when the operations are used."""
    from .. import core

    before = set(sys.modules)
    core.quiet()
    for name in sorted(wl.OPS):
        o = wl.OPS[name]
        if o.heavy:
            continue
        for x in o.xps:
            if x == "j":
                continue
            for j in range(2):
                with contextlib.suppress(Exception):
                    wl.call_spec({"op": name, "seed": j, "xp": x, "n": 3, "k": 2, "nside": 2})
    return [m for m in sys.modules if m not in before]


CHECK = C17()
