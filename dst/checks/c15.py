"""C15: HEALPix data files are honoured or reported, never guessed."""

from __future__ import annotations

import itertools
import logging
import os
import shutil
import urllib.error
import warnings

import numpy as np

from .. import healstore, sched, simcase, values
from .. import workload as wl
from ..core import Check, Stats, Violation
from ..healstore import FULL, PIX

NSIDES = [1, 2, 4, 8]
VERSIONS = 4  # the last one is what the server has
FILES: dict = {}  # (kind, nside, version) -> bytes
DATA: dict = {}  # (kind, nside, version) -> arrays


class Store:
    """Directories of data files, and what is known about them."""

    def __init__(self, root) -> None:
        self.root = root
        self.state: dict = {}
        self.env = None
        self.cwd = "."
        self.net = "down"
        self.journal: list = []

    def path(self, d, kind, nside):
        return os.path.join(self.root, d, (PIX if kind == "pix" else FULL) % nside)

    def clear(self, path):
        if os.path.islink(path) or os.path.isfile(path):
            os.remove(path)
        elif os.path.isdir(path):
            shutil.rmtree(path)

    def put(self, d, kind, nside, what) -> None:
        """Put a file into the given state."""
        path = self.path(d, kind, nside)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if isinstance(what, int):
            if os.path.isdir(path) and not os.path.islink(path):
                self.clear(path)
            with open(path + ".new", "wb") as f:
                f.write(FILES[kind, nside, what])
            os.replace(path + ".new", path)
        else:
            self.clear(path)
            good = FILES[kind, nside, 0]
            if what == "dangling":
                os.symlink("nowhere", path)
            elif what == "dir":
                os.mkdir(path)
            elif what in ("empty", "short", "garbage", "header"):
                n = {"empty": 0, "short": 5760 + 8 * (4 * nside + 1), "garbage": 3000, "header": 2880}[what]
                body = good[:n] if what != "garbage" else bytes(i * 37 % 251 for i in range(n))
                with open(path, "wb") as f:
                    f.write(body)
        self.state[d, kind, nside] = what

    def note(self) -> None:
        self.journal.append((self.env, self.cwd, self.net, dict(self.state)))

    # -- what a call may see

    def dirs(self, env, cwd):
        """The directory meant by a setting; None if it does not exist."""
        if env in ("A", "B"):
            return env
        if env == "rel":
            return {".": "A", "sub": None}[cwd]
        if env == "A/":
            return "A"
        return None

    def allowed(self, lo, kind, nside):
        """States of a file that were current at some time since `lo`."""
        seen = self.journal[lo:]
        out = set()
        for env, cwd in {(e, c) for e, c, _, _ in seen}:
            if env is None:
                for _, _, net, _ in seen:
                    if net == "up":
                        out.add(VERSIONS - 1)
                    else:
                        out.add("none" if kind == "full" else "error")
                continue
            d = self.dirs(env, cwd)
            for _, _, _, state in seen:
                what = state.get((d, kind, nside), "missing") if d else "missing"
                out.add(what if isinstance(what, int) else "error")
        return out

    # -- actions

    def act(self, a) -> None:
        what = a["what"]
        if what == "env":
            self.env = a["to"]
            v = {
                "A": os.path.join(self.root, "A"), "B": os.path.join(self.root, "B"), "A/": os.path.join(self.root, "A") + "/",
                "rel": "A", "nowhere": os.path.join(self.root, "nowhere"), "file": os.path.join(self.root, "file"), "blank": "",
            }.get(a["to"])
            if v is None:
                os.environ.pop("HEALPY_DATAPATH", None)
            else:
                os.environ["HEALPY_DATAPATH"] = v
        elif what == "cwd":
            self.cwd = a["to"]
            os.chdir(os.path.join(self.root, a["to"]))
        elif what == "net":
            self.net = a["to"]
        elif what == "file":
            self.put(a["dir"], a["kind"], a["nside"], a["to"])
        elif what == "overwrite":
            key = a["dir"], a["kind"], a["nside"]
            if isinstance(self.state.get(key), int):
                with open(self.path(*key), "r+b") as f:
                    f.write(FILES[a["kind"], a["nside"], a["to"]])
                self.state[key] = a["to"]
        elif what == "rmdir":
            shutil.rmtree(os.path.join(self.root, a["dir"]), ignore_errors=True)
            for k in [k for k in self.state if k[0] == a["dir"]]:
                self.state[k] = "missing"
        self.note()

    def download(self, name, package=None, **_):
        if self.net == "down":
            raise urllib.error.URLError("network is down")
        return os.path.join(self.root, "server", name)


class C15(Check):
    id = "C15"
    title = "HEALPix data"
    quick = 3000
    thorough = 100000
    rule = (
        "A history of 2-8 calls which use HEALPix data (pixwin, map2alm with weights, "
        "discretized_cls, from_convergence, shear_from_convergence) by one or two tasks "
        "among 0-8 actions of an operator: the setting changed to another, relative, "
        "unset, missing directory or a file; files replaced by another version, "
        "overwritten, removed, cut short, emptied, garbled, replaced by directories or "
        "dangling links, and repaired; the download server going up and down. Non-trivial: "
        "an action was taken. Oracle: a result is the one computed from versions of the "
        "files that were current at some time during the call; an error only if an unusable "
        "file was."
    )
    measure = "digest of schedule, actions and results"
    assumptions = [
        "healpy applies the weights in the file it is told to read",
        "damaged weight files are left out: healpy's C++ reader ends the process",
        "files are replaced atomically while calls are made",
    ]
    real = ["glass.healpix, glass.lensing, glass.fields", "healpy, astropy.io.fits", "files in a scratch directory"]
    stub = ["download server", "operator", "thread scheduler"]

    def setup(self):
        import fitsio
        import glass  # noqa: F401
        import healpy  # noqa: F401

        wl.warm()
        tmp = healstore.scratch()
        try:
            for ns, v in itertools.product(NSIDES, range(VERSIONS)):
                f = os.path.join(tmp, "f.fits")
                DATA["pix", ns, v] = healstore.windows(ns, v)
                DATA["full", ns, v] = healstore.weights(ns, v)
                for kind in ("pix", "full"):
                    healstore.write(f, kind, ns, v)
                    with open(f, "rb") as fh:
                        FILES[kind, ns, v] = fh.read()
        finally:
            shutil.rmtree(tmp)

    # ----------------------------------------------------------------- cases

    def gen(self, rnd, i, tier):
        nsides = [rnd.choice(NSIDES[1:])] if rnd.chance(0.6) else rnd.sample(NSIDES, 2)
        conc = rnd.chance(0.35)

        def call():
            return {
                "do": "call", "fn": rnd.choice(["pixwin", "pixwin", "map2alm", "discretized", "from", "from", "from", "shear"]),
                "nside": rnd.choice(nsides), "lmax": rnd.choice([None, None, "small", "big"]), "pol": rnd.chance(0.5),
                "flags": rnd.randint(1, 7), "disc": rnd.chance(0.8), "xp": rnd.choice("nns"), "seed": rnd.u32(),
            }

        def act():
            r = rnd.random()
            if r < 0.3:
                return {"do": "act", "what": "env", "to": rnd.choice(["A", "A", "B", "B", "B", "A/", "rel", "nowhere", "file", "blank", "unset"])}
            if r < 0.35:
                return {"do": "act", "what": "cwd", "to": rnd.choice([".", "sub"])}
            if r < 0.4:
                return {"do": "act", "what": "net", "to": rnd.choice(["up", "down"])}
            if r < 0.45:
                return {"do": "act", "what": "rmdir", "dir": rnd.choice("AB")}
            kind = rnd.choice(["pix", "full"])
            a = {"do": "act", "what": "file", "dir": rnd.choice("AAB"), "kind": kind, "nside": rnd.choice(nsides)}
            if r < 0.6 and not conc:
                return {**a, "what": "overwrite", "to": rnd.randint(0, VERSIONS - 2)}
            if r < 0.82:
                return {**a, "to": rnd.randint(0, VERSIONS - 2)}
            bad = ["missing", "dangling"] + (["dir", "empty", "short", "garbage", "header"] if kind == "pix" else [])
            return {**a, "to": rnd.choice(bad)}

        if conc:
            tasks = [[act() for _ in range(rnd.randint(1, 6))]]
            tasks += [[call() for _ in range(rnd.randint(1, 3))] for _ in range(rnd.choice([1, 1, 2]))]
        else:
            tasks = [[call() if rnd.chance(0.5) else act() for _ in range(rnd.randint(3, 14))]]
            tasks[0].append(call())
        return {
            "nsides": nsides, "start": rnd.choice(["A", "A", "A", "B", "unset"]), "net": rnd.choice(["down", "up"]),
            "tasks": tasks, "policy": simcase.policy(rnd), "sched": rnd.u32(),
        }

    def run(self, case, st: Stats):
        import healpy.sphtfunc

        warnings.simplefilter("ignore")
        logging.disable(logging.CRITICAL)
        root = healstore.scratch()
        s = Store(root)
        was = os.getcwd()
        old = healpy.sphtfunc.data.get_pkg_data_filename
        try:
            for d in ("A", "B", "sub", "server", *(f"ref{v}" for v in range(VERSIONS))):
                os.mkdir(os.path.join(root, d))
            with open(os.path.join(root, "file"), "w") as f:
                f.write("not a directory")
            for ns in case["nsides"]:
                for kind in ("pix", "full"):
                    s.put("A", kind, ns, 0)
                    s.put("B", kind, ns, 1)
                    s.put("server", kind, ns, VERSIONS - 1)
                    for v in range(VERSIONS):
                        s.put(f"ref{v}", kind, ns, v)
            os.chdir(root)
            s.net = case["net"]
            healpy.sphtfunc.data.get_pkg_data_filename = s.download
            s.act({"what": "env", "to": case["start"] if case["start"] != "unset" else None})
            self.history(case, s, st)
        finally:
            healpy.sphtfunc.data.get_pkg_data_filename = old
            os.environ.pop("HEALPY_DATAPATH", None)
            os.chdir(was)
            shutil.rmtree(root, ignore_errors=True)

    def history(self, case, s, st):
        kept = []
        calls = []

        def body(script):
            def fn(task):
                for a in script:
                    sched.callback_point("next")
                    if a["do"] == "act":
                        a = {**a, "to": None} if a.get("to") == "unset" else a
                        s.act(a)
                        st.add(f"fault:{a['what']} {a.get('to') if not isinstance(a.get('to'), int) else 'another version'}")
                        st.nontrivial = True
                        continue
                    f, ref = self.call(a)
                    lo = len(s.journal) - 1
                    try:
                        out, err = f(), None
                    except (MemoryError, RecursionError, AssertionError):
                        raise
                    except Exception as e:  # noqa: BLE001
                        out, err = None, e
                    hi = len(s.journal)
                    calls.append((a, ref, lo, hi, out, err))
                    if err is None:
                        kept.append((a, out, values.freeze(out)))

            return fn

        simcase.simulate(case, [body(x) for x in case["tasks"]], st)
        for a, ref, lo, hi, out, err in calls:
            self.judge(s, a, ref, lo, hi, out, err, st)
        for a, out, was in kept:
            if not values.same(values.freeze(out), was, rtol=0, atol=0):
                raise Violation("result-changed", f"{a['fn']}: changed after it was returned")
        st.sig += values.digest([case["tasks"], [c[5] is None for c in calls]])

    def judge(self, s, a, ref, lo, hi, out, err, st):
        whole = s.journal
        s.journal = whole[:hi]
        try:
            pix = s.allowed(lo, "pix", a["nside"])
            full = s.allowed(lo, "full", a["nside"])
        finally:
            s.journal = whole
        needs = a["needs"]
        states = ([pix] if "pix" in needs else []) + ([full] if "full" in needs else [])
        what = f"{a['fn']}(nside={a['nside']})"
        if err is not None:
            if not any("error" in x for x in states):
                raise Violation("spurious-error", f"{what}: {type(err).__name__}: {err}")
            st.add("calls that raised")
            return
        options = [[x for x in y if x != "error"] for y in states]
        if not all(options):
            raise Violation("silent-fault", f"{what}: returned {values.brief(out)} without usable data; states {states}")
        got = None
        for c in itertools.product(*options):
            p = c[0] if "pix" in needs else None
            w = c[-1] if "full" in needs else None
            want = ref(p, w, s.root)
            if len(want) == len(out) and all(
                np.shape(x) == np.shape(y) and np.allclose(values.to_np(x), y, rtol=1e-9, atol=1e-11) for x, y in zip(out, want)
            ):
                got = c
                break
        if got is None:
            raise Violation("wrong-data", f"{what} {a}: {values.brief(out)} is not the result of any of {options}")
        st.add("calls that returned")
        if len(options) and max(map(len, options)) > 1:
            st.add("calls across a change")

    # ----------------------------------------------------------------- calls

    def call(self, a):
        """The call, and its result for given versions of the files."""
        import glass
        import glass.healpix as hp

        g = np.random.default_rng(a["seed"])
        nside = a["nside"]
        xp = wl.namespace(a["xp"])
        lmax = {None: None, "small": max(2, nside), "big": 4 * nside + 3}[a["lmax"]]
        if a["fn"] in ("from", "shear", "map2alm") and a["lmax"] == "big":
            lmax = 3 * nside - 1
        L = 3 * nside - 1 if lmax is None else lmax
        fn = a["fn"]

        if fn == "pixwin":
            a["needs"] = ["pix"]

            def f():
                out = hp.pixwin(nside, lmax=lmax, pol=a["pol"], xp=xp)
                return list(out) if a["pol"] else [out]

            return f, lambda p, w, root: [x[: L + 1] for x in DATA["pix", nside, p][: 1 + a["pol"]]]

        if fn == "discretized":
            a["needs"] = ["pix"]
            k = int(g.integers(1, 4))
            cls = [g.uniform(0.1, 1, int(g.integers(0, 5 * nside))) for _ in range(k * (k + 1) // 2)]
            ncorr = [None, None, 0, 1][int(g.integers(4))]
            if not any(len(c) for c in cls):
                cls[0] = np.ones(3)
            A = [xp.asarray(c) for c in cls]

            def ref(p, w, root):
                t = DATA["pix", nside, p][0][: L + 1]
                out = []
                # fields i and i - j
                for c, j in zip(cls, [j for i in range(k) for j in range(i + 1)]):
                    c = c if lmax is None else c[: lmax + 1]
                    if ncorr is not None and j > ncorr:
                        c = c[:0]
                    n = min(len(c), len(t))
                    out.append(c[:n] * t[:n] ** 2)
                return out

            return (lambda: list(glass.discretized_cls(A, lmax=lmax, nside=nside, ncorr=ncorr))), ref

        kappa = g.normal(size=12 * nside**2)

        def kalm(w, root):
            import healpy

            if w == "none":
                return healpy.map2alm(kappa, lmax=L, pol=False)
            return healpy.map2alm(kappa, lmax=L, pol=False, use_pixel_weights=True, datapath=os.path.join(root, f"ref{w}"))

        if fn == "map2alm":
            a["needs"] = ["full"]
            A = xp.asarray(kappa)
            return (
                lambda: [hp.map2alm(A, lmax=lmax, pol=False, use_pixel_weights=True)],
                lambda p, w, root: [kalm(w, root)],
            )

        flags = [bool(a["flags"] & k) for k in (1, 2, 4)] if fn == "from" else [False, False, True]
        a["needs"] = ["pix", "full"] if flags[2] and a["disc"] else ["full"]

        def ref(p, w, root):
            import healpy

            ell = np.arange(L + 1.0)
            alm = kalm(w, root)
            zero = 0 * alm
            out = []
            with np.errstate(all="ignore"):
                psi = np.where(ell > 0, -2 / (ell * (ell + 1)), 0)
                alp = psi * np.sqrt(ell * (ell + 1))
                gam = np.where(ell > 0, -np.sqrt((ell - 1) * (ell + 2) / (ell * (ell + 1))), 0)
                if p is not None:
                    t, q = (x[: L + 1] for x in DATA["pix", nside, p])
                    gam = gam * (q / t)
            if flags[0]:
                out.append(healpy.alm2map(healpy.almxfl(alm, psi), nside, lmax=L, pol=False))
            if flags[1]:
                m = healpy.alm2map_spin([healpy.almxfl(alm, alp), zero], nside, 1, L)
                out.append(m[0] + 1j * m[1])
            if flags[2]:
                m = healpy.alm2map_spin([healpy.almxfl(alm, gam), zero], nside, 2, L)
                out += [m[0] + 1j * m[1]] if fn == "from" else [m[0], m[1]]
            return out

        if fn == "from":
            A = xp.asarray(kappa)
            kw = dict(zip(("potential", "deflection", "shear"), flags))
            return (lambda: list(glass.from_convergence(A, lmax, **kw, discretized=a["disc"]))), ref
        return (lambda: list(glass.shear_from_convergence(kappa, lmax, discretized=a["disc"]))), ref

    concretise = staticmethod(simcase.concretise)

    def shrinks(self, case):
        ts = case["tasks"]
        for k in range(len(ts)):
            if len(ts) > 1:
                yield {**case, "tasks": ts[:k] + ts[k + 1 :]}
            for ys in simcase.shrink_list(ts[k], least=1):
                yield {**case, "tasks": [*ts[:k], ys, *ts[k + 1 :]]}
        yield from simcase.simpler(case, (("start", "A"), ("net", "down"), ("policy", {"kind": "serial"})))


CHECK = C15()
