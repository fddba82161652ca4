"""Writes MANIFEST.json from the properties and the checks that exist."""

import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines()]

NOTE = {
    "C01": "Real glass, numpy, healpy code in real threads; every switch decided by the seeded scheduler at bytecode granularity. Trusts that extension modules are atomic between two bytecodes of glass.",
    "C02": "Faults at realistic bytecodes of glass and in user callbacks; none inside extension modules. Oracle is the same code in a fresh process.",
    "C03": "Same code in a fresh process is the oracle, so a constant wrong result is not seen here (C05-C08 look at values).",
    "C04": "Same stream alone in a fresh process is the oracle.",
    "C05": "Exact to rounding for every noise realisation, since the map is linear in the noise; sampled over spectra, numbers of fields, ncorr, nside 1-4.",
    "C06": "Reference model of the expected counts; the draws are under control of the simulator, extreme outcomes included.",
    "C07": "Reference model per sampler; the draws are under control of the simulator.",
    "C08": "Adversarial draws for a bounded time, then fair ones.",
    "C09": "Real JAX; the lock and thread scheduling are simulated. Trusts JAX random functions to be functions of the key.",
    "C10": "NumPy is the reference replica; array_api_strict and JAX are compared with it.",
    "C11": "Direct-sum reference model.",
    "C12": "Files are real files in a scratch directory; the seam is Python's open(). Crash keeps a prefix or a torn subset of the writes.",
    "C13": "Files are real FITS files written by fitsio in a scratch directory; faults are injected at the boundary between glass and fitsio.",
    "C14": "The undisturbed run of the same code is the reference; the direct evaluation per object where one exists.",
    "C15": "Real healpy reading synthetic data files in a scratch directory; no network.",
    "C16": "Evaluations of the transformation are counted and scripted, LAPACK calls fail by script; true achievement is recomputed independently, optima through their stationarity conditions.",
    "C17": "The import system is real, what is installed is decided below it at sys.meta_path; declared dependencies are loaded before. State of the process is compared item by item from a list.",
    "C18": "Reference is the same stream on inputs cut after the items asked for; memory is traced by tracemalloc, so memory of extension modules other than NumPy is not seen.",
    "C19": "Closed forms or independent reference samplers; distances are compared with rigorous bounds of probability 1e-13, so that deviations of a distribution function below about 0.01 are not seen.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if (ROOT / "dst/checks" / f"{i.lower()}.py").exists():
        checks.append(
            {
                "property": i,
                "quick_cmd": f"bin/check {i}",
                "thorough_cmd": f"VERIF_TIER=thorough bin/check {i}",
                "evidence_file": f"evidence/{i}.json",
                "technique": "deterministic simulation with fault injection, seeded search",
                "level": "exploration",
                "level_note": NOTE[i],
            }
        )
    elif i >= "C20":
        na.append(
            {
                "property": i,
                "reason": "A pure function of its inputs: no scheduling, time, I/O, randomness, "
                "history or fault can influence it, so simulation has nothing to decide "
                "(that such calls stay pure under concurrency, faults and across backends "
                "is C01, C02 and C10).",
            }
        )
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: seams are sys.monitoring, injected generators, callbacks, "
    "files and environment variables. Replay: bin/check ID --replay FILE.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks")
