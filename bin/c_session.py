"""C01-C09: behaviours of session.qnt replayed on the real library."""
import concurrent.futures as cf
import c_numbers
import vlib

INV = {
    "C01": ["recordingWellFormed", "recordingConsistent", "tapesArePrefixes"],
    "C02": ["derivedMeansIt", "recordingConsistent"],
    "C03": ["sweepIsDerivative", "scalarsAgreeWithSweep"],
    "C04": ["replayIdempotent", "recordingConsistent"],
    "C05": ["sweepIsDerivative"],
    "C06": ["duality"],
    "C07": ["duality", "sweepIsDerivative"],
    "C08": ["anfReproduces"],
    "C09": ["pieceIsActive"],
}
WIT = ["wSharedOperand", "wDupDep", "wDepIsIndep", "wDepFeedsOp", "wKink", "wNested", "wReplayed", "wTwoTapes"]
# profile -> (max steps, samples per job in the quick tier)
PROFILES = {"smooth": (30, 110), "exact": (30, 130), "mixed": (30, 110), "smoothbig": (44, 40),
            "exactbig": (46, 40), "kinks": (44, 40), "smoothwide": (26, 12), "exactwide": (28, 14)}
USE = {
    "C01": {"smooth": 2, "exact": 2, "mixed": 2, "smoothbig": 1, "exactbig": 1, "smoothwide": 1},
    "C02": {"smooth": 3, "exact": 1, "mixed": 2, "smoothbig": 1},
    "C03": {"smooth": 4, "exact": 1, "mixed": 2, "smoothbig": 1},
    "C04": {"smooth": 2, "exact": 1, "mixed": 2, "smoothbig": 1, "exactbig": 1, "kinks": 1, "exactwide": 1, "smoothwide": 1},
    "C05": {"smooth": 3, "exact": 1, "mixed": 1, "smoothbig": 1, "exactbig": 1, "smoothwide": 1},
    "C06": {"smooth": 4, "smoothbig": 3, "exact": 1, "smoothwide": 1},
    "C07": {"smooth": 4, "smoothbig": 4, "smoothwide": 3},
    "C08": {"smooth": 1, "exact": 2, "mixed": 2, "exactbig": 2, "kinks": 1, "exactwide": 2},
    "C09": {"smooth": 1, "exact": 2, "mixed": 1, "exactbig": 2, "kinks": 3, "exactwide": 2},
}


def jobs(prop, tier):
    out = []
    mult = 1 if tier == "quick" else 8
    for p, n in USE[prop].items():
        steps, samples = PROFILES[p]
        for k in range(n * mult):
            out.append(("session.qnt", p, p, steps, samples, vlib.seed() * 1000 + 100 * k + sum(map(ord, prop)) % 97))
    return out


def run(prop, tier, extra=None):
    d = vlib.fresh_dir("traces-" + prop)
    ns = 6 if tier == "quick" else 100
    with cf.ThreadPoolExecutor(max_workers=3) as ex:
        fb = ex.submit(vlib.build)
        ft = ex.submit(vlib.quint_traces, jobs(prop, tier), d)
        main = [p for p in USE[prop] if not p.endswith(("big", "wide"))]
        fc = ex.submit(vlib.quint_check,
                       [("session.qnt", p, PROFILES[p][0], ns, vlib.seed() * 31 + 7, INV[prop], WIT) for p in main])
        binary, spec = fb.result(), fc.result()
        ft.result()
    rep = vlib.harness(binary, "session", [d], crash=prop)
    states = rep["states"]
    mism = rep["mismatches"]
    cov = {"states": states, "transitions": states - rep["traces"], "traces_validated_against_impl": rep["traces"],
           "comparisons_with_implementation": rep["compared"].get(prop, 0), "events": rep["events"],
           "specification_invariants": INV[prop], "invariant_traces": spec["traces"], "witnesses": spec["witnesses"],
           "worst_error_over_tolerance": rep["worst"].get(prop), "samples": rep["samples"]}
    if rep["compared"].get(prop, 0) == 0 and not mism:
        raise vlib.ToolError("nothing was compared")
    if extra:
        m2, c2 = extra(binary, tier)
        mism = mism + m2
        cov.update(c2)
    vlib.finish(prop, tier, "model_checking", cov, mism, keep=d, assumptions=[
        "behaviours are generated by seeded simulation of the Quint specification, not exhaustively",
        "numbers are compared within 1e-10 of the largest magnitude in the session (f32: 2e-3)"])


CHECKS = {p: run for p in INV}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06"):
    CHECKS[_p] = lambda prop, tier, _x=c_numbers.extra(_p): run(prop, tier, _x)
