"""C18, and the numeric part of C02, C03, C05 and C06: single calls of numbers.qnt replayed on the real scalars."""
import concurrent.futures as cf
import vlib

INV = ["trichotomy", "oneClass", "inverses", "derivatives", "rounding", "marksKept"]
WIT = ["wSpecial", "wNan", "wOverflow", "wDerivative", "wAgain", "wTwoZeros"]


def calls(prop, tier, samples=None):
    """Generate and replay; returns (mismatches, coverage)."""
    jobs, per = (8, samples or 60) if tier == "quick" else (32, samples or 400)
    d = vlib.fresh_dir("numbers-" + prop)
    base = vlib.seed() * 1000003 + sum(map(ord, prop)) * 1009
    with cf.ThreadPoolExecutor(max_workers=3) as ex:
        fb = ex.submit(vlib.build)
        ft = ex.submit(vlib.quint_traces, [("numbers.qnt", "numbers", "numbers", 80, per, base + 7919 * k) for k in range(jobs)], d)
        fc = ex.submit(vlib.quint_check, [("numbers.qnt", "numbers", 60, 40 if tier == "quick" else 400, base + 5, INV, WIT)])
        binary, spec = fb.result(), fc.result()
        ft.result()
    rep = vlib.harness(binary, "numbers", [d], crash=prop)
    if rep["compared"].get(prop, 0) == 0 and not rep["mismatches"]:
        raise vlib.ToolError("nothing was compared")
    return rep["mismatches"], {
        "single_calls": rep["states"], "single_call_comparisons": rep["compared"].get(prop, 0), "single_call_kinds": rep["events"],
        "single_call_invariants": INV, "single_call_witnesses": spec["witnesses"]}, rep, d


def c18(prop, tier):
    mism, cov, rep, d = calls(prop, tier, 150 if tier == "quick" else 1200)
    cov.update({"states": rep["states"], "transitions": rep["states"] - rep["traces"], "traces_validated_against_impl": rep["traces"],
                "comparisons_with_implementation": rep["compared"].get(prop, 0)})
    vlib.finish(prop, tier, "model_checking", cov, mism, keep=d, assumptions=[
        "calls are generated by seeded simulation of the Quint specification, not exhaustively",
        "a conversion to single precision is compared within one unit in the last place"])


def extra(prop):
    def f(_binary, tier):
        m, c, _, _ = calls(prop, tier)
        return m, c
    return f


CHECKS = {"C18": c18}
