"""C10: composed behaviours of chain.qnt.  C15: declared forms (Forms.tla), histories of chain construction (Chains.tla)
and composed behaviours, replayed on the real function objects."""
import concurrent.futures as cf
import os
import vlib

INV = ["wellFormedAll", "composes", "chainRule", "pieceIsActive"]
WIT = ["wLong", "wNestedChain", "wTies", "wOneLink", "wEmptyLink", "wZeroWide"]
USE = {"C10": {"exact": 3, "kinks": 3, "mixed": 2, "long": 3}, "C15": {"exact": 2, "long": 2, "mixed": 2}}


def jobs(prop, tier):
    mult = 1 if tier == "quick" else 10
    return [("chain.qnt", p, p, 60, 60 if tier == "quick" else 250, vlib.seed() * 1000 + 100 * k + sum(map(ord, prop + p)) % 97)
            for p, n in USE[prop].items() for k in range(n * mult)]


def lines(tier):
    js = [("Forms", "Forms", {}, "forms")]
    js += [("Chains", c, {}, "chains") for c in ("Chains_a", "Chains_b", "Chains_c", "Chains_d")]
    num, depth = (40, 31) if tier == "quick" else (2000, 31)
    js += [("Chains", "Chains_sim", {"extra": ("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(vlib.seed()))},
            "chains")]
    return js


def run(prop, tier):
    d = vlib.fresh_dir("traces-" + prop)
    with cf.ThreadPoolExecutor(max_workers=10) as ex:
        fb = ex.submit(vlib.build)
        ft = ex.submit(vlib.quint_traces, jobs(prop, tier), d)
        ns = 8 if tier == "quick" else 150
        fc = ex.submit(vlib.quint_check, [("chain.qnt", p, 60, ns, vlib.seed() * 31 + 7, INV, WIT) for p in USE[prop]])
        fl = [(c, ex.submit(vlib.tlc_lines, m, cfg, **kw)) for m, cfg, kw, c in lines(tier)] if prop == "C15" else []
        binary, spec = fb.result(), fc.result()
        ft.result()
        fl = [(c, f.result()) for c, f in fl]
    reps = [vlib.harness(binary, "chain", [d], crash=prop)]
    tla = 0
    for c, (r, path) in fl:
        reps.append(vlib.harness(binary, c, [path], crash=prop))
        os.remove(path)
        tla += r["distinct"]
    rep = vlib.merge_reports(reps)
    cov = {"states": rep["states"] + tla, "transitions": rep["states"] - rep["traces"],
           "traces_validated_against_impl": rep["traces"],
           "comparisons_with_implementation": rep["compared"].get(prop, 0), "events": rep["events"],
           "specification_invariants": INV, "invariant_traces": spec["traces"], "witnesses": spec["witnesses"],
           "exhaustively_enumerated_states": tla, "worst_error_over_tolerance": rep["worst"].get(prop), "samples": rep["samples"]}
    if rep["compared"].get(prop, 0) == 0 and not rep["mismatches"]:
        raise vlib.ToolError("nothing was compared")
    vlib.finish(prop, tier, "model_checking", cov, rep["mismatches"], keep=d, assumptions=[
        "chain.qnt behaviours are generated by seeded simulation; Forms.tla and Chains.tla are enumerated exhaustively within their bounds",
        "constants do not flow from one link of a chain into the next"])


CHECKS = {p: run for p in USE}
