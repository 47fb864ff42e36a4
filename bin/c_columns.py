"""C17: every order of starts and ends of concurrent evaluations (Columns.tla) imposed on the real drivers; real parallelism with
noise for larger sizes and several callers."""
import concurrent.futures as cf
import json
import os
import subprocess
import vlib


def must_fail(cfg):
    """The mistakes the specification can express are mistakes."""
    r = vlib.tlc(cfg.split("_")[0] + "MC", cfg, workers=2, xmx="1g")
    if r["violated"] != "Independent":
        raise vlib.ToolError("specification check failed: %s should violate Independent\n%s" % (cfg, r["out"][-2000:]))


def run(prop, tier):
    quick = tier == "quick"
    sim = ("-simulate", "num=%d" % (150 if quick else 3000), "-depth", "90", "-seed", str(vlib.seed()))
    nd = "ColumnsNested_deep" if quick else "ColumnsNested_deeper"
    js = [("Columns_deep" if quick else "Columns_deeper", {"xmx": "8g"}), ("Columns_wide", {"extra": sim})]
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        fb = ex.submit(vlib.build_shim, "columns")
        fm = ex.submit(vlib.tlc_spec, "ColumnsMC", "Columns_model", workers=4)
        fn = ex.submit(vlib.tlc_spec, "ColumnsNestedMC", "ColumnsNested_model", workers=4)
        fx = [ex.submit(must_fail, c) for c in ("Columns_bad1", "Columns_bad2", "ColumnsNested_bad")]
        fl = [ex.submit(vlib.tlc_lines, "ColumnsMC", c, **kw) for c, kw in js] + [ex.submit(vlib.tlc_lines, "ColumnsNestedMC", nd)]
        binary, shim = fb.result()
        model, nest = fm.result(), fn.result()
        [f.result() for f in fx]
        fl = [f.result() for f in fl]
    out = os.path.join(vlib.WORK, "report-columns-%d.json" % os.getpid())
    secs, rounds = (120, 600) if quick else (3000, 20000)
    try:
        p = subprocess.run([binary, out, str(vlib.seed()), str(secs), str(rounds)] + [f for _, f in fl], timeout=3 * secs + 100,
                           preexec_fn=vlib.limit_memory, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired:
        raise vlib.ToolError("columns timed out")
    for _, f in fl:
        os.remove(f)
    if not os.path.exists(out):
        if p.returncode in (-6, -11):
            vlib.finish(prop, tier, "model_checking", {"states": model["distinct"]}, [
                {"property": prop, "trace": "columns", "step": 0, "what": "process ended by signal %d" % -p.returncode}])
        raise vlib.ToolError("columns wrote no report (exit %d)\n%s" % (p.returncode, p.stdout.decode("utf-8", "replace")[-2000:]))
    with open(out) as f:
        rep = json.load(f)
    os.remove(out)
    cov = {"states": model["distinct"] + nest["distinct"] + sum(r["distinct"] for r, _ in fl), "transitions": rep["states"],
           "traces_validated_against_impl": rep["traces"], "comparisons_with_implementation": rep["compared"].get(prop, 0),
           "drivers": rep["events"], "schedules": rep.get("schedules"), "locks_of_the_library_noisy": shim,
           "samples": [str(s)[:400] for s in rep["samples"]]}
    if not rep["compared"].get(prop) and not rep["mismatches"]:
        raise vlib.ToolError("nothing was compared")
    vlib.finish(prop, tier, "model_checking", cov, rep["mismatches"], assumptions=[
        "which direction a worker takes up inside an evaluation is up to the thread pool; nesting exhaustive up to 5 directions",
        "schedules order the starts and ends of evaluations; which worker takes which direction is up to the thread pool",
        "exhaustive up to 6 directions on 2 workers, 4 on 4; up to 257 directions with real parallelism and random delays"])


CHECKS = {"C17": run}
