"""C13: histories of Lifecycle.tla replayed.  C14: histories of concurrent programs, recorded from the real library under every
schedule of its lock and atomic operations, explained by RecordingTrace.tla."""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import vlib


def c13(prop, tier):
    sim = lambda n, d: {"extra": ("-simulate", "num=%d" % n, "-depth", str(d), "-seed", str(vlib.seed()))}
    k = 1 if tier == "quick" else 20
    js = [("Lifecycle_a", {}), ("Lifecycle_b", {}), ("Lifecycle_c", {}), ("Lifecycle_sim", sim(20 * k, 61)),
          ("Lifecycle_many", sim(5 * k, 121))]
    if tier != "quick":
        js += [("Lifecycle_deep", {"timeout": 7200})]
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        fb = ex.submit(vlib.build)
        fl = [ex.submit(vlib.tlc_lines, "Lifecycle", c, **kw) for c, kw in js]
        binary = fb.result()
        fl = [f.result() for f in fl]
    rep = vlib.harness(binary, "lifecycle", [p for _, p in fl], crash=prop)
    for _, p in fl:
        os.remove(p)
    cov = {"states": sum(r["distinct"] for r, _ in fl), "transitions": rep["traces"], "traces_validated_against_impl": rep["traces"],
           "steps_replayed": rep["states"], "comparisons_with_implementation": rep["compared"].get(prop, 0),
           "events": rep["events"], "samples": rep["samples"]}
    if not rep["traces"]:
        raise vlib.ToolError("nothing was compared")
    vlib.finish(prop, tier, "model_checking", cov, rep["mismatches"], assumptions=[
        "histories are exhaustive up to 6 operations on 2 contexts, 5 on 3, 8 with one variable; longer ones are random walks"])


def describe(tr):
    out = []
    for e, k in tr["evs"]:
        op = tr["ops"][k - 1]
        args = " ".join("%s=%s" % (a, op[a]) for a in ("c", "x", "y", "v", "val") if a in op)
        if e == 0:
            out.append("T%d:%s(%s)" % (op["t"], op["k"], args))
        else:
            r = op["res"]
            out.append("T%d:%s->%s" % (op["t"], op["k"], r["rec"] if op["k"] in ("tape", "vals", "ops", "indeps", "deps") else
                                       (r["n"] if r["ok"] else "refused/none")))
    return "; ".join(out)


def explain(path, tier):
    r = vlib.tlc("RecordingTrace", "RecordingTrace", env={"TRACES": path}, workers=4, xmx="4g",
                 timeout=800 if tier == "quick" else 7200)
    if not r["ok"]:
        raise vlib.ToolError("TLC failed\n" + r["out"][-3000:])
    done = set(int(m) for m in re.findall(r"@@done (\d+)", r["out"]))
    return r, done


def c14(prop, tier):
    d = vlib.fresh_dir("conc")
    shards = 8
    bound, cap, pct, nrand, par = (2, 700, 200, 56, 12) if tier == "quick" else (3, 30000, 10000, 600, 300)
    models = ["RecordingMC_record", "RecordingMC_mix", "RecordingMC_life"]
    if tier != "quick":
        models += ["RecordingMC_mix3", "RecordingMC_life3"]
    with cf.ThreadPoolExecutor(max_workers=3) as ex:
        fb = ex.submit(vlib.build_shim, "sched")
        fm = [ex.submit(vlib.tlc_spec, "RecordingMC", m, workers=4, timeout=800 if tier == "quick" else 7200) for m in models]
        binary, scheduled = fb.result()
        models = [f.result() for f in fm]
    if not scheduled:
        par *= 10

    def shard(k):
        o, t = os.path.join(d, "o%d" % k), os.path.join(d, "t%d" % k)
        try:
            p = subprocess.run([binary, o, t, str(vlib.seed()), str(k), str(shards), str(bound), str(cap), str(pct), str(nrand),
                                str(par)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=vlib.limit_memory,
                               timeout=300 if tier == "quick" else 7200)
        except subprocess.TimeoutExpired:
            return None, t, "the library did not finish (shard %d)" % k
        if not os.path.exists(o):
            return None, t, "process ended with %d: %s" % (p.returncode, p.stdout.decode("utf-8", "replace")[-500:])
        return json.load(open(o)), t, None
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(shard, range(shards)))
    mism = []
    execs = hists = states = 0
    scen = []
    for o, t, err in res:
        if err:
            mism.append({"property": prop, "trace": os.path.basename(t), "step": 0, "what": err})
            continue
        execs += o["executions"]
        scen += o["scenarios"]
        for s in o["stuck"]:
            mism.append({"property": prop, "trace": s["name"], "step": len(s["schedule"]),
                         "what": "%s; threads %s; schedule %s" % (s["what"], s["threads"], s["schedule"])})
    files = [t for o, t, err in res if o and os.path.getsize(t)]
    if tier != "quick":
        files = split_lines(files, 4000)
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        for path, (r, done) in zip(files, ex.map(lambda p: explain(p, tier), files)):
            states += r["distinct"]
            lines = open(path).read().splitlines()
            hists += len(done)
            for k in range(1, len(lines) + 1):
                if k not in done and len(mism) < 50:
                    tr = json.loads(lines[k - 1])
                    mism.append({"property": prop, "trace": tr["name"], "step": len(tr["evs"]),
                                 "what": "no order of atomic steps explains: " + describe(tr)[:3000]})
    cov = {"states": states + sum(m["distinct"] for m in models), "transitions": states,
           "model_states": [m["distinct"] for m in models], "executions": execs, "traces_validated_against_impl": hists,
           "scheduled": scheduled, "preemption_bound": bound, "scenarios": scen}
    if not hists and not mism:
        raise vlib.ToolError("nothing was compared")
    vlib.finish(prop, tier, "model_checking", cov, mism, assumptions=[
        "sequentially consistent interleavings of lock and atomic operations; preemptions bounded, the rest random (PCT) and with real parallelism",
        "programs of 2-4 threads with up to 6 operations each"])


def split_lines(files, n):
    out = []
    for f in files:
        lines = open(f).read().splitlines(True)
        for k in range(0, len(lines), n):
            p = "%s.%d" % (f, k)
            with open(p, "w") as g:
                g.writelines(lines[k:k + n])
            out.append(p)
        os.remove(f)
    return out


CHECKS = {"C13": c13, "C14": c14}
