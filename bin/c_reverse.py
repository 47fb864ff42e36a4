"""C11, C12: runs of reverse_sequence validated against ReverseTrace.tla."""
import concurrent.futures as cf
import json
import os
import random
import re
import vlib


def pairs(tier):
    rnd = random.Random(vlib.seed())
    if tier == "quick":
        ps = [(n, c) for n in range(0, 45) for c in range(0, 13)]
        ps += [(n, c) for n in (0, 1, 2, 3, 5, 9, 17, 40) for c in (14, 20, 45, 200, 10**6, 2**40, 2**64 - 1)]
        big = [(100, 2), (150, 3), (100, 4), (200, 5), (300, 7), (500, 12), (257, 16), (1000, 40), (300, 100), (400, 399),
               (400, 400), (400, 401), (64, 63), (64, 64), (64, 65), (256, 128), (1000, 1000), (1000, 1001), (2000, 30),
                (3000, 60), (4000, 9), (7000, 150), (12000, 40)]
        ps += big
        ps += [(rnd.randint(45, 400), rnd.randint(4, 60)) for _ in range(40)]
    else:
        ps = [(n, c) for n in range(0, 121) for c in range(0, 41)]
        ps += [(rnd.randint(120, 3000), rnd.randint(5, 300)) for _ in range(300)]
        ps += [(n, c) for n in (0, 1, 2, 3, 5, 9, 17, 40, 100) for c in (200, 10**6, 2**40, 2**64 - 1)]
    return ps


def split(path, k):
    """Split the traces into k files of about the same number of events."""
    lines = sorted(open(path), key=len, reverse=True)
    bins = [[] for _ in range(k)]
    size = [0] * k
    for ln in lines:
        i = size.index(min(size))
        bins[i].append(ln)
        size[i] += len(ln)
    out = []
    for i, b in enumerate(bins):
        if b:
            p = "%s.%d" % (path, i)
            with open(p, "w") as f:
                f.writelines(b)
            out.append(p)
    return out


def run(prop, tier):
    d = vlib.fresh_dir("reverse-" + prop)
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        fb = ex.submit(vlib.build)
        fs = [ex.submit(vlib.tlc_spec, m, m, workers=4) for m in ("CheckpointsLemma", "ReverseSequence", "BinomialReverse")]
        binary = fb.result()
        spec = [f.result() for f in fs]
    ps = pairs(tier)
    with open(os.path.join(d, "pairs"), "w") as f:
        f.write(" ".join("%d:%d" % p for p in ps))
    tr = os.path.join(d, "traces.ndjson")
    rep = vlib.harness(binary, "revseq", [tr, os.path.join(d, "pairs")], crash="C11")
    mism = rep["mismatches"]
    states, ntr = 0, 0
    if os.path.exists(tr) and os.path.getsize(tr):
        files = split(tr, 1 if tier == "quick" else 24)
        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            res = list(ex.map(lambda p: (p, vlib.tlc("ReverseTrace", "ReverseTrace_" + prop, env={"TRACES": p},
                                                     workers=8 if tier == "quick" else 2,
                                                     timeout=800 if tier == "quick" else 7200)), files))
        for p, r in res:
            states += r["distinct"]
            if r["ok"]:
                ntr += sum(1 for _ in open(p))
                continue
            if not r["violated"]:
                raise vlib.ToolError("TLC failed\n" + r["out"][-3000:])
            t = int(re.search(r"/\\ t = (\d+)", r["state"]).group(1))
            step = int(re.search(r"/\\ l = (\d+)", r["state"]).group(1))
            tr_ = json.loads(open(p).read().splitlines()[t - 1])
            ev = tr_["ev"]
            mism.append({"property": prop, "trace": "n=%d c=%s" % (tr_["n"], tr_["real"]), "step": step,
                         "what": "%s does not hold for %d steps with %s checkpoints, after %s; next %s; state %s" % (
                             r["violated"], tr_["n"], tr_["real"], ev[max(0, step - 4):step - 1], ev[step - 1:step],
                             " ".join(r["state"].split()))[:1500]})
    cov = {"states": states + sum(s["distinct"] for s in spec), "transitions": states, "traces_validated_against_impl": ntr,
           "specification_states": [s["distinct"] for s in spec], "pairs": len(ps), "refused_pairs": rep.get("refused"),
           "events": rep["events"], "largest": [max(p[0] for p in ps), max(p[1] for p in ps)]}
    vlib.finish(prop, tier, "model_checking", cov, mism, assumptions=[
        "the cost and order of reverse_sequence depend only on the number of steps and checkpoints",
        "pairs enumerated: see pairs; larger sizes are sampled"])


CHECKS = {"C11": run, "C12": run}
