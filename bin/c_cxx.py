"""C16: histories of Handles.tla (ownership in the C++ interface) replayed on the compiled C++ and C interfaces, under address and
undefined-behaviour sanitizers and allocation accounting, against the same computation on the Rust interface."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import vlib


def build():
    """driver.cpp and the C++ sources of /repo, linked with the library (feature ffi)."""
    cwd = os.path.join(vlib.ROOT, "cxx")
    env = vlib.cargo_env()
    target = os.path.join(cwd, "target")
    env["CARGO_TARGET_DIR"] = target
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        lib = ex.submit(vlib.sh, ["cargo", "build", "--offline", "--quiet"], 600, cwd, env)
        objdir = os.path.join(target, "obj-%d" % os.getpid())
        os.makedirs(objdir, exist_ok=True)
        srcs = [os.path.join(cwd, "driver.cpp")] + sorted(glob.glob("/repo/src/cxx/*.cpp"))
        san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

        def obj(src):
            o = os.path.join(objdir, os.path.basename(src) + ".o")
            vlib.sh(["clang++", "-std=c++14", "-g", "-O1", *san, "-I/repo/include", "-I/repo/src/cxx", "-c", src, "-o", o], 300)
            return o
        objs = list(ex.map(obj, srcs))
        lib.result()
    out = os.path.join(objdir, "replay")
    vlib.sh(["clang++", *san, *objs, os.path.join(target, "debug", "libadv_cxx.a"), "-lpthread", "-ldl", "-lm", "-o", out], 300)
    return out, objdir


def c16(prop, tier):
    sim = lambda n, d: {"extra": ("-simulate", "num=%d" % n, "-depth", str(d), "-seed", str(vlib.seed()))}
    js = [("Handles_ops", {}), ("Handles_ops2", {}), ("Handles_own", {}), ("Handles_sim", sim(150 if tier == "quick" else 8000, 61))]
    if tier != "quick":
        js += [("Handles_deep", {"timeout": 3600, "xmx": "12g"})]
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        fb = ex.submit(build)
        fl = [ex.submit(vlib.tlc_lines, "HandlesMC", c, **kw) for c, kw in js]
        binary, objdir = fb.result()
        fl = [f.result() for f in fl]
    d = vlib.fresh_dir("cxx")
    lines = os.path.join(d, "histories")
    with open(lines, "w") as f:
        for _, p in fl:
            shutil.copyfileobj(open(p), f)
            os.remove(p)
    shards = 8

    def shard(i):
        out, prog = os.path.join(d, "out%d" % i), os.path.join(d, "prog%d" % i)
        env = dict(os.environ)
        env.update({"ASAN_OPTIONS": "detect_leaks=0:hard_rss_limit_mb=8000:abort_on_error=0", "UBSAN_OPTIONS": "print_stacktrace=1"})
        try:
            p = subprocess.run([binary, lines, out, prog, str(i), str(shards)], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=500 if tier == "quick" else 7200)
            log, rc = p.stdout.decode("utf-8", "replace"), p.returncode
        except subprocess.TimeoutExpired:
            log, rc = "did not finish", 0
        if os.path.exists(out):
            return json.load(open(out)), None
        at = open(prog).read().split() if os.path.exists(prog) else []
        return None, (at, rc, log)
    with cf.ThreadPoolExecutor(max_workers=shards) as ex:
        res = list(ex.map(shard, range(shards)))
    shutil.rmtree(objdir, ignore_errors=True)
    mism, events, traces, steps = [], {}, 0, 0
    text = None
    for rep, crash in res:
        if rep:
            mism += rep["mismatches"]
            traces += rep["traces"]
            steps += rep["states"]
            for a, b in rep["events"].items():
                events[a] = events.get(a, 0) + b
        else:
            at, rc, log = crash
            if len(at) != 2:
                raise vlib.ToolError("replay did not start (exit %s)\n%s" % (rc, log[-2000:]))
            text = text or open(lines).read().split("\n")
            h = json.loads(json.loads(text[int(at[0])])[2:])["h"]
            m = re.search(r"(ERROR: AddressSanitizer.*|runtime error:.*|panicked at[^\n]*\n[^\n]*|did not finish)", log)
            traces += 1
            mism.append({"property": prop, "trace": ("C++: " if at[1] == "0" else "C: ") + "; ".join(
                "%s(%s%d %d %d k%d)" % (e["act"], e["op"] + " " if e["op"] else "", e["s"], e["a"], e["b"], e["k"]) for e in h),
                "step": int(at[0]), "what": (m.group(1) if m else "exit %s: %s" % (rc, log[-400:])).replace("\n", " ")})
    if not traces:
        raise vlib.ToolError("nothing was compared")
    cov = {"states": sum(r["distinct"] for r, _ in fl), "transitions": sum(r["generated"] for r, _ in fl),
           "traces_validated_against_impl": traces, "steps_replayed": steps, "events": events,
           "comparisons_with_implementation": sum(events.get(k, 0) for k in ("liveness", "value", "recording"))}
    vlib.finish(prop, tier, "model_checking", cov, mism, assumptions=[
        "histories are exhaustive up to five operations on two variables and one context storage; longer ones are random walks",
        "memory errors are observed through the address and undefined-behaviour sanitizers (C++ side) and overwriting of freed memory "
        "(library side); leaks by counting allocations",
        "independent variables of the C++ interface have the value zero; other values enter as constants"])


CHECKS = {"C16": c16}
