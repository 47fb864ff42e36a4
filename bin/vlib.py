"""Shared machinery of the checks: building, generating behaviours, evidence, verdicts."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(ROOT, "work")
SPEC = os.path.join(ROOT, "spec")
T0 = time.time()


class ToolError(Exception):
    """The check itself could not be carried out (never a verdict about the code)."""


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def sh(cmd, timeout, cwd=None, env=None, check=True):
    e = dict(os.environ)
    e.update(env or {})
    # into a file: node loses the end of what it writes to a pipe when it exits
    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise ToolError("timeout after %ds: %s" % (timeout, " ".join(cmd)))
        f.seek(0)
        out = f.read().decode("utf-8", "replace")
    if check and p.returncode != 0:
        raise ToolError("exit %d: %s\n%s" % (p.returncode, " ".join(cmd), out[-4000:]))
    return p.returncode, out


def cargo_env():
    env = {"CARGO_NET_OFFLINE": "true"}
    return env


def build(crate="harness", features=()):
    """Build a harness crate against /repo's working tree."""
    env = cargo_env()
    target = os.path.join(ROOT, crate, "target")
    env["CARGO_TARGET_DIR"] = target
    cmd = ["cargo", "build", "--offline", "--quiet"]
    if features:
        cmd += ["--features", ",".join(features)]
    sh(cmd, 600, cwd=os.path.join(ROOT, crate), env=env)
    return os.path.join(target, "debug", "adv-" + crate)


def build_shim(crate):
    """A crate with the library compiled against shim/adv_std.rs (locks and atomics ask a scheduler).  When the library
    cannot be compiled that way, the ordinary build: real parallelism only.  Returns (binary, scheduled?)."""
    src = os.path.join(ROOT, "shim", "adv_std.rs")
    tag = hashlib.sha256(open(src, "rb").read() + open(os.path.join(ROOT, "bin", "rustc_wrap.sh"), "rb").read()).hexdigest()[:10]
    cwd = os.path.join(ROOT, crate)
    # with the last handles of an Arc, too, if the library allows it
    for variant, flags in (("arc", ["--cfg", "adv_arc"]), ("locks", [])):
        d = os.path.join(ROOT, crate, "target", "shim-%s-%s" % (variant, tag))
        lib = os.path.join(d, "libadv_std.rlib")
        os.makedirs(d, exist_ok=True)
        if not os.path.exists(lib):
            sh(["rustc", "--edition", "2021", "-O", "--cap-lints", "allow", "--crate-type", "rlib", "--crate-name", "adv_std", src,
                "-o", lib] + flags, 300)
        env = cargo_env()
        target = os.path.join(d, "target")
        env.update({"CARGO_TARGET_DIR": target, "RUSTC_WRAPPER": os.path.join(ROOT, "bin", "rustc_wrap.sh"), "ADV_STD": lib})
        rc, out = sh(["cargo", "build", "--offline", "--quiet"], 600, cwd=cwd, env=env, check=False)
        if rc == 0:
            return os.path.join(target, "debug", "adv-" + crate), True
    print("scheduled build failed, using real parallelism only:\n" + out[-600:])
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = os.path.join(ROOT, crate, "target", "plain")
    sh(["cargo", "build", "--offline", "--quiet"], 600, cwd=cwd, env=env)
    return os.path.join(ROOT, crate, "target", "plain", "debug", "adv-" + crate), False


def fresh_dir(*parts):
    d = os.path.join(WORK, *parts)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    return d


def quint_traces(jobs, outdir):
    """jobs: (spec file, main, label, max_steps, samples, seed).  Writes ITF files into outdir."""
    def one(j):
        f, main, label, steps, samples, sd = j
        sh(["quint", "run", os.path.join(SPEC, "quint", f), "--main=" + main, "--max-steps=%d" % steps,
            "--max-samples=%d" % samples, "--n-traces=%d" % samples, "--n-threads=1", "--seed=%d" % sd,
            "--verbosity=0", "--out-itf=" + os.path.join(outdir, "%s-%d-{seq}.itf.json" % (label, sd))], 600)
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(one, jobs))
    n = len([x for x in os.listdir(outdir) if x.endswith(".itf.json")])
    if n == 0:
        raise ToolError("no behaviours generated")
    return n


def quint_check(jobs):
    """jobs: (spec file, main, steps, samples, seed, invariants, witnesses).  The specification
    itself must satisfy the invariants; returns witness counts and the number of traces."""
    res = {"traces": 0, "witnesses": {}}

    def one(j):
        f, main, steps, samples, sd, inv, wit = j
        cmd = ["quint", "run", os.path.join(SPEC, "quint", f), "--main=" + main, "--max-steps=%d" % steps,
               "--max-samples=%d" % samples, "--n-threads=1", "--seed=%d" % sd, "--verbosity=2"]
        cmd += ["--invariants"] + inv
        if wit:
            cmd += ["--witnesses"] + wit
        # the trailing state dump is of no use
        _, out = sh(cmd, 800)
        if "[ok]" not in out:
            raise ToolError("specification check failed: %s\n%s" % (" ".join(cmd), out[-3000:]))
        w = {m.group(1): int(m.group(2)) for m in re.finditer(r"^(\w+) was witnessed in (\d+) trace", out, re.M)}
        return main, samples, w
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for main, n, w in ex.map(one, jobs):
            res["traces"] += n
            for k, v in w.items():
                res["witnesses"]["%s.%s" % (main, k)] = v
    return res


def tlc(module, cfg, env=None, workers=8, timeout=800, extra=(), xmx="6g"):
    """Run TLC in a scratch directory.  Returns a dict: ok, violated (name of the invariant), state (text of
    the last state of the counterexample), distinct, generated, out."""
    d = tempfile.mkdtemp(prefix="tlc-%s-" % cfg, dir=WORK)
    src = os.path.join(SPEC, "tla")
    for f in os.listdir(src):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(src, f), d)
    e = dict(env or {})
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s" % xmx
    try:
        rc, out = sh(["tlc", "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
                      *extra, "-config", cfg + ".cfg", module + ".tla"], timeout, cwd=d, env=e, check=False)
    finally:
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    res = {"ok": "Model checking completed. No error has been found" in out or
                 ("-simulate" in extra and rc == 0), "violated": None, "state": "", "out": out, "rc": rc}
    m = re.search(r"Error: (?:Invariant|Action property|Temporal property) (\S+) is violated", out)
    if m:
        res["violated"] = m.group(1)
        states = re.split(r"^State \d+:.*$", out, flags=re.M)
        res["state"] = states[-1].strip() if len(states) > 1 else out[m.end():m.end() + 2000]
    elif "Temporal properties were violated" in out:
        res["violated"] = "temporal"
    elif "Error: Deadlock reached" in out:
        res["violated"] = "deadlock"
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    res["generated"], res["distinct"] = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    shutil.rmtree(d, ignore_errors=True)
    return res


def tlc_spec(module, cfg, **kw):
    """The specification itself has to satisfy its properties."""
    r = tlc(module, cfg, **kw)
    if not r["ok"]:
        raise ToolError("specification check failed: %s %s\n%s" % (module, cfg, r["out"][-3000:]))
    return r


def tlc_lines(module, cfg, **kw):
    """Run TLC on a specification that prints its transitions (lines "@@..."); returns (result, path of the file)."""
    r = tlc(module, cfg, workers=1, **kw)
    if not r["ok"]:
        raise ToolError("specification check failed: %s %s\n%s" % (module, cfg, r["out"][-3000:]))
    path = os.path.join(WORK, "lines-%s-%d" % (cfg, os.getpid()))
    with open(path, "w") as f:
        f.writelines(l + "\n" for l in r["out"].splitlines() if l.startswith('"@@'))
    r["out"] = ""
    return r, path


def merge_reports(reps):
    t = {"mismatches": [], "compared": {}, "events": {}, "traces": 0, "states": 0, "worst": {}, "samples": []}
    for r in reps:
        t["mismatches"] += r["mismatches"]
        for k in ("compared", "events"):
            for a, b in r[k].items():
                t[k][a] = t[k].get(a, 0) + b
        t["traces"] += r["traces"]
        t["states"] += r["states"]
        t["worst"].update(r["worst"])
        t["samples"] += r["samples"][:1]
    return t


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def harness(binary, cmd, args, timeout=600, env=None, crash=None):
    out = os.path.join(WORK, "report-%s-%d.json" % (cmd, os.getpid()))
    if os.path.exists(out):
        os.remove(out)
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run([binary, cmd, out] + list(args), timeout=timeout, env=e, preexec_fn=limit_memory,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        rc, log = p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        raise ToolError("harness %s timed out" % cmd)
    if not os.path.exists(out):
        if rc in (-6, -11) and crash:
            # the code under test brought the process down (abort, stack overflow, out of memory limit)
            return {"mismatches": [{"property": crash, "trace": cmd, "step": 0, "what": "process ended by signal %d: %s"
                                    % (-rc, log[-600:])}], "compared": {}, "events": {}, "traces": 0, "states": 0,
                    "worst": {}, "samples": [], "crashed": True}
        raise ToolError("harness %s wrote no report (exit %d)\n%s" % (cmd, rc, log[-3000:]))
    with open(out) as f:
        rep = json.load(f)
    os.remove(out)
    return rep


def known_findings(prop):
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def finish(prop, tier, level, coverage, mismatches, keep=None, assumptions=None):
    """Write evidence, print the verdict, exit.  mismatches: [{property, trace, step, what}]."""
    mine = [m for m in mismatches if m["property"] == prop]
    known = known_findings(prop)
    new = []
    seen = set()
    for m in mine:
        hit = next((k for k in known if k[0].search(m["what"])), None)
        if hit:
            seen.add(hit[1])
        else:
            new.append(m)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed(), "level": level, "coverage": coverage,
          "assumptions": assumptions or [], "wall_s": round(time.time() - T0, 2), "violations": len(new)}
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in known:
        if k[1] in seen:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
    if new:
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (prop, seed()))
        src = None
        if keep:
            src = os.path.join(keep, new[0]["trace"])
            if os.path.exists(src):
                dst = os.path.join(d, prop + "-" + os.path.basename(src))
                shutil.copy(src, dst)
                src = dst
            else:
                src = None
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed(), "behaviour": src, "violations": new[:50],
                       "how": "python3 bin/check.py %s --tier %s with VERIF_SEED=%d" % (prop, tier, seed())}, f, indent=1)
            f.write("\n")
        for m in new[:5]:
            print("  %s step %s: %s" % (m["trace"], m["step"], m["what"][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    print("OK property=%s (%.1fs)" % (prop, time.time() - T0))
    sys.exit(0)


def spec_hash():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(SPEC)):
        for f in sorted(fs):
            h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:12]
