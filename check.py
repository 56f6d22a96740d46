#!/usr/bin/env python3
"""check.py PROPERTY  (tier from VERIF_TIER or --tier, seed from VERIF_SEED)

1. builds the driver of the property's group against /repo's working tree,
2. model-checks the group's design-level specifications (spec/MC*.tla),
3. runs the driver, which records every call it makes into a trace,
4. has TLC validate the trace against the specification (spec/Tr*.tla),
5. writes evidence/<property>.json.
Exit 0: held on everything explored; 1: VIOLATION line(s); 2: the check itself failed."""
import sys, os, json, time, subprocess, re, shutil, resource, hashlib, threading

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
TLACP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CFG = json.load(open(os.path.join(HERE, "checks.json")))

def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)

def env_build():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = os.path.join(HERE, "target")
    e["RUSTC_WRAPPER"] = ""
    e["RUSTFLAGS"] = "-Awarnings"
    e["CARGO_TERM_COLOR"] = "never"
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "")
    return e

def build(bins):
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet"]
    for b in bins: cmd += ["--bin", b]
    p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env_build(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("harness build failed\n" + p.stdout[-4000:])

def tlc(module, cfg_text, work, workers, env=None, timeout=3000, xmx="10g", extra=()):
    """Runs TLC in its own directory; returns (rc, output)."""
    os.makedirs(work, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), work)
    with open(os.path.join(work, "M.cfg"), "w") as f: f.write(cfg_text)
    e = dict(os.environ); e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xss512m", "-Xmx" + xmx, "-XX:+UseParallelGC", "-cp", TLACP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(work, "states"),
           "-config", "M.cfg", *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        die("TLC timed out on " + module)
    shutil.rmtree(os.path.join(work, "states"), ignore_errors=True)
    return p.returncode, p.stdout

def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def run_models(models, work, results):
    """Design-level model checking: every listed module with its committed .cfg."""
    for m in models:
        cfg = open(os.path.join(SPEC, m + ".cfg")).read()
        t0 = time.time()
        rc, out = tlc(m.split(".")[0], cfg, os.path.join(work, m), 4)  # "Module.variant" has its own .cfg
        gen, dist = counts(out)
        ok = rc == 0 and "No error has been found" in out
        results.append({"model": m, "states": dist, "transitions": gen, "ok": ok,
                        "wall_s": round(time.time() - t0, 1), "out": out})

def scenarios(gen, work, seed):
    """Behaviours generated by TLC from a specification, to be replayed into the code."""
    m = gen["module"]
    cfg = open(os.path.join(SPEC, m + ".cfg")).read()
    extra = []
    if gen.get("simulate"):
        extra = ["-simulate", "num=%d" % gen["simulate"], "-depth", str(gen["depth"]), "-seed", str(seed)]
    rc, out = tlc(m, cfg, os.path.join(work, m), gen.get("workers", 1), extra=extra)
    if rc != 0: die("scenario generation failed for %s\n%s" % (m, out[-3000:]))
    path = os.path.join(work, "scenarios.txt")
    n = 0
    with open(path, "w") as f:
        # printed tuples may wrap over lines
        for t in re.findall(r'<<"S"(?:,\s*)([^"]*?)>>(?=\s*(?:<<"S"|[A-Z]|$))', out, re.S):
            nums = re.findall(r"-?\d+", t)
            f.write(" ".join(nums) + "\n"); n += 1
    return path, n, counts(out)

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CFG[pid]
    t0 = time.time()
    work = os.path.join(HERE, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev_path = os.path.join(HERE, "evidence", pid + ".json")
    if os.path.exists(ev_path): os.remove(ev_path)

    # design-level models run while the harness builds
    models = list(c.get("models", [])) + (list(c.get("models_thorough", [])) if tier == "thorough" else [])
    mres = []
    gen_res = {}
    def side():
        try:
            run_models(models, work, mres)
            for g in c.get("generate", []):
                g = dict(g)
                if tier == "thorough" and "simulate" in g: g["simulate"] *= 20
                gen_res[g["module"]] = scenarios(g, work, seed)
        except SystemExit:
            gen_res["__failed"] = True
    th = threading.Thread(target=side); th.start()
    build([c["bin"]])
    tb = time.time()
    th.join()
    if gen_res.get("__failed"): die("model run failed")
    for m in mres:
        if not m["ok"]:
            die("design model %s does not satisfy its properties\n%s" % (m["model"], m["out"][-3000:]))

    # drive the code
    trace = os.path.join(work, "trace.ndjson")
    extra = [v[0] for k, v in sorted(gen_res.items())]
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    exe = os.path.join(HERE, "target", "debug", c["bin"])
    try:
        p = subprocess.run([exe, trace, pid, tier, str(seed), *extra], preexec_fn=lim,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=800 if tier == "quick" else 7200,
                           env=dict(os.environ, RUST_MIN_STACK=str(256 << 20), RUST_BACKTRACE="0"))
    except subprocess.TimeoutExpired:
        die("driver did not finish")
    td = time.time()
    lines = open(trace).read().split("\n")
    lines = [x for x in lines if x]
    crashed = p.returncode not in (0, 3)
    if crashed:
        # keep complete lines only, then add the call in progress as a crash
        while lines and not lines[-1].endswith("}"): lines.pop()
        cur = open(trace + ".cur").read().split("\n")[0]
        if not cur: die("driver failed: %d %s" % (p.returncode, p.stderr[-2000:]))
        lines.append(cur + ',"res":"crash"}')
    if not lines: die("empty trace")

    # partition: distinct events; sessions stay whole
    sess = []
    for x in lines:
        if ',"cont":1' in x[:60]: sess[-1].append(x)
        else: sess.append([x])
    seen, uniq = set(), []
    for s in sess:
        h = hashlib.blake2b("\n".join(s).encode(), digest_size=16).digest()
        if h not in seen:
            seen.add(h); uniq.append(s)
    total = sum(len(s) for s in uniq)
    # order by rough cost so that chunks are balanced; deal round robin
    K = min(64, len(uniq))
    uniq.sort(key=lambda s: -sum(map(len, s)))
    buckets = [[] for _ in range(K)]
    for i, s in enumerate(uniq):
        r, q = i % K, i // K
        buckets[r if q % 2 == 0 else K - 1 - r].append(s)
    chunks, flat = [], []
    for b in buckets:
        b.reverse()
        start = len(flat) + 1
        for s in b: flat.extend(s)
        chunks.append([start, len(flat)])
    with open(trace, "w") as f: f.write("\n".join(flat) + "\n")
    cpath = os.path.join(work, "chunks.json")
    json.dump(chunks, open(cpath, "w"))

    cfgt = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nCONSTANT\n"
    cfgt += "  Accept <- %sAccept\n  Post <- %sPost\n  Reg0 = 0\n" % (c["spec"], c["spec"])
    rejects, tstates, ttrans = set(), 0, 0
    rc, out = tlc("Tr" + c["spec"], cfgt, os.path.join(work, "tr"), 8,
                  env={"TRACE": trace, "CHUNKS": cpath}, timeout=800 if tier == "quick" else 7200, xmx="14g")
    rejects |= {int(x) for x in re.findall(r'<<"REJECT", (\d+)>>', out)}
    ttrans, tstates = counts(out)
    if "No error has been found" not in out:
        # an observation the specification cannot even interpret: TLC stops in the state before it
        m = re.findall(r"/\\ l = (\d+)", out)
        if m and ("TLC threw an unexpected exception" in out or "evaluating" in out or "Attempted" in out) \
             and "OutOfMemory" not in out and "StackOverflow" not in out:
            rejects.add(int(m[-1]))
        elif not rejects:
            open(os.path.join(work, "tlc.out"), "w").write(out)
            die("TLC failed\n" + out[-3000:])
        complete = False
    else:
        complete = True
        if tstates != total + K:
            die("TLC validated %d of %d events" % (tstates - K, total))
    tt = time.time()
    open(os.path.join(work, "tlc.out"), "w").write(out)

    # known findings
    known = []
    kf = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(kf):
        for x in open(kf):
            x = x.strip()
            if x:
                x = json.loads(x)
                if x.get("status") == "known" and x["property"] == pid: known.append(x)
    def is_known(evj):
        for k in known:
            if all(evj.get(f) == v for f, v in k["match"].items()): return k
        return None
    bad, kn = [], {}
    for r in sorted(rejects):
        evj = json.loads(flat[r - 1])
        k = is_known(evj)
        if k: kn.setdefault(k["what"], 0); kn[k["what"]] += 1
        else: bad.append(r)
    for w in kn: print("KNOWN-FINDING: property=%s %s" % (pid, w))
    ops = {}
    for x in flat:
        o = re.match(r'\{"op":"([^"]*)"', x).group(1)
        ops[o] = ops.get(o, 0) + 1
    sample_idx = sorted({0, len(flat) // 2, len(flat) - 1})
    level = c.get("level", "model_checking")
    cov = {"states": tstates + sum(m["states"] for m in mres),
           "transitions": ttrans + sum(m["transitions"] for m in mres),
           "traces_validated_against_impl": len(uniq),
           "events_validated": total,
           "events_by_operation": ops,
           "calls_recorded": len(lines),
           "design_models": [{k: m[k] for k in ("model", "states", "transitions", "wall_s")} for m in mres],
           "generated_behaviours_replayed": sum(v[1] for k, v in gen_res.items()),
           "samples": [json.loads(flat[i]) for i in sample_idx if len(flat[i]) < 6000][:3] or [flat[0][:3000]],
           "rejected": len(rejects), "complete": complete}
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
               "assumptions": c.get("assumptions", []),
               "wall_s": round(time.time() - t0, 1), "violations": len(bad)},
              open(ev_path, "w"), indent=1)
    print("%s: %d events (%d calls, %d sessions), %d design models; build %.0fs driver %.0fs tlc %.0fs" %
          (pid, total, len(lines), len(uniq), len(mres), tb - t0, td - tb, tt - td))
    if bad:
        rdir = os.path.join(HERE, "work", "replay"); os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, pid + ".ndjson")
        with open(rp, "w") as f:
            for r in bad[:20]:
                # the whole session up to the rejected call
                j = r - 1
                while j > 0 and ',"cont":1' in flat[j][:60]: j -= 1
                for x in flat[j:r]: f.write(x + "\n")
        byop = {}
        for r in bad:
            o = json.loads(flat[r - 1])["op"]; byop[o] = byop.get(o, 0) + 1
        print("rejected:", byop, "first:", flat[bad[0] - 1][:600])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if p.returncode == 3: die("driver reported a hang that the specification accepted")
    sys.exit(0)

if __name__ == "__main__":
    try:
        main()
    except SystemExit: raise
    except BaseException as ex:
        import traceback; traceback.print_exc()
        die(repr(ex))
