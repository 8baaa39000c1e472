#!/opt/vp/venv/bin/python
"""Decides one property: check.py ID [quick|thorough] [--np] [--n N] [--keep]

1. builds rumpy from /repo's working tree,
2. generates programs of public calls (from spec-side enumerations and seeded random choice),
3. executes them against the real library, recording a trace per program,
4. has TLC decide for every trace whether the specification explains it,
5. has TLC check the property's model-level theorems (spec/MC*.tla) exhaustively,
6. writes evidence/ID.json and reports.
"""
import sys, os, json, time, subprocess, shutil, random, re, hashlib, zlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VREPO", "/repo")
sys.path.insert(0, HERE)
PY = "/opt/vp/venv/bin/python"
NW = int(os.environ.get("VWORKERS", "8"))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class ToolError(Exception):
    pass

def build(outdir):
    """Build the extension from the working tree, always recompiling the crate itself."""
    env = dict(os.environ)
    sh = "set -a; [ -f /opt/vp/env.sh ] && . /opt/vp/env.sh; env -0"
    try:
        raw = subprocess.run(["bash", "-c", sh], capture_output=True, timeout=60).stdout
        for kv in raw.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                env[k.decode()] = v.decode()
    except Exception:
        pass
    env["CARGO_NET_OFFLINE"] = "true"
    target = os.environ.get("VTARGET", os.path.join(REPO, "target"))
    env["CARGO_TARGET_DIR"] = target
    fp = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(fp) and not os.environ.get("VNOCLEAN"):
        for d in os.listdir(fp):
            if re.match(r"rumpy-[0-9a-f]+$", d):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    r = subprocess.run(["cargo", "build", "--lib", "--no-default-features", "--offline"], cwd=REPO, env=env,
                       capture_output=True, text=True, timeout=800)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-4000:])
        raise ToolError("build failed")
    so = os.path.join(target, "debug", "librumpy.so")
    os.makedirs(outdir, exist_ok=True)
    shutil.copyfile(so, os.path.join(outdir, "rumpy.so"))

def run_worker(env, progs, start, out, stall):
    p = subprocess.Popen([PY, os.path.join(HERE, "execute.py"), progs, str(start), out], env=env,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
    return p

def execute(progs, rundir, backend="rp", stall=60):
    """Run all programs (list of dicts with ids) in NW processes; returns (traces, crashes)."""
    env = dict(os.environ)
    env["PYTHONPATH"] = rundir + ":" + HERE
    env["VBACKEND"] = backend
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["RAYON_NUM_THREADS"] = "2"
    env["RUST_BACKTRACE"] = "0"
    env["VSCRATCH"] = os.path.join(rundir, "scratch")
    os.makedirs(env["VSCRATCH"], exist_ok=True)
    jobs = []
    for w in range(NW):
        part = progs[w::NW]
        if not part:
            continue
        pf = os.path.join(rundir, "p%d.ndjson" % w)
        with open(pf, "w") as f:
            for p in part:
                f.write(json.dumps({"id": p["id"], "ev": p["ev"], "sz": p.get("sz", 0)}) + "\n")
        of = os.path.join(rundir, "o%d" % w)
        if os.path.exists(of):
            os.unlink(of)
        jobs.append(dict(w=w, part=part, pf=pf, of=of, start=0, crashes=0, proc=None, size=-1, t=time.time(), done=False))
    for j in jobs:
        j["proc"] = run_worker(env, j["pf"], 0, j["of"], stall)
    while not all(j["done"] for j in jobs):
        time.sleep(0.05)
        for j in jobs:
            if j["done"]:
                continue
            rc = j["proc"].poll()
            sz = os.path.getsize(j["of"]) if os.path.exists(j["of"]) else 0
            if rc is None:
                if sz != j["size"]:
                    j["size"], j["t"] = sz, time.time()
                    continue
                elif time.time() - j["t"] > stall:
                    j["proc"].kill()
                    j["proc"].wait()
                    rc = -9
                else:
                    continue
            if rc == 0:
                j["done"] = True
                continue
            # crashed: which program was running?
            k = None
            with open(j["of"], "a+") as f:
                f.seek(0)
                txt = f.read()
                if txt and not txt.endswith("\n"):
                    f.write("\n")
                bs = re.findall(r"^B (\d+)$", txt, re.M)
                if bs:
                    k = int(bs[-1])
                    f.write("C %d\n" % rc)
            if k is None:
                raise ToolError("executor failed to start (rc %s)" % rc)
            j["crashes"] += 1
            if k + 1 >= len(j["part"]) or j["crashes"] >= 25:
                j["done"] = True
                continue
            j["size"], j["t"] = -1, time.time()
            j["proc"] = run_worker(env, j["pf"], k + 1, j["of"], stall)
    traces, ncrash = [], 0
    for j in jobs:
        cur = None
        ncrash += j["crashes"]
        with open(j["of"]) as f:
            for line in f:
                if line.startswith("B "):
                    prog = j["part"][int(line[2:])]
                    cur = {"id": prog["id"], "ev": []}
                    traces.append(cur)
                elif line.startswith("E "):
                    try:
                        cur["ev"].append(json.loads(line[2:]))
                    except ValueError:
                        pass
                elif line.startswith("C "):
                    n = len(cur["ev"])
                    src = prog["ev"]
                    if n < len(src):
                        e = dict(src[n])
                        e.update(err="Crash", obs=[], n=cur["ev"][-1]["n"] if cur["ev"] else 0)
                        cur["ev"].append(e)
    return traces, ncrash

def tlc(module, cfg, env, metadir, out, workers="1", xmx="4g", extra=()):
    cmd = ["java", "-Xss64m", "-Xmx" + xmx, "-XX:+UseParallelGC" if workers != "1" else "-XX:+UseSerialGC",
           "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC", "-workers", workers, "-metadir", metadir,
           "-noGenerateSpecTE", "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.update(env)
    return subprocess.Popen(cmd, cwd=os.path.join(VERIF, "spec"), env=e, stdout=out,
                            stderr=subprocess.STDOUT)

def strip(e):
    return {k: e[k] for k in ("op", "a", "p", "err", "obs", "n", "ap") if k in e}

def validate(traces, rundir, timeout=700, cfg="Trace.cfg"):
    """TLC decides every trace.  Returns (mismatches, states, transitions, stats)."""
    total = sum(len(t["ev"]) for t in traces)
    # balance shards by encoded size
    sized = sorted(((len(json.dumps(t["ev"])) , k) for k, t in enumerate(traces)), reverse=True)
    shards = [[] for _ in range(min(NW, max(1, len(traces))))]
    load = [0] * len(shards)
    for sz, k in sized:
        i = load.index(min(load))
        shards[i].append(k)
        load[i] += sz + 200
    procs = []
    for i, sh in enumerate(shards):
        tf = os.path.join(rundir, "t%d.ndjson" % i)
        with open(tf, "w") as f:
            for k in sh:
                t = traces[k]
                f.write(json.dumps({"id": t["id"], "ev": [strip(e) for e in t["ev"]]}) + "\n")
        md = os.path.join(rundir, "md%d" % i)
        of = open(os.path.join(rundir, "tlc%d.out" % i), "w")
        cmd = ["java", "-Xss64m", "-Xmx3g", "-XX:+UseSerialGC", "-cp", CP, "tlc2.TLC", "-workers", "1",
               "-metadir", md, "-noGenerateSpecTE", "-checkpoint", "0", "-config", cfg, "Trace.tla"]
        e = dict(os.environ)
        e["TRACES"] = tf
        procs.append((subprocess.Popen(cmd, cwd=os.path.join(VERIF, "spec"), env=e, stdout=of, stderr=subprocess.STDOUT), of, sh))
    mism, states, trans = [], 0, 0
    deadline = time.time() + timeout
    failed = None
    for i, (p, of, sh) in enumerate(procs):
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            failed = "TLC timeout (shard %d)" % i
        of.close()
        out = open(os.path.join(rundir, "tlc%d.out" % i)).read()
        if not failed and "Model checking completed. No error has been found." not in out:
            k = out.find("Error:")
            failed = "TLC failed on shard %d:\n%s\n...\n%s" % (i, out[max(0, k - 300):k + 700], "\n".join(out.split("\n")[-12:]))
        for m in re.finditer(r'^"MISMATCH (.*)"$', out, re.M):
            mism.append(json.loads(json.loads('"' + m.group(1) + '"')))
        g = re.search(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        if g:
            trans += int(g.group(1)) - len(sh)
            states += int(g.group(2))
        shutil.rmtree(os.path.join(rundir, "md%d" % i), ignore_errors=True)
    if failed:
        for p, of, sh in procs:
            if p.poll() is None:
                p.kill()
        raise ToolError(failed)
    # every event of every accepted trace must have been consumed
    bad = {m["id"]: m["pos"] for m in mism}
    want = sum((bad[t["id"]] if t["id"] in bad else len(t["ev"])) + 1 for t in traces)
    # a rejected event adds one (terminal) state
    if states != want:
        raise ToolError("TLC visited %d states, expected %d" % (states, want))
    return mism, states, trans

def models(pid, tier, rundir):
    """Model-level checks of the specification: returns (states, transitions, names, programs);
    the programs are the behaviours TLC emitted while exploring, to be replayed into the library."""
    import models as MODELS
    S = T = 0
    names = []
    progs = []
    procs = []
    for k, (mod, cfg) in enumerate(MODELS.for_property(pid, tier)):
        cf = os.path.join(rundir, "%s_%d.cfg" % (mod, k))
        with open(cf, "w") as f:
            f.write(cfg)
        of = open(os.path.join(rundir, "mm%d.out" % k), "w+")
        procs.append((mod, cf, of, tlc(mod + ".tla", cf, {}, os.path.join(rundir, "mm%d" % k), of, workers="4")))
    for mod, cf, of, p in procs:
        try:
            p.wait(timeout=700)
        except subprocess.TimeoutExpired:
            p.kill()
            raise ToolError("model %s timed out" % mod)
        of.seek(0)
        out = of.read()
        of.close()
        if "No error has been found" not in out:
            raise ToolError("model %s: %s" % (mod, out[-3000:]))
        g = re.search(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        if g:
            T += int(g.group(1))
            S += int(g.group(2))
        name = mod + ("/" + re.search(r'Scenario = "(\w+)"', open(cf).read()).group(1) if "Scenario" in open(cf).read() else "")
        names.append(name)
        for i, m in enumerate(re.finditer(r'^"PROG (.*)"$', out, re.M)):
            progs.append({"id": "%s:%s:%d" % (pid, name.replace("/", "-"), i), "ev": json.loads(json.loads('"' + m.group(1) + '"'))})
            progs[-1]["sz"] = int(any(e["p"].get("sz") == 1 for e in progs[-1]["ev"]))
    return S, T, names, progs

def load_findings(pid):
    fn = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return []
    return [x for x in json.load(open(fn))["findings"] if x["property"] == pid]

def main():
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opts = {a.split("=")[0]: (a.split("=") + [""])[1] for a in sys.argv[1:] if a.startswith("--")}
    pid = args[0]
    if pid == "setup":
        d = os.path.join(VERIF, "build", "setup-%d" % os.getpid())
        build(d)
        shutil.rmtree(d, ignore_errors=True)
        print("setup done")
        return
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    backend = "np" if "--np" in opts else "rp"
    import registry
    conf = registry.CONF[pid]
    rundir = os.path.join(VERIF, "build", "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir)
    rc = 2
    try:
        rc = decide(pid, tier, seed, backend, conf, rundir, opts, t0)
    except ToolError as z:
        print("ERROR", z)
        rc = 2
    finally:
        if "--keep" not in opts:
            shutil.rmtree(rundir, ignore_errors=True)
    sys.exit(rc)

def decide(pid, tier, seed, backend, conf, rundir, opts, t0):
    import registry
    if backend == "rp":
        if "--so" in opts:
            shutil.copyfile(opts["--so"], os.path.join(rundir, "rumpy.so"))
        else:
            build(rundir)
    tb = time.time()
    progs, src = registry.programs(pid, tier, seed, int(opts["--n"]) if "--n" in opts else None)
    ms, mt, mnames = (0, 0, [])
    tm = time.time()
    if "--nomodel" not in opts and "--replay" not in opts:
        ms, mt, mnames, mprogs = models(pid, tier, rundir)
        progs += mprogs
        for p in mprogs:
            k = p["id"].split(":")[1]
            src[k] = src.get(k, 0) + 1
    tm = time.time() - tm
    if "--gen" in opts:
        progs = [p for p in progs if p["id"].split(":")[1] == opts["--gen"]]
    if "--replay" in opts:
        progs = [json.load(open(opts["--replay"]))["program"]]
        src = {"replay": 1}
    finds = load_findings(pid)
    if "--replay" not in opts:
        for k, f in enumerate(finds):
            for m, ev in enumerate(f["programs"]):
                progs.append({"id": "known-%d-%d" % (k, m), "ev": ev, "known": k})
    ids = {p["id"]: p for p in progs}
    assert len(ids) == len(progs)
    tg = time.time()
    traces, ncrash = execute(progs, rundir, backend)
    te = time.time()
    mism, states, trans = validate(traces, rundir)
    tv = time.time()
    byid = {t["id"]: t for t in traces}
    new = []
    hit = set()
    for m in mism:
        p = ids[m["id"]]
        if "known" in p:
            hit.add(p["known"])
        else:
            new.append(m)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, finds[k]["what"]))
    extra = registry.coverage_gap(pid, traces) if "--n" not in opts and "--replay" not in opts else None
    if extra:
        raise ToolError("vacuous run: %s" % extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    opcount = {}
    okcount = {}
    for t in traces:
        for e in t["ev"]:
            opcount[e["op"]] = opcount.get(e["op"], 0) + 1
            if not e["err"]:
                okcount[e["op"]] = okcount.get(e["op"], 0) + 1
    R = random.Random(seed)
    sample = [t["id"] for t in R.sample(traces, min(3, len(traces)))]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": conf["level"],
          "coverage": {"states": states + ms, "transitions": trans + mt, "traces_validated_against_impl": len(traces),
                       "calls_validated": sum(opcount.values()), "calls_by_operation": opcount,
                       "programs_by_source": src, "models_checked": mnames, "model_states": ms,
                       "process_crashes": ncrash,
                       "samples": [{"id": i, "events": [{k: e[k] for k in ("op", "a", "p", "err")} for e in byid[i]["ev"][:6]]} for i in sample]},
          "assumptions": conf.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if backend == "rp" and "--n" not in opts and "--replay" not in opts:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d programs, %d calls, %d states; %d mismatches; build %.1f gen %.1f exec %.1f tlc %.1f model %.1f" % (
        pid, tier, len(progs), sum(opcount.values()), states + ms, len(new), tb - t0, tg - tb - tm, te - tg, tv - te, tm))
    if "--stats" in opts:
        print(json.dumps({k: [v, okcount.get(k, 0)] for k, v in sorted(opcount.items())}))
    if new:
        rd = os.path.join(VERIF, "build", "replays")
        os.makedirs(rd, exist_ok=True)
        new.sort(key=lambda m: (len(json.dumps(ids[m["id"]]["ev"]))))
        shown = {}
        for m in new:
            sig = (m["op"] + ":" + next((str(x["p"]["f"]) for x in reversed(ids[m["id"]]["ev"][:m["pos"]]) if "f" in x["p"]), ""), m["why"])
            shown.setdefault(sig, []).append(m)
        first = None
        for sig, ms_ in sorted(shown.items(), key=lambda kv: -len(kv[1])):
            m = ms_[0]
            path = os.path.join(rd, "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9_.-]", "_", str(m["id"]))))
            with open(path, "w") as f:
                json.dump({"property": pid, "program": {"id": m["id"], "ev": ids[m["id"]]["ev"], "sz": ids[m["id"]].get("sz", 0)}, "mismatch": m,
                           "trace": byid[m["id"]]}, f)
            print("  mismatch x%d op=%s: %s  e.g. %s" % (len(ms_), sig[0], sig[1], path))
            if "--v" in opts:
                e = byid[m["id"]]["ev"][m["pos"] - 1]
                print("     ", json.dumps({k: e[k] for k in ("op", "a", "p", "err")})[:300])
                print("     ", json.dumps(m["exp"])[:700])
            first = first or path
        print("VIOLATION property=%s replay=%s" % (pid, first))
        return 1
    return 0

if __name__ == "__main__":
    main()
