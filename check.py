#!/usr/bin/env python3
"""Driver: python3 check.py <PROPERTY> [--tier quick|thorough]   |  --setup  |  <PROPERTY> --replay FILE"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS, HARN = os.path.join(V, "specs"), os.path.join(V, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, V)

class Machinery(Exception):
    pass

def run_tlc(module, cfg, work, env=None, workers=8, timeout=600, extra=(), heap="3g"):
    """Runs TLC; returns dict(ok, states, distinct, out, deadlock, violated, error)"""
    md = tempfile.mkdtemp(prefix="tlc_", dir=work)
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", "-Xmx" + heap, "-Djava.io.tmpdir=" + md, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", md, "-workers", str(workers), "-config", cfg, *extra, module]
    try:
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise Machinery(f"TLC timed out after {timeout}s on {module} {cfg}")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    out = p.stdout
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return dict(rc=p.returncode, ok="Model checking completed. No error has been found" in out or ("-simulate" in extra and p.returncode == 0),
                states=gen, distinct=dist, out=out, deadlock="Error: Deadlock reached" in out,
                violated=re.findall(r"Error: Invariant (\S+) is violated", out))

def sources_key():
    h = hashlib.sha256()
    for base in ("include", "src", "scripts"):
        for f in sorted(glob.glob(os.path.join(REPO, base, "**", "*"), recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

CXX = ["g++", "-std=c++14", "-w", "-include", "cstdint", "-include", "sys/types.h", "-D_GLIBCXX_ASSERTIONS",
       "-I" + os.path.join(REPO, "include"), "-I/usr/include/eigen3", "-I" + HARN]

def build(job, work):
    """Compiles the job's C++ harness together with the /repo sources it names."""
    exe = os.path.join(work, job["name"])
    objs = []
    flags = CXX + job.get("cflags", ["-O1"])
    def one(a):
        src, obj = a
        return subprocess.run([*flags, "-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    srcs = [os.path.join(HARN, job["src"])] + [os.path.join(HARN, s) for s in job.get("more_src", [])] + [os.path.join(REPO, s) for s in job.get("repo_src", [])]
    todo = [(s, os.path.join(work, f"{job['name']}_{k}.o")) for k, s in enumerate(srcs)]
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, todo):
            if r.returncode:
                raise Machinery("harness does not compile:\n" + r.stdout[-3000:])
    r = subprocess.run([*flags, *[o for _, o in todo], "-o", exe, *job.get("libs", []), "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Machinery("harness does not link:\n" + r.stdout[-3000:])
    return [exe]

def generate(gen, work, tier, seed):
    """TLC prints behaviours of the specification as lines GEN:<text>; returns the path of the file with those texts."""
    path = os.path.join(work, "gen_" + gen["cfg"].replace(".cfg", "") + ".txt")
    extra = list(gen.get("extra", {}).get(tier, gen.get("extra", {}).get("quick", [])))
    if "-simulate" in extra:
        extra += ["-seed", str(seed)]
    r = run_tlc(gen["module"], gen["cfg"], work, workers=gen.get("workers", 4), extra=extra, env=gen.get("env", {}).get(tier))
    if not r["ok"]:
        raise Machinery("generation failed:\n" + r["out"][-3000:])
    lines = [l for l in re.findall(r'^"?GEN:(.*?)"?$', r["out"], re.M)]
    seen, uniq = set(), []
    for l in lines:
        l = l.replace('\\"', '"')
        if l not in seen:
            seen.add(l); uniq.append(l)
    cap = gen.get("cap", {}).get(tier)
    if cap and len(uniq) > cap:
        import random
        random.Random(seed).shuffle(uniq); uniq = uniq[:cap]
    if len(uniq) < gen.get("min", 1):
        raise Machinery(f"generation gave only {len(uniq)} behaviours")
    open(path, "w").write("\n".join(uniq) + "\n")
    return path, len(uniq), r

def run_harness(job, cmd, work, tier, seed, genfile):
    trace = os.path.join(work, job["name"] + ".ndjson")
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, TRACE_OUT=trace, VERIF_WORK=work, REPO=REPO,
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", ASAN_OPTIONS="detect_leaks=0:abort_on_error=1",
               LC_ALL="C.UTF-8", OMP_WAIT_POLICY="passive", GOMP_SPINCOUNT="0")
    if genfile:
        env["GEN_FILE"] = genfile
    open(trace, "w").close()
    scratch = os.path.join(work, job["name"] + "_scratch"); os.makedirs(scratch, exist_ok=True)
    to = job.get("timeout", {}).get(tier, 330 if tier == "quick" else 1500)
    try:
        p = subprocess.run([*cmd, *job.get("args", [])], env=env, cwd=scratch, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to, errors="replace", text=True)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        rc, out = "timeout", (ex.stdout or b"")[-2000:]
        out = out.decode(errors="replace") if isinstance(out, bytes) else out
    lines = open(trace, errors="replace").read().split("\n")
    if lines and lines[-1] != "":
        lines = lines[:-1]          # partially written event
    lines = [l for l in lines if l]
    if rc != 0:
        if rc == 97:
            raise Machinery("harness reports its own failure:\n" + out[-3000:])
        if not lines:
            lines = ['{"op":"begin","kind":"none"}']
        if not any('"op":"crash"' in l for l in lines[-2:]):
            lines.append(json.dumps(dict(op="crash", what=str(rc), tail=out[-600:])))
    open(trace, "w").write("\n".join(lines) + "\n")
    return trace, len(lines), rc, out

def failing_index(out):
    m = re.findall(r"^(?:/\\ )?i = (\d+)$", out, re.M)
    return int(m[-1]) if m else None

def validate(job, trace, work, tier):
    n = sum(1 for _ in open(trace))
    cfg = job.get("cfg", job["trace"] + ".cfg")
    env = {"TRACE_FILE": trace}
    r = run_tlc(job["trace"], cfg, work, env=env, workers=job.get("workers", 8), timeout=job.get("tlc_timeout", 600 if tier == "quick" else 3000), heap=job.get("heap", "4g"))
    if r["ok"]:
        if r["distinct"] != n:
            raise Machinery(f"{job['name']}: TLC visited {r['distinct']} states for {n} events (vacuous acceptance?)\n" + r["out"][-1500:])
        return None, r, n
    idx = failing_index(r["out"])
    if "StackOverflow" in r["out"] or "OutOfMemory" in r["out"]:
        raise Machinery("TLC ran out of resources:\n" + r["out"][-2000:])
    if idx is None or not (r["deadlock"] or r["violated"] or "The behavior up to this point" in r["out"]):
        raise Machinery("trace validation failed without a verdict:\n" + r["out"][-3000:])
    return idx, r, n

def scenario_of(trace, idx):
    ev = open(trace).read().split("\n")
    a = idx
    while a > 1 and '"op":"begin"' not in ev[a - 1]:
        a -= 1
    return [l for l in ev[a - 1: idx + 1] if l]

def conf_job(pid, job, work, tier, seed):
    res = dict(name=job["name"])
    genfile = None
    gens = 0
    res["gen_states"] = 0
    if job.get("gen"):
        parts = []
        for g in (job["gen"] if isinstance(job["gen"], list) else [job["gen"]]):
            path, n, r = generate(g, work, tier, seed)
            parts.append(open(path).read()); gens += n
            res["gen_states"] += r["distinct"] or r["states"]
        genfile = os.path.join(work, job["name"] + "_gen.txt")
        open(genfile, "w").write("".join(parts))
    if job["src"].endswith(".cpp"):
        cmd = build(job, work)
    else:
        cmd = ["/usr/bin/python3", os.path.join(HARN, job["src"])]
    trace, n, rc, out = run_harness(job, cmd, work, tier, seed, genfile)
    idx, r, n = validate(job, trace, work, tier)
    if n < job.get("min_events", 1) and idx is None:
        raise Machinery(f"{job['name']}: only {n} events")
    res.update(events=n, states=r["distinct"], generated=r["states"], model_behaviours=gens, trace=trace)
    ops = {}
    samples = []
    for k, l in enumerate(open(trace)):
        m = re.search(r'"op":"(\w+)"', l); o = m.group(1) if m else "?"
        ops[o] = ops.get(o, 0) + 1
        if ops[o] == 3 and len(l) < 1500:
            samples.append(json.loads(l))
    res["ops"] = ops; res["samples"] = samples[:4]
    res["scenarios"] = ops.get("begin", 0)
    for need in job.get("need_ops", []):
        if idx is None and not ops.get(need):
            raise Machinery(f"{job['name']}: no event of kind {need} was recorded")
    if idx is not None:
        sc = scenario_of(trace, idx)
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        rp = os.path.join(V, "replays", f"{pid}_{job['name']}_{hashlib.sha1(''.join(sc).encode()).hexdigest()[:8]}.ndjson")
        open(rp, "w").write("\n".join(sc) + "\n")
        # confirm on the scenario alone
        try:
            idx2, r2, _ = validate(job, rp, work, tier)
        except Machinery as e:
            idx2, r2 = -1, dict(out=str(e))
        if idx2 is None:
            raise Machinery(f"{job['name']}: scenario rejected in the full trace but accepted alone:\n" + r["out"][-1500:])
        res["violation"] = rp
        res["why"] = sc[-1][:1500]
        err = re.findall(r"^Error: (?!Deadlock|The behavior|The following).*$", r["out"], re.M)
        if err:
            res["why"] += "\n  TLC: " + " ".join(err)[:600]
    return res

def mc_job(job, work, tier):
    cfg = job["cfg"].get(tier, job["cfg"]["quick"]) if isinstance(job["cfg"], dict) else job["cfg"]
    r = run_tlc(job["module"], cfg, work, workers=job.get("workers", 8), timeout=600 if tier == "quick" else 5000, extra=job.get("extra", []))
    if not r["ok"]:
        raise Machinery(f"model {job['module']}/{cfg} fails on its own:\n" + r["out"][-4000:])
    if r["distinct"] < job.get("min_states", 1):
        raise Machinery(f"model {job['module']}/{cfg}: only {r['distinct']} states")
    return dict(name=job["module"] + "/" + cfg, states=r["distinct"], generated=r["states"])

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true"); ap.add_argument("--replay"); ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only"); ap.add_argument("--nomc", action="store_true")
    a = ap.parse_args()
    if a.setup:
        for t in ("java", "g++"):
            if not shutil.which(t):
                print("missing", t); return 2
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        print("setup ok"); return 0
    from registry import CHECKS
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = CHECKS[a.pid]; t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"verif_{a.pid}_")
    os.chmod(work, 0o755)
    try:
        if a.replay:
            job = next(j for j in chk["jobs"] if j["kind"] == "conf" and f"_{j['name']}_" in os.path.basename(a.replay))
            idx, r, n = validate(job, os.path.abspath(a.replay), work, a.tier)
            print("rejected at event" if idx is not None else "accepted", idx); print(r["out"][-2500:] if idx is not None else "")
            return 1 if idx is not None else 0
        jobs = [j for j in chk["jobs"] if not a.only or a.only in j.get("name", j.get("module", ""))]
        mcs = [] if a.nomc else [j for j in jobs if j["kind"] == "mc" and (a.tier == "thorough" or not j.get("thorough_only"))]
        confs = [j for j in jobs if j["kind"] == "conf" and (a.tier == "thorough" or not j.get("thorough_only"))]
        with cf.ThreadPoolExecutor(3) as ex:
            fm = [ex.submit(mc_job, j, work, a.tier) for j in mcs]
            fc = [ex.submit(conf_job, a.pid, j, work, a.tier, seed) for j in confs]
            errs = []
            def get(f):
                try:
                    return f.result()
                except Machinery as e:
                    errs.append(str(e)); return None
            rc = [x for x in map(get, fc) if x]; rm = [x for x in map(get, fm) if x]
        viol = [x for x in rc if x.get("violation")]
        known = [l.strip() for l in open(os.path.join(V, "KNOWN_FINDINGS.txt"))] if os.path.exists(os.path.join(V, "KNOWN_FINDINGS.txt")) else []
        known = [l for l in known if l.startswith(f"KNOWN-FINDING: property={a.pid} ")]
        ev = dict(property=a.pid, tier=a.tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), violations=len(viol),
                  coverage=dict(states=sum(x["states"] for x in rm) + sum(x["states"] + x["gen_states"] for x in rc),
                                transitions=sum(x["generated"] for x in rm) + sum(x["generated"] for x in rc),
                                traces_validated_against_impl=sum(x["scenarios"] for x in rc),
                                trace_events=sum(x["events"] for x in rc), model_behaviours_replayed=sum(x["model_behaviours"] for x in rc),
                                models=[{k: x[k] for k in ("name", "states", "generated")} for x in rm],
                                conformance=[{k: x[k] for k in ("name", "events", "scenarios", "ops", "model_behaviours")} for x in rc],
                                samples=[s for x in rc for s in x["samples"]][:8]),
                  assumptions=chk.get("assumptions", []))
        if not errs:
            if not viol and not a.only and not a.nomc and (ev["coverage"]["states"] == 0 or ev["coverage"]["traces_validated_against_impl"] == 0):
                raise Machinery("nothing was covered")
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", a.pid + ".json"), "w"), indent=1)
        for x in viol:
            print(f"VIOLATION property={a.pid} replay={x['violation']}")
            print("  rejected event: " + x["why"])
        for e in errs:
            print("ERROR: " + e, file=sys.stderr)
        if viol:
            return 1
        if errs:
            return 2
        for l in known:
            print(l)
        print(f"OK {a.pid} {a.tier}: {ev['coverage']['states']} states, {ev['coverage']['traces_validated_against_impl']} traces, {ev['coverage']['trace_events']} events, {ev['wall_s']} s")
        return 0
    except Machinery as e:
        print("ERROR: " + str(e), file=sys.stderr); return 2
    finally:
        if a.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
