#!/usr/bin/env python3
"""Driver: generate scenarios with TLC, replay them on the real code, validate the recorded traces with TLC.

  check.py C12                run the check of a property (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py --replay FILE      re-run one recorded failing session
"""
import sys, os, json, subprocess, tempfile, shutil, time, glob, hashlib, re, threading
HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec"); BUILD = os.path.join(HERE, "build"); JAVA = os.path.join(HERE, "java")
JAR = "/opt/veriftools/tla/tla2tools.jar"
PY = "/opt/venv/bin/python"
NW = min(8, os.cpu_count() or 8)
sys.path.insert(0, HERE)

class Machinery(Exception): pass

def build():
    srcs = sorted(glob.glob(os.path.join(JAVA, "spafe", "*.java")))
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()
    stamp = os.path.join(BUILD, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == h: return
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        r = subprocess.run(["javac", "-nowarn", "-cp", JAR, "-d", tmp] + srcs, capture_output=True, text=True)
        if r.returncode: raise Machinery("javac: " + r.stderr)
        dst = os.path.join(BUILD, "spafe")
        if os.path.isdir(dst): shutil.rmtree(dst)
        os.rename(os.path.join(tmp, "spafe"), dst)
        open(stamp, "w").write(h)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def tlc(scratch, name, module, cfg, env, args=(), timeout=800, heap="10g"):
    """writes name.tla/name.cfg into scratch and runs TLC; returns its output"""
    with open(os.path.join(scratch, name + ".tla"), "w") as f: f.write(module)
    with open(os.path.join(scratch, name + ".cfg"), "w") as f: f.write(cfg)
    meta = tempfile.mkdtemp(dir=scratch)
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-Dtlc2.overrides.TLCOverrides=spafe.Overrides", "-DTLA-Library=" + SPEC,
           "-Djava.io.tmpdir=" + scratch, "-cp", BUILD + ":" + JAR, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-config", name + ".cfg"] + list(args) + [name + ".tla"]
    e = dict(os.environ); e.update(env)
    try:
        r = subprocess.run(cmd, cwd=scratch, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out: " + name)
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr

def excerpt(out):
    i = out.find("***Parse") if "***Parse" in out else out.find("Error:")
    return out[i:i + 2500] + ("\n...\n" + out[-1200:] if len(out) - i > 2500 else "") if i >= 0 else out[-3000:]

def counts(out):
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    if not m: return (0, 0)
    return tuple(int(x.replace(",", "")) for x in m[-1])

def generate(scratch, prop, g, seed, tier):
    """g: dict(module, prefix, num=None|int) -> list of sessions"""
    pre = g.get("prefix", prop); mod = g.get("module", prop)
    cases = os.path.join(scratch, "cases_%s_%s.ndjson" % (prop, pre))
    open(cases, "w").close()
    name = "MCgen_" + pre
    module = "---- MODULE %s ----\nEXTENDS %s, GenBase\n====\n" % (name, mod)
    cfg = "SPECIFICATION GSpec\nCONSTANTS\n  Plan <- %sPlan\n  Choice <- %sChoice\n  Session <- %sSession\nCHECK_DEADLOCK FALSE\n" % (pre, pre, pre)
    env = dict(CASES=cases, VERIF_SEED=str(seed), VERIF_TIER=tier)
    num = g.get("num")
    if num: args = ["-simulate", "num=%d" % num, "-depth", "100", "-seed", str(seed * 7919 + 13), "-workers", "1"]
    else: args = ["-workers", "4"]
    rc, out = tlc(scratch, name, module, cfg, env, args)
    if rc != 0 or "Error:" in out: raise Machinery("generation %s failed:\n%s" % (pre, excerpt(out)))
    seen, res = set(), []
    for l in open(cases):
        if l not in seen:
            seen.add(l); res.append(json.loads(l))
    if not num: res.sort(key=lambda s: json.dumps(s, sort_keys=True))
    return res, counts(out)

def record(scratch, sessions, tag):
    """replay on the real code, sharded over NW processes; returns list of recorded sessions in order"""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR=scratch, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    env.pop("PYTHONPATH", None)
    results = {}
    def shard(todo, t):
        n = 0
        while todo:
            cf = os.path.join(scratch, "rc_%s_%d_%d.in" % (tag, t, n)); of = cf[:-3] + ".out"
            with open(cf, "w") as f:
                for s in todo: f.write(json.dumps(s) + "\n")
            r = subprocess.run([PY, os.path.join(HERE, "recorder.py"), cf, of], env=env, cwd=scratch, capture_output=True, text=True)
            done = []
            if os.path.exists(of):
                for l in open(of):
                    try: done.append(json.loads(l))
                    except ValueError: break
            for d in done: results[d["id"]] = d
            todo = todo[len(done):]
            if r.returncode == 0 and not todo: break
            if todo:   # the process died in todo[0]
                if r.returncode > 0 and not done and n == 0 and "recorder.py" in r.stderr and "AssertionError" in r.stderr:
                    raise Machinery(r.stderr[-2000:])
                results[todo[0]["id"]] = {"id": todo[0]["id"], "crash": (r.returncode, r.stderr[-800:])}
                todo = todo[1:]
            n += 1
            if n > 20: break
    shards = [sessions[t::NW] for t in range(NW)]
    errs = []
    def go(t):
        try: shard(shards[t], t)
        except Exception as ex: errs.append(ex)
    th = [threading.Thread(target=go, args=(t,)) for t in range(NW) if shards[t]]
    for t in th: t.start()
    for t in th: t.join()
    if errs: raise errs[0]
    return [results[s["id"]] for s in sessions if s["id"] in results]

def validate(scratch, prop, recs, g, tag, tier):
    pre = g.get("prefix", prop); mod = g.get("module", prop)
    trace = os.path.join(scratch, "trace_%s.ndjson" % tag); outf = os.path.join(scratch, "verdict_%s.ndjson" % tag)
    with open(trace, "w") as f:
        for r in recs: f.write(json.dumps(r) + "\n")
    open(outf, "w").close()
    name = "MCtrace_" + pre
    module = "---- MODULE %s ----\nEXTENDS %s, Harness\n====\n" % (name, mod)
    cfg = "SPECIFICATION Spec\nCONSTANTS\n  Clauses <- %sClauses\nINVARIANT DesignOk\nVIEW View\nCHECK_DEADLOCK FALSE\n" % pre
    rc, out = tlc(scratch, name, module, cfg, dict(TRACE=trace, OUT=outf, VERIF_TIER=tier), ["-workers", str(NW)])
    if rc != 0 or "Error:" in out: raise Machinery("validation of %s failed:\n%s" % (tag, excerpt(out)))
    ver = {}
    for l in open(outf):
        v = json.loads(l); ver[v["id"]] = v
    miss = [r["id"] for r in recs if r["id"] not in ver]
    if miss: raise Machinery("no verdict for sessions %s" % miss[:5])
    return ver, counts(out)

def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)).get("findings", []) if os.path.exists(p) else []

def brief(s):
    t = json.dumps(s)
    return s if len(t) < 1500 else json.loads(json.dumps({k: v for k, v in s.items() if k != "calls"})) | {"calls": [c.get("fn") for c in s.get("calls", [])]}

def run(prop, tier, seed):
    from props import PROPS
    P = PROPS[prop]; t0 = time.time()
    build()
    scratch = tempfile.mkdtemp(prefix="spafe_%s_" % prop)
    viol, known, stats = [], [], dict(states=0, transitions=0, traces=0, clauses=0, skipped=0)
    samples = []
    try:
        extra = {}
        for gi, g in enumerate(P["gens"]):
            g = dict(g)
            if tier == "thorough" and "thorough" in g: g.update(g["thorough"])
            if g.get("only") and g["only"] != tier: continue
            if "mc" in g:      # exhaustive model checking of a design module
                r = model_check(scratch, g, seed, tier)
                stats["states"] += r["distinct"]; stats["transitions"] += r["generated"]
                extra.setdefault("models", []).append(dict(module=g["mc"], constants=g.get("constants", {}), refutes=g.get("refutes", ""), generated=r["generated"], distinct=r["distinct"]))
                continue
            sessions, gc = generate(scratch, prop, g, seed, tier)
            if g.get("cap"): sessions = sessions[:g["cap"]]
            for n, s in enumerate(sessions): s["id"] = "%s-%s-%d" % (prop, g.get("prefix", prop), n)
            if not sessions: raise Machinery("no session generated")
            byid = {s["id"]: s for s in sessions}
            recs = record(scratch, sessions, "%d" % gi)
            good = [r for r in recs if "calls" in r]
            for r in recs:
                if "missing" in r: stats["skipped"] += 1
                elif "timeout" in r: viol.append((byid[r["id"]], ["timeout"]))
                elif "crash" in r: viol.append((byid[r["id"]], ["crash %s" % (r["crash"],)]))
            if any("missing" in r for r in recs) and not g.get("optional"):
                for r in recs:
                    if "missing" in r: viol.append((byid[r["id"]], ["missing entry point " + r["missing"]])); break
            ver = {}
            # several TLC runs when the trace is big, so that the heap stays small
            size = 0; chunk = []; part = 0
            def flush():
                nonlocal chunk, size, part
                if chunk:
                    v, c = validate(scratch, prop, chunk, g, "%d_%d" % (gi, part), tier); ver.update(v); part += 1
                    stats["states"] += c[1]; stats["transitions"] += c[0]
                chunk, size = [], 0
            for r in good:
                chunk.append(r); size += len(json.dumps(r))
                if size > 150e6 or len(chunk) >= 4000: flush()
            flush()
            stats["states"] += gc[1]; stats["transitions"] += gc[0]; stats["traces"] += len(good)
            for r in good:
                v = ver[r["id"]]; stats["clauses"] += v["n"]
                if v["bad"]: viol.append((byid[r["id"]], [b["n"] + ("" if b["ok"] is False else " " + str(b["ok"])[:300]) for b in v["bad"]]))
            samples += [brief(byid[good[j]["id"]]) for j in range(0, len(good), max(1, len(good) // 2))][:2]
            extra.setdefault("generators", []).append(dict(prefix=g.get("prefix", prop), sessions=len(good), exhaustive=not g.get("num")))
        # known findings are identified by the exact session content
        kf = {f["key"]: f for f in known_findings() if f["property"] == prop}
        def key(s): return hashlib.sha256(json.dumps({k: v for k, v in s.items() if k != "id"}, sort_keys=True).encode()).hexdigest()[:16]
        rest = []
        for s, bad in viol:
            if key(s) in kf: known.append(kf[key(s)])
            else: rest.append((s, bad))
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(states=stats["states"], transitions=stats["transitions"], traces_validated_against_impl=stats["traces"],
                                clauses_evaluated=stats["clauses"], sessions_skipped_missing_helper=stats["skipped"], samples=samples[:6], **extra),
                  assumptions=P.get("assumptions", []) + ["IEEE-754 double evaluation of the specification by java/spafe/FltOps.java", "TLC 1.8.0"],
                  wall_s=round(time.time() - t0, 2), violations=len(rest))
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for f in known: print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        if rest:
            for n, (s, bad) in enumerate(rest[:5]):
                path = os.path.join(HERE, "evidence", "replay", "%s_%d.json" % (prop, n))
                with open(path, "w") as f: json.dump(dict(property=prop, session=s, failed=bad), f, indent=1)
                print("  failed: %s  %s" % (", ".join(bad)[:300], json.dumps(brief(s))[:600]))
            print("%d of %d sessions violate the property" % (len(rest), stats["traces"]))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.join(HERE, "evidence", "replay", "%s_0.json" % prop)))
            return 1
        print("OK property=%s tier=%s sessions=%d clauses=%d states=%d wall=%.1fs" % (prop, tier, stats["traces"], stats["clauses"], stats["states"], time.time() - t0))
        return 0
    finally:
        if os.environ.get("KEEP"): print("kept", scratch)
        else: shutil.rmtree(scratch, ignore_errors=True)

def model_check(scratch, g, seed, tier):
    name = g["mc"]
    consts = "".join("  %s = %s\n" % kv for kv in sorted(g.get("constants", {}).items()))
    cfg = "SPECIFICATION %s\n" % g.get("spec", "Spec") + ("CONSTANTS\n" + consts if consts else "") + \
          "".join("INVARIANT %s\n" % i for i in g.get("invariants", [])) + "".join("PROPERTY %s\n" % i for i in g.get("properties", [])) + "CHECK_DEADLOCK FALSE\n"
    rc, out = tlc(scratch, "MC_" + name, "---- MODULE MC_%s ----\nEXTENDS %s\n====\n" % (name, name), cfg, dict(VERIF_SEED=str(seed), VERIF_TIER=tier), ["-workers", "1" if g.get("refutes") else str(NW)])
    if g.get("refutes"):      # a faulty design, which the model must reject
        if "Invariant %s is violated" % g["refutes"] not in out: raise Machinery("%s %s: %s not refuted:\n%s" % (name, consts, g["refutes"], excerpt(out)))
    elif rc != 0 or "Error:" in out: raise Machinery("model checking of %s failed:\n%s" % (name, excerpt(out)))
    a, b = counts(out)
    return dict(generated=a, distinct=b)

def replay(path):
    from props import PROPS
    r = json.load(open(path)); prop = r["property"]; build()
    scratch = tempfile.mkdtemp(prefix="spafe_replay_")
    try:
        s = r["session"]; pre = s["id"].split("-")[1]
        g = [g for g in PROPS[prop]["gens"] if g.get("prefix", prop) == pre][0]
        rec = record(scratch, [s], "r")
        if "calls" not in rec[0]: print(rec[0]); return 1
        ver, _ = validate(scratch, prop, rec, g, "r", "quick")
        print(json.dumps(ver[s["id"]])[:3000])
        if ver[s["id"]]["bad"]:
            print("VIOLATION property=%s replay=%s" % (prop, path)); return 1
        print("session passes"); return 0
    finally: shutil.rmtree(scratch, ignore_errors=True)

def main():
    try:
        if sys.argv[1] == "--build": build(); return 0
        if sys.argv[1] == "--replay": return replay(sys.argv[2])
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv: tier = "thorough"
        if "--quick" in sys.argv: tier = "quick"
        return run(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1")))
    except Machinery as ex:
        print("MACHINERY ERROR: %s" % ex); return 2

if __name__ == "__main__":
    sys.exit(main())
