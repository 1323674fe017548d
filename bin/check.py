#!/usr/bin/env python3
"""check.py <property> : build from /repo's working tree, search, report, write evidence."""
import sys, os, json, hashlib, subprocess, time, struct, shutil, re
from concurrent.futures import ThreadPoolExecutor
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import config
from config import VERIF, REPO, GROUPS, PROPS
NW = int(os.environ.get("VERIF_WORKERS", "0")) or max(1, min(8, os.cpu_count() or 1))

def die(msg, code=2):
    print("CHECK-ERROR: " + msg, file=sys.stderr); sys.exit(code)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()

def ensure_config_header(bdir):
    """Our own ristra-config.h, from the repository's template."""
    out = os.path.join(bdir, "gen", "ristra"); os.makedirs(out, exist_ok=True)
    tpl = os.path.join(REPO, "ristra", "ristra-config.h.in")
    if not os.path.exists(tpl): return
    on = {"RISTRA_DOUBLE_PRECISION": "", "RISTRA_TEST_TOLERANCE": "1.0e-14", "RISTRA_ENABLE_PYTHON": "", "RISTRA_ENABLE_LUA": "",
          "RISTRA_ENABLE_EXCEPTIONS": "", "ENABLE_PYTHON": "", "ENABLE_LUA": "", "ENABLE_EXCEPTIONS": "", "DOUBLE_PRECISION": "", "TEST_TOLERANCE": "1.0e-14", "RISTRA_DBC_REQUIRE": ""}
    text = open(tpl).read()
    def dfn(m):
        name, rest = m.group(1), m.group(2)
        if name in on:
            return "#define %s%s" % (name, re.sub(r"[@$]\{?(\w+)\}?@?", lambda k: on.get(k.group(1), ""), rest))
        return "/* #undef %s */" % name
    text = re.sub(r"#cmakedefine\s+(\w+)([^\n]*)", dfn, text)
    text = re.sub(r"@(\w+)@", lambda k: on.get(k.group(1), ""), text)
    text = re.sub(r"\$\{(\w+)\}", lambda k: on.get(k.group(1), ""), text)
    p = os.path.join(out, "ristra-config.h")
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)

def compile_one(job):
    srcf, obj, cmd = job
    dep = obj + ".d"; st = obj + ".hash"
    def digest():
        deps = [srcf]
        if os.path.exists(dep):
            d = open(dep).read().replace("\\\n", " ").split(":", 1)[-1].split()
            deps += d
        parts = [" ".join(cmd)]
        for d in sorted(set(deps)):
            if d.startswith("/usr/"): continue
            try: parts.append(d); parts.append(open(d, "rb").read())
            except OSError: parts.append("missing")
        return sha(*parts)
    if os.path.exists(obj) and os.path.exists(st) and os.path.exists(dep) and open(st).read() == digest():
        return None
    r = subprocess.run(cmd + ["-MMD", "-MF", dep, "-c", srcf, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode: return "%s\n%s" % (" ".join(cmd), r.stdout[-6000:])
    open(st, "w").write(digest())
    return None

def build(group):
    g = GROUPS[group]; bdir = os.path.join(VERIF, "build", group); os.makedirs(bdir, exist_ok=True)
    ensure_config_header(bdir)
    inc = ["-I" + os.path.join(bdir, "gen"), "-I" + os.path.join(bdir, "gen", "ristra"), "-I" + REPO, "-I" + os.path.join(REPO, "ristra"), "-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(VERIF, "harness")] + g.get("inc", [])
    jobs = []
    def add(f, flags, tag):
        obj = os.path.join(bdir, tag + "_" + os.path.basename(f).replace(".", "_") + ".o")
        jobs.append((f, obj, ["g++"] + flags + inc))
    for f in g.get("instr", []): add(f, g.get("instr_flags", config.INSTR), "i")
    for f in g.get("repo_instr", []): add(os.path.join(REPO, f), g.get("repo_instr_flags", g.get("instr_flags", config.INSTR)), "r")
    for f in g.get("plain", []): add(f, g.get("plain_flags", config.PLAIN), "p")
    add(os.path.join(VERIF, "sim", "sim.cc"), config.SIMF, "s")
    with ThreadPoolExecutor(NW) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs: die("build of the harness against %s failed:\n%s" % (REPO, "\n".join(errs)))
    exe = os.path.join(bdir, group); objs = [j[1] for j in jobs]
    key = sha(*[open(o + ".hash").read() for o in objs], " ".join(g["link"]))
    if not (os.path.exists(exe) and os.path.exists(exe + ".hash") and open(exe + ".hash").read() == key):
        r = subprocess.run(["g++", "-o", exe] + objs + g["link"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode: die("link failed:\n" + r.stdout[-4000:])
        open(exe + ".hash", "w").write(key)
    return exe

def read_hashes(path):
    """[(hash, nontrivial, [states])] in run order"""
    out = []; d = open(path, "rb").read(); i = 0
    while i + 16 <= len(d):
        h, fl = struct.unpack_from("<QQ", d, i); i += 16; n = fl >> 8
        if i + 8 * n > len(d): break
        st = struct.unpack_from("<%dQ" % n, d, i); i += 8 * n
        out.append((h, fl & 1, st))
    return out

def known_findings(prop):
    f = os.path.join(VERIF, "known_findings.jsonl"); out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"): continue
            k = json.loads(l)
            if k["property"] == prop: out.append(k)
    return out

def tail(f, n=100000):
    with open(f, "rb") as h:
        h.seek(0, 2); h.seek(max(0, h.tell() - n)); return h.read().decode("utf-8", "replace")

def main():
    if len(sys.argv) < 2: die("usage: check.py <property> [--build-only]")
    prop = sys.argv[1]
    if prop == "--self-test":
        for t in ("g++ --version", "python3 --version"):
            if subprocess.run(t.split(), stdout=subprocess.DEVNULL).returncode: die("missing tool: " + t)
        return 0
    if prop not in PROPS: die("unknown property " + prop)
    P = PROPS[prop]; t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    if "--thorough" in sys.argv: tier = "thorough"
    exe = build(P["group"]); tb = time.time()
    if "--build-only" in sys.argv: return 0
    runs = int(os.environ.get("VERIF_RUNS", "0")) or P[tier]
    maxs = float(P.get("max_s", 200 if tier == "quick" else 3000))
    work = os.path.join(VERIF, "build", "work_%s_%d" % (prop, os.getpid())); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    env = dict(os.environ); env.update(P.get("env", {})); env["SIM_SCRATCH"] = work
    kf = known_findings(prop); kargs = []
    for k in kf: kargs += ["--known", k["class"]]
    procs = []
    for w in range(NW):
        n = (runs - w + NW - 1) // NW
        cmd = [exe, "--property", prop, "--seed", str(seed), "--first", str(w), "--stride", str(NW), "--runs", str(n), "--max-seconds", str(maxs),
               "--out", "%s/out%d.json" % (work, w), "--hashes", "%s/h%d" % (work, w), "--replay-out", "%s/replay%d.json" % (work, w), "--min-seconds", "45"] + kargs
        procs.append(subprocess.Popen(cmd, stdout=open("%s/log%d" % (work, w), "wb"), stderr=subprocess.STDOUT, env=env, cwd=work))   # a file, not a pipe: a chatty library must not block the run
    # the first violation ends the search (its worker minimises it first)
    outs = [None] * NW
    viol_seen = None
    while any(o is None for o in outs):
        for i, p in enumerate(procs):
            if outs[i] is None and p.poll() is not None:
                outs[i] = (p.returncode, tail("%s/log%d" % (work, i)))
                if p.returncode == 1: viol_seen = time.time()
        if viol_seen and time.time() - viol_seen > 2:
            for i, p in enumerate(procs):
                if outs[i] is None: p.kill(); p.wait(); outs[i] = (-9, "")
        time.sleep(0.02)
    bad = [(i, o) for i, o in enumerate(outs) if o[0] not in (0, 1, -9)]
    if bad and not viol_seen:
        shutil.rmtree(work, ignore_errors=True)
        die("worker %d ended with %s: %s" % (bad[0][0], bad[0][1][0], bad[0][1][1][-3000:]), 3)
    res = [(i, json.load(open("%s/out%d.json" % (work, i)))) for i, o in enumerate(outs) if o[0] in (0, 1)]
    tot = dict(runs=0, nontrivial=0, steps=0, switches=0, simtime_ns=0, det_checked=0, known_hits=0); ctr = {}; samples = []; timed = False; kmsg = {}
    for i, r in res:
        for k in tot: tot[k] += r[k]
        timed |= r["timed_out"]; kmsg.update(r["known"])
        for k, (n, m) in r["counters"].items(): c = ctr.setdefault(k, [0, 0]); c[0] += n; c[1] += m
        samples += r["samples"][:1]
    hs = set(); sts = set(); first = {}
    for i, r in res:
        for n, (h, nt, st) in enumerate(read_hashes("%s/h%d" % (work, i))):
            if nt: hs.add(h)
            sts.update(st)
            if n < 64: first[i + n * NW] = h
    search_wall = time.time() - tb
    # determinism across processes and worker counts: repeat a prefix of the runs in one fresh process
    detn = 0
    if not viol_seen:
        n = min(int(P.get("det", 160)), runs, NW * 64)
        hf = work + "/hd"
        p = subprocess.run([exe, "--property", prop, "--seed", str(seed), "--first", "0", "--stride", "1", "--runs", str(n), "--max-seconds", "300", "--out", work + "/outd.json", "--hashes", hf, "--det-every", "0", "--pin", "3", "--replay-out", work + "/replayd.json"] + kargs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, cwd=work)
        if p.returncode != 0: die("determinism sample ended with %d: %s" % (p.returncode, p.stdout[-2000:]), 3)
        for idx, (h, nt, st) in enumerate(read_hashes(hf)):
            if idx in first:
                detn += 1
                if first[idx] != h: die("NONDETERMINISM: run %d differs between processes" % idx, 3)
    viol = None
    cands = [(r["violation"]["index"], i, r["violation"]) for i, r in res if r["violation"]]
    rpath = None
    if cands:
        cands.sort(); idx, i, v = cands[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rpath = os.path.join(VERIF, "replays", "%s-seed%d-run%d.json" % (prop, seed, idx))
        shutil.copy("%s/replay%d.json" % (work, i), rpath)
        p = subprocess.run([exe, "--replay", rpath], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, cwd=work)
        if p.returncode != 1:
            shutil.rmtree(work, ignore_errors=True)
            die("violation %s did not reproduce in a fresh process (exit %d): %s" % (v["class"], p.returncode, p.stdout[-2000:]), 3)
        viol = v
    faults = {k[6:]: dict(fired=v[0], runs=v[1]) for k, v in sorted(ctr.items()) if k.startswith("fault.")}
    probes = {k[6:]: dict(hits=v[0], runs=v[1]) for k, v in sorted(ctr.items()) if k.startswith("probe.")}
    sched = {k[6:]: dict(fired=v[0], runs=v[1]) for k, v in sorted(ctr.items()) if k.startswith("sched.")}
    kindsd = {k[5:]: v[1] for k, v in sorted(ctr.items()) if k.startswith("kind.")}
    cov = dict(evaluations=tot["runs"], distinct_nontrivial=len(hs), rule=P["rule"], samples=samples[:3] or ["(no non-trivial sample)"],
        nontrivial_runs=tot["nontrivial"], runs_per_hour=int(tot["runs"] / max(search_wall, 1e-3) * 3600),
        simulated_steps=tot["steps"], context_switches=tot["switches"], simulated_time_s=tot["simtime_ns"] / 1e9,
        faults_injected=faults, schedule_choices=sched, probes=probes, workload_kinds=kindsd,
        distinct_abstract_states=len(sts), interleaving_measure="64-bit hash of the ordered (thread, event kind, object, switch) event sequence",
        same_seed_repeats_in_process=tot["det_checked"], same_seed_repeats_fresh_process=detn,
        components_real=P["real"], components_stubbed=P["stub"], oracle=P["oracle"], stopped_by_time_limit=timed, workers=NW, build_s=round(tb - t0, 2))
    if kf: cov["known_finding_runs"] = tot["known_hits"]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
        assumptions=P.get("assumptions", []) + ["sampling: a clean search is evidence, not proof"], wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for k in kf:
        if k["class"] in kmsg: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viol:
        print("%s: %s" % (viol["class"], viol["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, rpath))
        return 1
    print("%s: %d runs, %d distinct non-trivial, %.1f s" % (prop, tot["runs"], len(hs), time.time() - t0))
    return 0
sys.exit(main())
