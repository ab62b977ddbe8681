#!/usr/bin/env python3
"""check.py <PROPERTY> [--quick|--thorough] : decide one property by deductive verification of /repo's current source.

Compiles the real /repo sources and the contracts/harnesses in harness/<PROPERTY>*.cpp to LLVM bitcode, generates and
discharges the proof obligations with build/vfy, and reports. See DESIGN.md for the outcome rules."""
import concurrent.futures as cf, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
ENG = os.path.join(V, "engine")
CXX = "clang++-18"
INC = ["-I" + ENG + "/shim", "-I" + ENG, "-I" + V + "/harness", "-I" + REPO, "-I" + REPO + "/vrs/oss", "-I" + REPO + "/vrs"]
BASE = ["-std=c++17", "-O1", "-fno-access-control", "-g1", "-w", "-DV_HARNESS"]
BCF = ["-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-emit-llvm", "-c"]
PASSES = "internalize,globaldce,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa,loop(indvars),instcombine<no-verify-fixpoint>,simplifycfg)"
JOBS = int(os.environ.get("VP_JOBS", "8"))

def sh(cmd, timeout=600, mem=None, **kw):
    def pre():
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=pre if mem else None, **kw)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace"), "timeout"

def engine():
    vfy = os.path.join(V, "build", "vfy")
    srcs = sorted(glob.glob(ENG + "/*.h") + glob.glob(ENG + "/vfy.cpp") + [ENG + "/build.sh"])
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()
    st = os.path.join(V, "build", "vfy.hash")
    if not (os.path.exists(vfy) and os.path.exists(st) and open(st).read() == h):
        os.makedirs(os.path.join(V, "build"), exist_ok=True)
        rc, o, e = sh(["bash", ENG + "/build.sh", V + "/build"], timeout=600)
        if rc: print(o + e); print("cannot build the verifier"); sys.exit(2)
        open(st, "w").write(h)
    return vfy

class Unit:
    """one harness translation unit: sources, flags and entries are declared in its leading comments"""
    def __init__(self, path):
        self.path, self.repo, self.flags, self.entries, self.extra = path, [], [], [], []
        for l in open(path):
            if l.startswith("// @repo "): self.repo += l.split()[2:]
            elif l.startswith("// @flags "): self.flags += l.split()[2:]
            elif l.startswith("// @with "): self.extra += l.split()[2:]
            elif l.startswith("// @entry "):
                w = l.split()[2:]
                o = dict(x.split("=", 1) if "=" in x else (x, "1") for x in w[1:])
                self.entries.append((w[0], o))
        self.name = os.path.basename(path)[:-4]

def compile_unit(u, d, pool):
    """returns (bitcode or None, native exe or None, error text)"""
    srcs = [u.path] + [os.path.join(V, "harness", x) for x in u.extra] + [ENG + "/rt.cpp"]
    rsrc = [os.path.join(REPO, r) for r in u.repo]
    jobs = {}
    def one(src, native):
        base = re.sub(r"[^A-Za-z0-9]", "_", src)
        out = f"{d}/{u.name}.{base}" + (".o" if native else ".bc")
        fl = BASE + u.flags + INC
        if native: cmd = [CXX] + fl + ["-fsanitize=address", "-fno-omit-frame-pointer", "-fPIC", "-c", src, "-o", out, "-DV_NATIVE"]
        else: cmd = [CXX] + fl + BCF + [src, "-o", out]
        rc, o, e = sh(cmd, timeout=300)
        return out if rc == 0 else None, e
    fb = [pool.submit(one, s, False) for s in srcs + rsrc]
    fn = [pool.submit(one, s, True) for s in [x for x in srcs if not x.endswith("/rt.cpp")] + rsrc + [ENG + "/native.cpp"]]
    def link_bc():
        rs = [f.result() for f in fb]
        bad = [e for o, e in rs if o is None]
        if bad: return None, "\n".join(bad)
        out = f"{d}/{u.name}.bc"
        rc, o, e = sh(["llvm-link-18", "-o", out + ".l"] + [o for o, _ in rs])
        if rc: return None, e
        rc, o, e = sh(["opt-18", "-passes=" + PASSES, "-disable-lftr", "-replexitval=never", "-internalize-public-api-list=" + ",".join(e for e, _ in u.entries), out + ".l", "-o", out])
        return (out, "") if rc == 0 else (None, e)
    def link_native():
        rs = [f.result() for f in fn]
        if any(o is None for o, _ in rs): return None, "\n".join(e for o, e in rs if o is None)
        out = f"{d}/{u.name}.exe"
        # symbols of parts of the repository that are not linked in: never reached by the harness
        _, o, _ = sh(["nm"] + [o for o, _ in rs])
        und = set(re.findall(r"^ +U (\S+)$", o, re.M)); dfn = set(re.findall(r"^[0-9a-f]+ [A-Tt-zVW] (\S+)$", o, re.M))
        miss = sorted(x for x in und - dfn if "3vrs" in x or re.match(r"LZ4|ZSTD|XXH", x))
        with open(f"{d}/{u.name}.miss.s", "w") as f:
            f.write(".data\n")
            for x in miss: f.write(f".globl {x}\n.weak {x}\n.balign 64\n{x}:\n.zero 256\n")
            f.write('.section .note.GNU-stack,"",@progbits\n')
        rs = rs + [(f"{d}/{u.name}.miss.s", "")]
        rc, o, e = sh([CXX, "-fsanitize=address", "-no-pie", "-rdynamic", "-Wl,--unresolved-symbols=ignore-all", "-Wl,--allow-multiple-definition"] + [o for o, _ in rs] + ["-o", out, "-ldl", "-lpthread"])
        return (out, "") if rc == 0 else (None, e)
    return link_bc(), link_native()

def run_vfy(vfy, bc, entry, bounded, timeout, opts):
    js = f"{bc}.{entry}.{'b' if bounded else 'p'}.json"
    cmd = [vfy, bc, "--entry", entry, "--timeout", str(timeout), "--json", js]
    if bounded: cmd.append("--bounded")
    if "unroll" in opts and bounded: cmd += ["--unroll", opts["unroll"]]
    if "obms" in opts: cmd += ["--ob-ms", opts["obms"]]
    if "branchms" in opts: cmd += ["--branch-ms", opts["branchms"]]
    t = time.time()
    rc, o, e = sh(cmd, timeout=timeout + 30, mem=12 << 30)
    try: r = json.load(open(js))
    except Exception: r = {"entry": entry, "status": "error", "why": (e or "")[-400:], "obligations": [], "proved": 0, "mem_proved": 0, "failed": 0, "unknown": 0, "aborts": {}, "covers": [], "functions": [], "loops": [], "invariants": [], "replaced": [], "assumed": [], "solver_time": 0, "proved_obligations": {}, "throw_sites": [], "paths": 0, "queries": 0}
    r["rc"], r["t"] = rc, time.time() - t
    r["ok"] = r["status"] == "done" and not r["failed"] and not r["unknown"] and not r["aborts"] and r["proved"] > 0 and r["paths"] > 0
    return r

def native(exe, args, timeout):
    rc, o, e = sh([exe] + args, timeout=timeout)
    st = None
    try: st = json.loads(o.strip().splitlines()[-1])
    except Exception: pass
    return rc, st, e

def main():
    if "--setup" in sys.argv: print("verifier at", engine()); return
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    pid = args[0]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    vfy = engine()
    os.makedirs(V + "/evidence", exist_ok=True)
    d = tempfile.mkdtemp(prefix=pid + ".", dir=V + "/build")
    try: rc = decide(pid, tier, only, seed, t0, vfy, d)
    finally:
        if "--keep" in sys.argv: print("kept", d)
        else: shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)

def decide(pid, tier, only, seed, t0, vfy, d):
    units = [Unit(p) for p in sorted(glob.glob(f"{V}/harness/{pid}.cpp") + glob.glob(f"{V}/harness/{pid}_*.cpp"))]
    cpool = cf.ThreadPoolExecutor(JOBS); upool = cf.ThreadPoolExecutor(max(1, len(units)))
    comp = list(upool.map(lambda u: compile_unit(u, d, cpool), units))
    print(f"[{pid}] compiled {len(units)} unit(s) in {time.time()-t0:.1f}s", flush=True)
    jobs, notes, broken = [], [], []
    for u, ((bc, e1), (exe, e2)) in zip(units, comp):
        if not bc:
            broken.append(u.name); notes.append(f"unit {u.name} no longer compiles against /repo: {e1[-1500:]}"); continue
        if not exe: notes.append(f"unit {u.name}: native build failed: {e2[-600:]}")
        for en, o in u.entries:
            if only and en not in only: continue
            jobs.append((u, bc, exe, en, o))
    tmo_scale = 4 if tier == "thorough" else 1
    budget = 800 - (time.time() - t0)
    results = {}
    lock = threading.Lock()
    def work(j):
        u, bc, exe, en, o = j
        tmo = min(float(o.get("timeout", 120)) * (1.5 if tier == "thorough" else 1), budget * 0.6)
        R = {"unit": u.name, "entry": en, "bounded_by_design": "bounded" in o, "violations": []}
        deadline = t0 + 780
        r = run_vfy(vfy, bc, en, "bounded" in o, tmo, o)
        R["main"] = r
        fz = float(o.get("fuzz", "1.5")) * tmo_scale
        def fuzz(secs):
            if not exe or "nofuzz" in o: return None
            rc, st, e = native(exe, ["--entry", en, "--secs", str(secs), "--seed", str(seed)], secs + 120)
            if rc not in (0, 3, 124) and not failed(e): notes.append(f"{en}: native run did not work: rc {rc} {e[-300:]}")
            elif rc not in (0, 3, 124): R["violations"].append({"kind": "directed input", "text": e[-6000:], "obligation": fobl(e)})
            return st
        def failed(e): return "NATIVE-FAIL" in e or "ERROR: AddressSanitizer" in e
        def fobl(e):
            m = re.search(r"NATIVE-FAIL (\w+): (.*?)  entry", e)
            if m: return m.group(2)
            m = re.search(r"ERROR: AddressSanitizer: (\S+)", e)
            return "memory safety: " + m.group(1) if m else "native run failed"
        def replay(r):
            if not exe or "nofuzz" in o: return
            for k, ob in enumerate(x for x in r["obligations"] if x["status"] == "failed" and x.get("model")):
                if k >= 12 or R["violations"]: break
                mf = f"{d}/{u.name}.{en}.{k}.model"
                open(mf, "w").write(ob["model"])
                rc, st, e = native(exe, ["--entry", en, "--model", mf], 120)
                if rc not in (0, 3, 124) and failed(e): R["violations"].append({"kind": "verifier counterexample", "obligation": ob["name"], "loc": ob["loc"], "model": ob["model"], "text": e[-6000:]})
        R["fuzz"] = fuzz(fz)
        if not r["ok"]:
            replay(r)
            if not R["violations"] and time.time() < deadline:
                if "bounded" not in o:
                    b = run_vfy(vfy, bc, en, True, min(max(60, float(o.get("btimeout", 120))), max(10, deadline - time.time())), o)
                    R["bounded"] = b
                    replay(b)
                if not R["violations"]: R["fuzz"] = fuzz(min(20 * (2 if tier == "thorough" else 1), max(2, deadline - time.time())))
        elif tier == "thorough" and "bounded" not in o:
            R["bounded"] = run_vfy(vfy, bc, en, True, 60, o)
        with lock:
            results[(u.name, en)] = R
            print(f"[{pid}] {u.name}/{en}: {'proved' if r['ok'] and not R['bounded_by_design'] else 'bounded-ok' if r['ok'] else 'NOT DISCHARGED'} "
                  f"obligations={r['proved']+r['mem_proved']} failed={r['failed']} unknown={r['unknown']} aborts={sum(r['aborts'].values())} {r['status']} {r['t']:.1f}s solver={r['solver_time']:.1f}s paths={r['paths']} pruned={r.get('pruned',0)}", flush=True)
            if not r["ok"] or os.environ.get("VP_V"):
                for x in r["obligations"][:8]: print(f"     {x['status']}: {x['name']} {x['loc']}")
                for a, n in list(r["aborts"].items())[:5]: print(f"     abort: {a} x{n}")
                if r.get("why"): print("     " + r["why"])
        return R
    with cf.ThreadPoolExecutor(JOBS) as ex: rs = list(ex.map(work, sorted(jobs, key=lambda j: -float(j[4].get("timeout", 120)))))
    return report(pid, tier, seed, t0, rs, notes, broken)

def known_findings(pid):
    k = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) obligation=(\S.*?) \| (.*)", l.strip())
            if m and m.group(1) == pid: k.append((m.group(2), m.group(3), m.group(4)))
    return k

def report(pid, tier, seed, t0, rs, notes, broken):
    meta = json.load(open(f"{V}/harness/meta.json")).get(pid, {})
    rc, lines, viol, degraded = 0, [], [], []
    kf, seen_kf = known_findings(pid), set()
    for R in rs:
        m = R["main"]
        for v in R["violations"]:
            hit = [k for k in kf if k[0] == R["entry"] and k[1] in v["obligation"]]
            if hit: seen_kf.add(hit[0]); continue
            viol.append((R, v, True))
        if not m["ok"] and not R["violations"]:
            b = R.get("bounded", {})
            defs = [x for x in m["obligations"] if x["status"] == "failed" and not any(k[0] == R["entry"] and k[1] in x["name"] for k in kf)]
            dfb = [x for x in b.get("obligations", []) if x["status"] == "failed" and not any(k[0] == R["entry"] and k[1] in x["name"] for k in kf)]
            if defs or dfb:
                x = (dfb or defs)[0]
                viol.append((R, {"kind": "failed obligation", "obligation": x["name"], "loc": x["loc"], "model": x["model"], "text": "verifier output:\n" + json.dumps((b if dfb else m)["obligations"][:20], indent=1)}, False))
            else: degraded.append(R["entry"])
    for k in kf: lines.append(f"KNOWN-FINDING: property={pid} {k[2]}")
    ob = sum(R["main"]["proved"] + R["main"]["mem_proved"] + R["main"]["failed"] + R["main"]["unknown"] + sum(R["main"]["aborts"].values()) for R in rs if not R["bounded_by_design"])
    dis = sum(R["main"]["proved"] + R["main"]["mem_proved"] for R in rs if not R["bounded_by_design"])
    allm = [R["main"] for R in rs]
    funcs = sorted({f for r in allm for f in r["functions"] if "vrs::" in f})
    trusted = ["clang 18 front end and the LLVM passes " + PASSES, "the verifier engine/ (symbolic evaluator, memory model, invariant checker)", "z3 5.3.2",
               "libc/C++ runtime models: memcpy/memmove/memset/memcmp/strlen, operator new/delete (no failure, size <= 2^38), red-black-tree primitives (engine/rt.cpp)",
               "log statements dropped, fmt output unspecified (engine/shim)", "mutexes are no-ops and atomics plain (sequential verification)", "throwing paths end; std::logic_error family thrown outside a try is an obligation failure",
               "loops run fewer than 2^40 iterations; termination is not proved"] + sorted({a for r in allm for a in r["assumed"]}) + [f"contract used in place of the body: {x}" for x in sorted({x for r in allm for x in r["replaced"]})] + meta.get("trusted", [])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": meta.get("level", "proof"), "wall_s": round(time.time() - t0, 2),
          "violations": len(viol), "assumptions": trusted,
          "coverage": {"obligations": ob, "discharged": dis, "checker_cmd": f"python3 check.py {pid}", "trusted_base": trusted,
                       "solver_time_s": round(sum(r["solver_time"] for r in allm), 2), "solver_queries": sum(r["queries"] for r in allm), "back_end": "z3 (bit-vectors, arrays as uninterpreted functions)",
                       "functions_under_contract": funcs, "loops_with_invariants": sorted({l for r in allm for l in r["loops"]}), "ghost_invariants": sorted({l for r in allm for l in r["invariants"]}),
                       "bounded_loops_cut": {R["main"]["entry"]: R["main"].get("pruned", 0) for R in rs if R["main"].get("pruned", 0)},
                       "throw_sites_pruned": sorted({l for r in allm for l in r["throw_sites"]})[:60],
                       "entries": [{"entry": R["entry"], "mode": "bounded" if R["bounded_by_design"] else "proof", "status": "discharged" if R["main"]["ok"] else "not discharged",
                                    "named_obligations": R["main"]["proved_obligations"], "memory_and_arithmetic_obligations": R["main"]["mem_proved"], "paths": R["main"]["paths"], "covers": R["main"]["covers"],
                                    "solver_s": round(R["main"]["solver_time"], 2), "wall_s": round(R["main"]["t"], 2), "native_directed": R.get("fuzz"),
                                    "bounded_fallback": ({"ok": R["bounded"]["ok"], "paths": R["bounded"]["paths"], "obligations": R["bounded"]["proved"] + R["bounded"]["mem_proved"]} if "bounded" in R else None)} for R in rs],
                       "bounded_entries": [R["entry"] for R in rs if R["bounded_by_design"]], "degraded_entries": degraded, "broken_units": broken, "notes": notes}}
    ev["coverage"]["evaluations"] = ob; ev["coverage"]["distinct_nontrivial"] = sum(len(r["proved_obligations"]) for r in allm)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for n in notes: print("NOTE " + n)
    for e in degraded: print(f"DEGRADED property={pid} entry={e}: not every obligation was decided; the bounded and directed runs found no violation")
    for b in broken: print(f"UNDECIDED property={pid} unit={b}: the contracts no longer compile against this tree")
    for l in lines: print(l)
    if viol:
        rp = f"{V}/evidence/{pid}.replay.txt"
        viol.sort(key=lambda x: not x[2])
        with open(rp, "w") as f:
            for R, v, conf in viol:
                f.write(f"property {pid}\nunit {R['unit']} entry {R['entry']}\nfailed obligation: {v['obligation']} {v.get('loc','')}\nkind: {v['kind']} ({'replayed on the real code' if conf else 'no failing input found'})\n\n{v.get('model','')}\n{v['text']}\n\n")
        R, v, conf = viol[0]
        print(f"failed obligation: {v['obligation']} in {R['entry']}")
        print(f"VIOLATION property={pid} replay={rp}" + ("" if conf else " no-failing-input-found"))
        return 1
    return 0

main()
