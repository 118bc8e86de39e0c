#!/usr/bin/env python3
"""Decides one property: replays the transitions of the specification and random histories
into the real containers and validates every recorded execution against the specification."""
import argparse, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from containers import *
import modelgen, gen
from props import PROPS

REPO = os.environ.get("SFL_REPO", "/repo")
JOBS = os.cpu_count() or 8

class CheckError(Exception): pass
class DoesNotCompile(CheckError): pass     # the library rejects calls it documents, for types that satisfy the requirements

def cfg_key(c): return "_".join("%s-%s" % (k, c[k]) for k in sorted(c)).replace("/", "").replace(" ", "").replace("=", "") or "std"

def build(name, cfg, tmp):
    exe = os.path.join(tmp, "r_%s_%s" % (name, cfg_key(cfg)))
    cmd = [cfg.get("cc", "g++"), "-std=" + cfg.get("std", "c++17"), "-O" + cfg.get("opt", "0"), "-w", "-I", os.path.join(REPO, "include"), "-I", os.path.join(ROOT, "harness"),
           '-DCT_HDR="sfl/%s.hpp"' % name] + ["-D" + m for m in macros(name, cfg.get("n"))]
    if "el" in cfg: cmd.append("-DELEM=%d" % cfg["el"])
    if "al" in cfg: cmd.append("-DEALIGN=%d" % cfg["al"])
    if "apr" in cfg: cmd.append("-DAPROP=%d" % cfg["apr"])
    if cfg.get("nx"): cmd += ["-DSFL_NO_EXCEPTIONS", "-fno-exceptions"]
    if cfg.get("tc"): cmd.append("-DTHROWCMP")
    if cfg.get("mo"): cmd.append("-DMOVEONLY")
    if cfg.get("ro"): cmd.append("-DREADONLY")
    if cfg.get("san"): cmd += ["-DSANITIZED", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    if cfg.get("ndebug"): cmd.append("-DNDEBUG")
    if cfg.get("cov"): cmd += ["--coverage", "-DCOVER"]           # tools/cov.py
    cmd += [os.path.join(ROOT, "harness", "runner.cpp"), "-o", exe]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        msg = "build of %s failed:\n%s" % (name, "\n".join(l for l in r.stdout.splitlines() if "error" in l)[:3000])
        if re.search(r"error: ", r.stdout) and "Killed" not in r.stdout and "No space" not in r.stdout:
            e = DoesNotCompile(msg); e.info = {"container": name, "config": cfg, "output": r.stdout[-20000:]}; raise e
        raise CheckError(msg)
    return exe

def run_script(exe, lines, out, script):
    open(script, "w").write("\n".join(lines) + "\n")
    r = subprocess.run([exe, script, out, "ad"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode: raise CheckError("runner %s: %s" % (exe, r.stderr[-1000:]))
    if "unknown op" in r.stderr: raise CheckError("runner %s: %s" % (exe, r.stderr[:300]))
    return json.loads(r.stdout)

def known_findings(prop):
    p = os.path.join(ROOT, "known-findings.txt")
    L = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) container=(\S+) op=(\S+) clause=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: L.append(m.groups()[1:])
    return L

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    A = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[A.prop]
    tier = A.tier; os.environ["VERIF_TIER"] = tier
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="sflv_%s_" % A.prop)
    try:
        rc = decide(A.prop, P, tier, seed, tmp, t0)
    except DoesNotCompile as e:
        evd = os.path.join(ROOT, "evidence"); os.makedirs(os.path.join(evd, "replay"), exist_ok=True)
        path = os.path.join(evd, "replay", A.prop + "-build.json")
        json.dump(dict(e.info, property=A.prop), open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (A.prop, path)); print("  %s" % e); rc = 1
    except CheckError as e:
        print("ERROR: %s" % e); rc = 2
    finally:
        if A.keep: print("kept", tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def decide(prop, P, tier, seed, tmp, t0):
    thorough = tier == "thorough"
    suites = P["suites"](thorough)
    pool = ThreadPoolExecutor(JOBS)
    # ---- 1. explore the specification, build the real containers
    need_model = {}
    for s in suites:
        if s["kind"] == "model":
            key = modelgen.model_key(s)
            s["mkey"] = key; need_model[key] = None
    fb = {}
    for s in suites:
        k = (s["c"], cfg_key(s.get("cfg", {})))
        if k not in fb: fb[k] = pool.submit(build, s["c"], s.get("cfg", {}), tmp)
    fm = {}
    for n, key in enumerate(need_model):
        d = os.path.join(tmp, "m%d" % n); os.makedirs(d)
        fm[key] = pool.submit(modelgen.run_model, key[0], d, *key[1:])
    # other specification modules this property rests on
    fx = [(m, pool.submit(modelgen.tlc, m[0], m[1], m[2] if len(m) > 2 else {}, os.path.join(tmp, "x%d" % n))) for n, m in enumerate(P.get("modules", lambda th: [])(thorough))]
    states = transitions = 0
    for key in need_model:
        calls, g, d, err = fm[key].result()
        if err: raise CheckError("specification violates its laws (%s):\n%s" % (key[0], err))
        need_model[key] = calls; states += d; transitions += len(calls)
    mod_info = []
    for m, f in fx:
        out = f.result(); st = modelgen.stats(out)
        if "No error has been found" not in out or not st: raise CheckError("module %s:\n%s" % (m[0], out[-3000:]))
        states += st[1]; transitions += st[0]; mod_info.append({"module": m[0], "config": m[1], "generated": st[0], "distinct": st[1]})
    T1 = time.time()
    # ---- 2. scripts
    jobs = []
    avail = 0
    for n, s in enumerate(suites):
        name = s["c"]; rng = random.Random("%s/%s/%d/%d" % (prop, name, seed, n))
        if s["kind"] == "model":
            hs, tot = modelgen.histories(name, need_model[s["mkey"]], wide=s.get("wide", False), fault=s.get("fault"), rng=rng,
                                         budget=s.get("budget"), ops=s.get("ops"), maxsz=s.get("maxsz"))
            avail += tot
            lines = [l for h in hs for l in h]
        elif s["kind"] == "random":
            lines = gen.random_histories(name, "%s/%d" % (prop, seed), s["count"], s.get("length", 14), weights=s["weights"],
                                         fault=s.get("fault", 0.0), mask=s.get("mask", 63), maxlen=s.get("maxlen", 9), maxsz=s.get("maxsz"))
        else:
            lines = s["lines"](name, rng)
        if lines: jobs.append((n, s, lines))
    # ---- 3. run the real code
    def go(j):
        n, s, lines = j
        exe = fb[(s["c"], cfg_key(s.get("cfg", {})))].result()
        out = os.path.join(tmp, "o_%d.ndjson" % n)
        r = run_script(exe, lines, out, os.path.join(tmp, "s_%d.txt" % n))
        return n, s, out, r
    results = list(pool.map(go, jobs))
    T2 = time.time()
    # ---- 4. validate
    recs = []            # (events, line, suite index)
    hist = events = crashes = 0
    opcount = {}
    for n, s, out, r in results:
        events += r["events"]; crashes += r["crashes"]
        with open(out) as f:
            for line in f:
                k = line.count('"o":')
                recs.append((k, line, n))
    hist = len(recs)
    per = max(400, min(20000, sum(r[0] for r in recs) // JOBS + 1))
    recs.sort(key=lambda r: -r[0])
    nfile = max(1, -(-sum(r[0] for r in recs) // per))
    bins = [[0, []] for _ in range(nfile)]
    import heapq
    hq = [(0, i) for i in range(nfile)]; heapq.heapify(hq)
    for r in recs:
        w, i = heapq.heappop(hq); bins[i][1].append(r); heapq.heappush(hq, (w + r[0] + 1, i))
    cl = os.path.join(tmp, "clauses.json"); json.dump(P["clauses"], open(cl, "w"))
    def val(i):
        f = os.path.join(tmp, "t_%d.ndjson" % i)
        undef, last = [], None
        for attempt in range(12):
            with open(f, "w") as o: o.writelines(r[1] for r in bins[i][1])
            want = sum(r[0] + 1 for r in bins[i][1])
            out = modelgen.tlc("SflTrace.tla", "SflTrace.cfg", {"TRACE": f, "CLAUSES": cl}, os.path.join(tmp, "md_t%d_%d" % (i, attempt)), xmx="3000m")
            st = modelgen.stats(out)
            if "No error has been found" in out and st and st[1] == want: break
            # an observation on which the specification is not even defined is not one of its behaviours;
            # it must fail twice at the same event to be told from a mishap of the tool
            at = undefined_at(out)
            if at and at == last:
                undef.append((bins[i][1].pop(at[0] - 1), at[1], ["undefined"])); at = None
            last = at
            if not at and attempt >= 2 and not undef: raise CheckError("trace validation did not complete (%s of %d):\n%s" % (st, want, out[-2500:]))
        else:
            if undef: return st or (0, 0), undef

            raise CheckError("trace validation did not complete (%s of %d):\n%s" % (st, want, out[-2500:]))
        bad = [json.loads(json.loads(x)[3:]) for x in out.splitlines() if x.startswith('"BAD[')]
        return st, undef + [(bins[i][1][h - 1], l, c) for h, l, c in bad]
    bads = []
    for st, b in pool.map(val, range(nfile)):
        states += st[1]; bads += b
    T3 = time.time()
    if os.environ.get('TIMES'): print('model+build %.1f run %.1f validate %.1f' % (T1 - t0, T2 - T1, T3 - T2))
    # ---- 5. report
    known = known_findings(prop)
    viol, kn = [], {}
    for rec, l, cls in bads:
        h = json.loads(rec[1]); e = h["ev"][l - 1]
        k = next((x for x in known if x[0] == h["c"] and x[1] == e["o"] and x[2] in cls), None)
        if k: kn[k] = kn.get(k, 0) + 1
        else: viol.append((h, l, e, cls, rec[2]))
    for k in kn: print("KNOWN-FINDING: property=%s container=%s op=%s clause=%s %s" % ((prop,) + k))
    evd = os.path.join(ROOT, "evidence"); os.makedirs(evd, exist_ok=True)
    rdir = os.path.join(evd, "replay")
    groups = {}
    for v in viol: groups.setdefault((v[0]["c"], v[2]["o"], tuple(sorted(v[3]))), []).append(v)
    for n, (g, vs) in enumerate(sorted(groups.items(), key=lambda kv: repr(kv[0]))[:20]):
        h, l, e, cls, sn = min(vs, key=lambda v: v[1])
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        s = suites[sn]
        script = extract(os.path.join(tmp, "s_%d.txt" % sn), h["h"])
        json.dump({"property": prop, "container": h["c"], "clauses": cls, "failing_event": l, "count": len(vs), "config": s.get("cfg", {}),
                   "script": script, "fault_k": h["k"], "history": h}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s %s: clause %s broken (%d histories); before: %s  after: %s" %
              (h["c"], call_text(e), ",".join(cls), len(vs), slots(h, l - 2), slots(h, l - 1)))
    ex = []
    for r in recs[:: max(1, len(recs) // 3)][:3]:
        h = json.loads(r[1]); ex.append({"container": h["c"], "calls": [call_text(e) for e in h["ev"]][:12], "fault_k": h["k"], "last_state": slots(h, len(h["ev"]) - 2)})
    ops = {}
    faults = 0
    for k, line, n in recs:
        for o in re.findall(r'"o":"(\w+)"', line): ops[o] = ops.get(o, 0) + 1
        if '"k":0' not in line[:200]: faults += 1
    for z in ("start", "end"): ops.pop(z, None)
    if not ops: raise CheckError("nothing was explored")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 1), "violations": len(viol),
          "coverage": {"states": states, "transitions": transitions, "traces_validated_against_impl": hist, "samples": ex,
                       "recorded_calls": sum(ops.values()), "injected_failures": faults, "calls_by_operation": dict(sorted(ops.items())),
                       "containers": sorted({s["c"] for s in suites}), "configurations": sorted({cfg_key(s.get("cfg", {})) for s in suites}),
                       "model_replays_available": avail, "clauses": P["clauses"], "modules": mod_info, "crashed_children": crashes},
          "assumptions": ["element, comparator and allocator behaviour is that of the instrumented types of the harness",
                          "bounds: container contents, argument counts and layouts as listed in DESIGN.md"]}
    json.dump(ev, open(os.path.join(evd, prop + ".json"), "w"), indent=1)
    print("%s %s: %d histories, %d calls, %d injected failures, %d TLC states, %.1f s: %s" %
          (prop, tier, hist, sum(ops.values()), faults, states, time.time() - t0, "VIOLATED" if viol else "held"))
    return 1 if viol else 0

def undefined_at(out):
    """history and event at which TLC failed to evaluate the specification"""
    if "Error:" not in out or "OutOfMemory" in out or "StackOverflow" in out or "Java heap" in out: return None
    hs, ls = re.findall(r"^/\\ h = (\d+)", out, re.M), re.findall(r"^/\\ l = (\d+)", out, re.M)
    return (int(hs[-1]), int(ls[-1])) if hs and ls else None

def extract(path, hid):
    out = []; on = False
    for l in open(path):
        if l.startswith("H "): on = l.split()[1] == str(hid)
        if on: out.append(l.rstrip("\n"))
    return out

def call_text(e): return "%s(%s)@%d%s" % (e["o"], ",".join(map(str, e.get("a", []))), e.get("s", 0), (" -> " + e["x"]) if e.get("x") else "")
def slots(h, i):
    if i < 0 or "p" not in h["ev"][i]: return "-"
    return " ".join("%s c%d f%d b%d al%d" % (str(p["v"]).replace(" ", ""), p["c"], p["f"], p["b"], p["al"]) for p in h["ev"][i]["p"])

if __name__ == "__main__": main()
