#!/usr/bin/env python3
"""Mutation campaign over one container header: changes that the repository's own tests accept are
run through every check's workload for that container.  Usage: mutate.py CONTAINER COUNT OUTDIR [--header private]
Nothing in here decides a property; it shows where the checks are weak."""
import hashlib, json, os, pickle, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import check, modelgen, gen
from containers import *
from props import PROPS
REPO = "/repo"

def mutants(text):
    """(line number, description, new text)"""
    out = []; lines = text.split("\n")
    start = next(i for i, l in enumerate(lines) if l.startswith("namespace sfl"))
    def put(i, new, d, j=None):
        L = lines[:i] + ([new] if new is not None else []) + lines[(j or i + 1):]
        out.append((i + 1, d, "\n".join(L)))
    i = start
    while i < len(lines):
        l = lines[i]; s = l.strip()
        if not s or s.startswith(("//", "#", "template", "using", "SFL_ASSERT", "*", "typename", "friend", "static_assert")) or "enable_if" in l or "SFL_ASSERT" in l or "throw_" in l:
            i += 1; continue
        for a, bs in ((" < ", (" <= ",)), (" <= ", (" < ",)), (" > ", (" >= ",)), (" >= ", (" > ",)), (" == ", (" != ",)), (" != ", (" == ",)), (" && ", (" || ",)), (" || ", (" && ",)),
                      (" + ", (" - ",)), (" - ", (" + ",)), (" + 1", ("",)), (" - 1", ("",)), (" += ", (" -= ",)), (" -= ", (" += ",)), ("data_.first_", ("data_.last_",)), ("data_.last_", ("data_.first_", "data_.eos_")), ("data_.eos_", ("data_.last_",)),
                      ("p1", ("p2",)), ("p2", ("p1", "p3")), ("p3", ("p2",)), ("first,", ("last,",)), ("std::move(", ("(",)), ("if (", ("if (!", )), ("/ 2", ("/ 4",)), ("uninitialized_move_if_noexcept_a", ("uninitialized_move_a",)), ("move_backward", ("move",)), ("other.", ("this->",)), ("this->", ("other.",)),
                      ("SFL_RETHROW;", (";",)), ("begin()", ("end()",)), ("end()", ("begin()",)), ("nullptr", ("data_.first_",)), (", true", (", false",)), ("N", ("N + 1",)), ("++", ("--",)), ("new_cap", ("size()",)), ("hint", ("begin()",))):
            for m in re.finditer(re.escape(a), l):
                if a[0].isalnum() and m.start() and (l[m.start() - 1].isalnum() or l[m.start() - 1] == "_"): continue
                if a in ("N", "hint", "p1", "p2", "p3", "new_cap", "nullptr") and m.end() < len(l) and (l[m.end()].isalnum() or l[m.end()] == "_"): continue
                if a == "if (" and l.rstrip().endswith("("): continue
                for b in bs:
                    new = l[:m.start()] + b + l[m.end():]
                    if a == "if (":
                        k = l.rfind(")")
                        if k < m.end() or not l.rstrip().endswith(")"): continue
                        new = l[:m.start()] + "if (!(" + l[m.end():k] + "))" + l[k + 1:]
                    put(i, new, "%s -> %s: %s" % (a.strip(), b.strip(), s))
        # removal of a whole statement
        if re.match(r"(data_\.|this->|other\.|sfl::dtl::|\+\+|--|new_|p\d|\*|swap\(|clear\(|reset\(|proxy\.|pop_|sg\d|it |first|last|push_|emplace_|insert)", s):
            j = i; depth = 0; ok = False
            while j < len(lines) and j < i + 16:
                depth += lines[j].count("(") + lines[j].count("{") - lines[j].count(")") - lines[j].count("}")
                if lines[j].rstrip().endswith(";") and depth == 0: ok = True; break
                if depth < 0: break
                j += 1
            if ok:
                body = " ".join(x.strip() for x in lines[i:j + 1])
                put(i, re.match(r"\s*", l).group(0) + ";", "removed: " + body[:90], j + 1)
        i += 1
    return out

def prepare(name, outdir):
    """all scripts of all checks for one container"""
    pk = os.path.join(outdir, name + ".pkl")
    if os.path.exists(pk): return pickle.load(open(pk, "rb"))
    os.environ["VERIF_TIER"] = "quick"
    jobs = []; models = {}
    tmp = tempfile.mkdtemp(prefix="sflm_")
    todo = []
    for p in sorted(PROPS):
        for n, s in enumerate(PROPS[p]["suites"](False)):
            if s["c"] != name: continue
            if s["kind"] == "model":
                s["mkey"] = modelgen.model_key(s)
                models[s["mkey"]] = None
            todo.append((p, n, s))
    with ThreadPoolExecutor(8) as ex:
        def one(kv):
            n, key = kv; d = os.path.join(tmp, "m%d" % n); os.makedirs(d)
            return key, modelgen.run_model(key[0], d, *key[1:])
        for key, r in ex.map(one, enumerate(list(models))): models[key] = r[0]
    for p, n, s in todo:
        rng = random.Random("%s/%s/%d/%d" % (p, name, 1, n))
        if s["kind"] == "model":
            hs, _ = modelgen.histories(name, models[s["mkey"]], wide=s.get("wide", False), fault=s.get("fault"), rng=rng, budget=s.get("budget"), ops=s.get("ops"), maxsz=s.get("maxsz"))
            lines = [l for h in hs for l in h]
        elif s["kind"] == "random":
            lines = gen.random_histories(name, "%s/%d" % (p, 1), s["count"], s.get("length", 14), weights=s["weights"], fault=s.get("fault", 0.0), mask=s.get("mask", 63), maxlen=s.get("maxlen", 9), maxsz=s.get("maxsz"))
        else: lines = s["lines"](name, rng)
        if lines: jobs.append((p, n, s.get("cfg", {}), lines))
    shutil.rmtree(tmp)
    pickle.dump(jobs, open(pk, "wb")); return jobs

def detect(name, jobs, repo, pool):
    """{property: [first complaint]} for the tree at repo"""
    check.REPO = repo
    tmp = tempfile.mkdtemp(prefix="sflm_")
    try:
        exes = {}
        for p, n, cfg, lines in jobs:
            k = check.cfg_key(cfg)
            if k not in exes: exes[k] = pool.submit(check.build, name, cfg, tmp)
        def go(j):
            p, n, cfg, lines = j; out = os.path.join(tmp, "o_%s_%d" % (p, n))
            r = check.run_script(exes[check.cfg_key(cfg)].result(), lines, out, out + ".s")
            return p, out
        recs = []
        for p, out in pool.map(go, jobs):
            for line in open(out): recs.append((line.count('"o":'), line, p))
        allc = sorted({c for p in PROPS for c in PROPS[p]["clauses"]})
        cl = os.path.join(tmp, "cl.json"); json.dump(allc, open(cl, "w"))
        bins = [recs[i::8] for i in range(8)]
        def val(i):
            f = os.path.join(tmp, "t%d" % i)
            with open(f, "w") as o: o.writelines(r[1] for r in bins[i])
            out = modelgen.tlc("SflTrace.tla", "SflTrace.cfg", {"TRACE": f, "CLAUSES": cl}, os.path.join(tmp, "md%d" % i), xmx="3000m")
            if "No error has been found" not in out: raise check.CheckError(out[-1500:])
            return [(bins[i][h - 1], l, c) for h, l, c in (json.loads(json.loads(x)[3:]) for x in out.splitlines() if x.startswith('"BAD['))]
        found = {}
        for b in pool.map(val, [i for i in range(8) if bins[i]]):
            for rec, l, cls in b:
                h = json.loads(rec[1]); e = h["ev"][l - 1]; p = rec[2]
                c = [x for x in cls if x in PROPS[p]["clauses"] and not any(k[0] == h["c"] and k[1] == e["o"] and k[2] == x for k in check.known_findings(p))]
                if c: found.setdefault(p, "%s %s" % (check.call_text(e), ",".join(c)))
        return found
    finally: shutil.rmtree(tmp, ignore_errors=True)

def main():
    name, count, outdir = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    header = sys.argv[sys.argv.index("--header") + 1] if "--header" in sys.argv else name
    lo, hi = (int(x) for x in sys.argv[sys.argv.index("--lines") + 1].split("-")) if "--lines" in sys.argv else (0, 10 ** 9)
    os.makedirs(outdir, exist_ok=True)
    text = open("%s/include/sfl/%s.hpp" % (REPO, header)).read()
    M = [m for m in mutants(text) if lo <= m[0] <= hi]; total = len(M)
    rng = random.Random("%s %s" % (header, count)); rng.shuffle(M); M = M[:count]
    work = tempfile.mkdtemp(prefix="sflmut_")
    pool = ThreadPoolExecutor(int(os.environ.get("JOBS","8")))
    def tree(n, txt):
        d = os.path.join(work, str(n)); shutil.copytree(REPO + "/include", d + "/include")
        open("%s/include/sfl/%s.hpp" % (d, header), "w").write(txt); return d
    def test(n, m):
        d = tree(n, m[2]); exe = d + "/t"
        try:
            r = subprocess.run(["g++", "-std=c++11", "-I", d + "/include", "-I", REPO + "/test", "-Wall", "-Wextra", "-Werror", "-Wfatal-errors", "-fsanitize=address", "-O0", REPO + "/test/%s.cpp" % name, "-o", exe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode: return "compile"
            r = subprocess.run([exe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            return "test" if r.returncode else "survived"
        except subprocess.TimeoutExpired: return "test"
        finally: shutil.rmtree(d)
    if "--checks-first" in sys.argv:
        # only what the checks miss is put to the repository's tests
        jobs = prepare(name, outdir)
        quick = [(p, n, cfg, lines) for p, n, cfg, lines in jobs if p in ("C01", "C02", "C03", "C04", "C05", "C06")]
        log = open(os.path.join(outdir, "%s_%s.first" % (name, header)), "a"); tally = {}
        def both(n, m):
            d = tree("q%d" % n, m[2])
            try:
                g = subprocess.run(["g++", "-std=c++11", "-fsyntax-only", "-I", d + "/include", "-I", REPO + "/test", "-Wall", "-Wextra", "-Werror", "-Wfatal-errors", "-x", "c++", d + "/include/sfl/%s.hpp" % header, "-Wno-pragma-once-outside-header"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if g.returncode: return "compile", {}
                for js in (quick, jobs):
                    if not js: continue
                    try: f = detect(name, js, d, pool)
                    except check.CheckError as e: f = {"ERROR": str(e)[:600]}
                    if f: return "caught" if "ERROR" not in f else "error", f
            finally: shutil.rmtree(d)
            return test("t%d" % n, m), {}
        for n, m in enumerate(M):
            r, f = both(n, m); tally[r] = tally.get(r, 0) + 1
            if r in ("survived", "error"): log.write(json.dumps({"line": m[0], "what": m[1], "result": r, "found": f}) + "\n"); log.flush()
        print("%s via %s: %d of %d mutants: %s" % (header, name, len(M), total, tally), flush=True)
        shutil.rmtree(work); return
    st = list(pool.map(lambda nm: test(*nm), enumerate(M)))
    surv = [m for m, s in zip(M, st) if s == "survived"]
    print("%s: %d of %d mutants, %d do not compile, %d fail the tests, %d survive" % (header, len(M), total, st.count("compile"), st.count("test"), len(surv)), flush=True)
    jobs = prepare(name, outdir)
    log = open(os.path.join(outdir, "%s_%s.log" % (name, header)), "a")
    caught = 0
    for n, m in enumerate(surv):
        d = tree("s%d" % n, m[2]); t = time.time()
        try: f = detect(name, jobs, d, pool)
        except check.CheckError as e: f = {"ERROR": str(e)[:300]}
        shutil.rmtree(d)
        caught += bool(f) and "ERROR" not in f
        log.write(json.dumps({"line": m[0], "what": m[1], "found": f, "t": round(time.time() - t, 1)}) + "\n"); log.flush()
    print("%s via %s: %d of %d surviving mutants caught" % (header, name, caught, len(surv)), flush=True)
    shutil.rmtree(work)
if __name__ == "__main__": main()
