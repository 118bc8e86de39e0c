#!/usr/bin/env python3
"""Which lines of the library the quick workloads of all properties execute (a measurement, not a check).
usage: cov.py CONTAINER...   prints the lines never executed and the functions never instantiated"""
import sys, os, subprocess, re, glob, shutil, json, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
import mutate, check
from containers import *

def measure(name, tmp):
    jobs = mutate.prepare(name, tmp)
    d = os.path.join(tmp, name); os.makedirs(d)
    seen, cfgs = {}, {}
    for p, n, cfg, lines in jobs: cfgs.setdefault(check.cfg_key(cfg), (cfg, []))[1].append(lines)
    for k, (cfg, ls) in cfgs.items():
        dd = os.path.join(d, re.sub(r"\W", "_", k)); os.makedirs(dd)
        exe = check.build(name, dict(cfg, cov=1), dd)
        for l in ls: check.run_script(exe, l, dd + "/o", dd + "/s")
        r = subprocess.run(["gcov", "-j", "-t"] + glob.glob(dd + "/**/*.gcda", recursive=True), cwd=dd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        for line in r.stdout.splitlines():
            try: J = json.loads(line)
            except Exception: continue
            for f in J["files"]:
                if "/sfl/" not in f["file"]: continue
                for x in f["lines"]:
                    s = seen.setdefault(os.path.basename(f["file"]), {}); s[x["line_number"]] = s.get(x["line_number"], 0) + x["count"]
    shutil.rmtree(d)
    return seen

def report(seen, hdr):
    S = seen.get(hdr, {}); L = open(os.path.join(check.REPO, "include/sfl", hdr)).read().split("\n")
    z = [k for k in sorted(S) if S[k] == 0]
    print("== %s: %d of %d instantiated lines never executed" % (hdr, len(z), len(S)))
    for k in z: print("  %d: %s" % (k, L[k - 1].strip()[:80]))
    i = next(i for i, l in enumerate(L) if l.startswith("class "))
    while i < len(L):
        if L[i] == "    {":
            j = L.index("    }", i)
            h = i - 1
            while not re.match(r"^ {4}\S", L[h]): h -= 1
            if "class" not in L[h] and "struct" not in L[h] and not any(k in S for k in range(h, j + 2)): print("  never instantiated %d: %s" % (h + 1, L[h].strip()[:90]))
            i = j
        i += 1

if __name__ == "__main__":
    tmp = tempfile.mkdtemp(prefix="sflcov_")
    try:
        for n in sys.argv[1:] or ALL: report(measure(n, tmp), n + ".hpp"); sys.stdout.flush()
    finally: shutil.rmtree(tmp, ignore_errors=True)
