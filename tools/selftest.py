#!/usr/bin/env python3
"""setup: the toolchain is there, the specification parses, the binding rejects a corrupted recording."""
import json, os, re, subprocess, sys, tempfile, shutil
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); sys.path.insert(0, HERE)
import modelgen, check
def validate(lines, tmp, n):
    f = os.path.join(tmp, "t%d" % n); open(f, "w").writelines(lines)
    cl = os.path.join(tmp, "c"); json.dump(["elems", "ret", "life", "struct", "crash"], open(cl, "w"))
    out = modelgen.tlc("SflTrace.tla", "SflTrace.cfg", {"TRACE": f, "CLAUSES": cl}, os.path.join(tmp, "md%d" % n))
    assert "No error has been found" in out, out[-2000:]
    return len([x for x in out.splitlines() if x.startswith('"BAD[')])
def main():
    tmp = tempfile.mkdtemp(prefix="sflv_self_")
    try:
        # the specification of readers tells hidden writes apart
        for m, good in (("none", True), ("sentinel", False), ("cache", False)):
            out = modelgen.tlc("SflReaders.tla", "SflReaders_%s.cfg" % m, {}, os.path.join(tmp, "rd" + m))
            assert ("No error has been found" in out) == good and (good or "Invariant Alone is violated" in out), out[-2000:]
        try: exe = check.build("vector", {}, tmp)
        except check.DoesNotCompile as e: print("selftest: %s (for the checks to report)" % e); return
        script = ["H 1", "0 ctor_rng 1 1 3 1 2 3", "M", "0 push_back 4", "0 erase 1 0", "0 insert_nv 0 2 9"]
        out = os.path.join(tmp, "o"); check.run_script(exe, script, out, os.path.join(tmp, "s"))
        L = open(out).readlines()
        if not L or validate(L, tmp, 1) != 0: print("selftest: the recording of the real container was rejected (for the checks to report)"); return
        h = json.loads(L[-1]); done = 0
        for e in h["ev"]:
            if e["o"] == "erase": e["p"][0]["v"][0], e["p"][0]["v"][1] = e["p"][0]["v"][1], e["p"][0]["v"][0]; done = 1
        assert done and validate([json.dumps(h) + "\n"], tmp, 2) >= 1, "a corrupted recording was accepted"
    finally: shutil.rmtree(tmp, ignore_errors=True)
    print("selftest ok")
main()
