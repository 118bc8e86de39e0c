"""Turns the transitions TLC enumerates from SflModel into scripts for the runner: every
(state, call) pair is prepared in one of several storage layouts and then stepped."""
import json, os, random, re, subprocess
from containers import info, default_n, model_name

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

def tlc(module, cfg, env, meta, xmx="2500m", workers=1, timeout=800, extra=()):
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ); e.update(env)
    cmd = ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=%s" % os.environ.get("TSL", "4" if os.environ.get("VERIF_TIER") == "thorough" else "1"), "-Xmx" + xmx, "-Xss64m", "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, cwd=meta)
        return r.stdout
    except subprocess.TimeoutExpired as x:
        return "TIMEOUT " + ((x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or ""))

def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else None

def model_key(s):
    """arguments of run_model: misuse depends on the container and its N, everything else on its kind only"""
    own = "misuse" in s["groups"]; i = info(s["c"])
    n = s.get("cfg", {}).get("n") or default_n(s["c"])
    return (s["c"] if own else model_name(s["c"]), tuple(s["groups"]), s.get("len", 3), s.get("add", 2), s.get("keys", 4),
            s.get("alpha", 0), tuple(sorted(s.get("ops") or ())), n if own and i["static"] else 99)

def run_model(name, tmp, groups, length=3, add=2, keys=4, alpha=0, ops=(), n=99, emit=1):
    """-> (calls, generated, distinct, error text or None)"""
    cfgf = os.path.join(tmp, "model_%s.json" % name)
    json.dump({"name": name, "len": length, "add": add, "keys": keys, "alpha": alpha, "ops": list(ops), "n": n, "emit": emit, "groups": list(groups)}, open(cfgf, "w"))
    out = tlc("SflModel.tla", "SflModel.cfg", {"MODEL": cfgf}, os.path.join(tmp, "md_m_" + name))
    st = stats(out)
    if "Model checking completed. No error has been found." not in out or st is None:
        return None, 0, 0, "\n".join(l for l in out.splitlines() if not l.startswith(('"C[', '"A[')))[-3000:]
    calls = []
    for l in out.splitlines():
        if l.startswith('"C['):
            calls.append(tuple(json.loads(json.loads(l)[1:])))          # x y cm ycm o a
        elif l.startswith('"A['):
            calls.append(tuple(json.loads(json.loads(l)[1:])) + (True,))   # precondition violated
    calls.sort(key=repr)
    return calls, st[0], st[1], None

CTOR = {"ctor_def", "ctor_n", "ctor_nd", "ctor_nv", "ctor_rng", "ctor_il"}
BIN = {"copy", "move", "ctor_copy", "ctor_move", "ctor_copya", "ctor_movea", "swap", "swap_nm", "cmp", "cmp_eq", "self_copy", "self_swap"}

def layouts(name, wide):
    i = info(name)
    if isinstance(wide, (list, tuple)): return list(wide)
    if i["static"] or i["compact"]: return [(0, 0)]
    if i["dev"] or i["segdev"]:
        far = [(0, 6), (6, 0), (1, 9), (9, 1), (0, 12), (12, 0)]        # room for whole ranges at one end: the elements are shifted a long way
        if wide: return [(f, b) for f in range(5) for b in range(5)] + far + [(2, 8), (8, 2), (3, 16), (16, 3), (7, 7)]
        return [(0, 0), (0, 2), (2, 0), (2, 2), (1, 1), (3, 1), (1, 3), (0, 4), (4, 0)] + far
    if i["segv"]: return [(0, b) for b in (range(7) if wide else range(4))]
    return [(0, b) for b in (range(6) if wide else (0, 1, 3))]

def prep(name, s, v, cm, al, lay):
    """script lines that bring slot s to contents v in layout lay"""
    i = info(name); f, b = lay
    heap = not i["static"]
    if i["seq"]:
        junk = lambda n, d: [d + k for k in range(n)]
        L = ["%d ctor_rng %s" % (s, " ".join(map(str, [1 if heap else 0, al, 3] + junk(f, 70) + list(v) + junk(b, 80))))]
        L += ["%d pop_front" % s] * f + ["%d pop_back" % s] * b
        return L
    L = ["%d ctor_rng %s" % (s, " ".join(map(str, [3 if heap else 1, cm, al, 3] + list(v))))]
    if heap and b: L.append("%d reserve %d" % (s, len(v) + b))
    return L

def cmp3(a, b): return (a > b) - (a < b)

def feature(i, it):
    """what decides which way through the code a call takes: how the numbers involved relate to each other"""
    (x, y, cm, ycm, o, a), (f, b), l2, al = it[0][:6], it[1], it[2], it[3]
    ln = len(x)
    if o in BIN: return (al, cmp3(ln, len(y)), ln == 0, len(y) == 0, cmp3(ln, len(y) + l2[1]), cmp3(len(y), ln + b), f > l2[0])
    if o in CTOR: return (tuple(a[:4]), len(a) > 5)
    if i["seq"]:
        if o in ("insert_nv", "insert_nv_al", "insert_rng", "insert_il", "emplace", "insert", "insert_m", "insert_al", "emplace_al") and a:
            pos = a[0]; tail = ln - pos
            n = a[1] if o.startswith("insert_nv") else len(a) - 2 if o == "insert_rng" else len(a) - 1 if o == "insert_il" else 1
            return (a[1] if o == "insert_rng" else 0, min(n, 2), cmp3(n, tail), cmp3(n, pos), cmp3(n, b), cmp3(n, f), cmp3(pos, tail), pos == 0, tail == 0)
        if o in ("erase_rng", "erase") and a:
            pos = a[0]; n = (a[1] - a[0]) if o == "erase_rng" else 1; tail = ln - pos - n
            return (min(n, 2), cmp3(n, tail), cmp3(n, pos), cmp3(pos, tail), pos == 0, tail == 0)
        if o.startswith(("assign", "resize", "reserve")) and a:
            n = a[0] if not o.startswith(("assign_rng", "assign_il")) else len(a) - (o == "assign_rng")
            return (a[0] if o == "assign_rng" else 0, cmp3(n, ln), cmp3(n, ln + b), cmp3(n, ln + f + b), n == 0, cmp3(n - ln, f), ln == 0)
        return (cmp3(f, 0), cmp3(b, 0), ln == 0, min(f, 2), min(b, 2))
    return (ln, min(b, 2), a[0] if a else None)

def spread(i, l, rng):
    """the items in an order in which every feature comes up early"""
    rng.shuffle(l)
    by = {}
    for it in l: by.setdefault(feature(i, it), []).append(it)
    g = list(by.values()); rng.shuffle(g)
    out = []
    k = 0
    while len(out) < len(l):
        out += [x[k] for x in g if k < len(x)]; k += 1
    return out

def histories(name, calls, wide=False, fault=None, first_id=1, rng=None, budget=None, alloc=(1, 2), ops=None, maxsz=None):
    """scripts (list of lists of lines) for the calls"""
    i = info(name)
    lays = layouts(name, wide)
    items = []
    for c in calls:
        x, y, cm, ycm, o, a = c[:6]
        if ops is not None and o not in ops: continue
        if o in ("ctor_nd", "resize_d") and name != "static_vector": continue
        if len(c) > 6:
            for l in lays: items.append((c, l, (0, 0), 2))
            continue
        if o in CTOR: items.append((c, (0, 0), (0, 0), 1)); continue
        if o in BIN:
            for l in lays:
                l2s = lays if wide else [l, (0, 0), (lays[-1][1], lays[-1][0]) if (i["dev"] or i["segdev"]) else lays[-1]]
                for l2 in sorted(set(l2s)):
                    for al in (alloc if not i["static"] else (1,)): items.append((c, l, l2, al))
        else:
            for l in lays: items.append((c, l, (0, 0), 2))
    total = len(items)
    if budget is not None and len(items) > budget:
        # keep every operation represented, then fill at random
        by = {}
        for it in items: by.setdefault(it[0][4], []).append(it)
        pick = []
        share = max(1, budget // len(by))
        rest = []
        for o in sorted(by):
            l = spread(i, by[o], rng)
            pick += l[:share]; rest += l[share:]
        rng.shuffle(rest)
        items = (pick + rest[:max(0, budget - len(pick))])
    out = []
    for n, (c, l, l2, al) in enumerate(items):
        x, y, cm, ycm, o, a = c[:6]; raw = len(c) > 6
        L = ["H %d%s" % (first_id + n, " %d" % maxsz(len(x), rng) if maxsz else "")]
        if raw or o not in CTOR:
            L += prep(name, 0, x, cm, 1, l)
            if o in BIN or y: L += prep(name, 1, y, ycm, al, l2)
        L.append("M")
        aa = list(a)
        if o == "erase_rng" and not raw: aa[1] = aa[1] - aa[0]
        call = "0 %s %s" % (o, " ".join(map(str, aa)))
        L.append("A " + call if raw else "F%d %s" % (fault, call) if fault else call)
        out.append(L)
    return out, total
