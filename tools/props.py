"""Which workloads and which clauses of the specification decide which property."""
from containers import *
from gen import DEFAULT_W
from modelgen import layouts, prep

SEQ1 = [c for c in SEQ if c not in ("devector", "segmented_devector")]
SEQ2 = ["devector", "segmented_devector"]
OU = [c for c in ASSOC if "unordered" not in c and "multi" not in c]
OM = [c for c in ASSOC if "unordered" not in c and "multi" in c]
UU = [c for c in ASSOC if "unordered" in c and "multi" not in c]
UM = [c for c in ASSOC if "unordered" in c and "multi" in c]
MAPS = [c for c in ASSOC if c.endswith("map")]
UMAPS = [c for c in MAPS if "multi" not in c]
SMALL = [c for c in ALL if c.startswith("small_")]
STATIC = [c for c in ALL if c.startswith("static_")]
HEAP = [c for c in ALL if c not in STATIC]

def w(**k): return k
def weights(**k):
    d = dict(DEFAULT_W); d.update(k); return d

def model(cs, groups, budget, th=False, **k):
    """replay of the model's transitions; budget: histories per container (None: all)"""
    d = []
    for c in cs:
        seq = c in SEQ
        s = dict(kind="model", c=c, groups=tuple(groups), budget=budget)
        s["len"] = (5 if th else 4) if seq else 3
        s["add"] = 4 if th and seq else 3
        s["keys"] = 4 if th or c in OU else 3
        s["wide"] = th
        s.update(k); d.append(s)
    return d

def rnd(cs, count, ws, **k): return [dict(kind="random", c=c, count=count, weights=ws, **k) for c in cs]

def B(th, q, t=None): return max(t or 0, 5 * q) if th else 5 * q if q >= 50 else q

PROPS = {}
def prop(pid, clauses, f, **k): PROPS[pid] = dict(clauses=clauses, suites=f, **k)

SEM = ["elems", "ret", "args", "other", "crash"]
CONTENT = ("ctor", "assign", "ins", "era", "resize", "read")

# long containers: contents of a hundred and more elements, whole blocks inserted and erased
def long(cs, th, q=5, sizes=None, ws=None, cfg={}, **k):
    return [dict(kind="random", c=c, count=B(th, q, 20 * q), weights=ws or weights(alias=2, clear=0), length=B(th, 14, 24), maxlen=n,
                 cfg=dict(cfg, n=5 * n) if c in STATIC else cfg, **k) for c in cs for n in (sizes or ((50, 150) if not th else (50, 150, 400)))]

# other segment sizes and inline capacities
SEG = ["segmented_vector", "segmented_devector"]
def sizes(cs, th, groups, ws, q=300, count=40, ns=(1, 4), **k):
    return [x for n in ns for x in model(cs, groups, B(th, q, 10 * q), th, cfg=dict(n=n), **k) + rnd(cs, B(th, count, 10 * count), ws, length=16, maxlen=12, cfg=dict(n=n))]

# larger contents and every shape of range: overlap cases and segment borders
def shapes(cs, th, q):
    return model(cs, ("era",), B(th, q), ops={"erase_rng", "erase"}, len=B(th, 9, 11), wide=True) \
         + model(cs, ("ins",), B(th, 2 * q), ops={"insert_rng", "insert_nv", "insert_il", "emplace"}, len=B(th, 8, 9), add=B(th, 7, 9), wide=True)
# room for whole ranges at one end of a double-ended container: the elements are shifted a long way
FAR = [(0, 5), (0, 8), (0, 12), (1, 10), (2, 16), (5, 0), (8, 0), (12, 0), (10, 1), (16, 2)]
def far(th, q, **k): return model(["devector"], ("ins",), B(th, q, q * 10), ops={"insert_rng", "insert_nv", "insert_il", "emplace"}, len=B(th, 7, 8), add=B(th, 6, 8), wide=FAR, **k)
# segment tables that are full, or have room at one side only, and grow by more than they hold
def tables(count, top):
    def f(name, rng):
        i = info(name); L = []
        for hid in range(1, count + 1):
            n = rng.randint(0, top); L += ["H %d" % hid, "0 ctor_nv 1 1 %d 5" % n]
            for _ in range(rng.randint(3, 7)):
                m = rng.choice((rng.randint(0, 4), rng.randint(1, max(1, n)), rng.randint(1, top)))
                o = rng.choice(("insert_nv", "insert_nv", "insert_rng", "grow", "grow", "reserve", "assign", "erase_rng", "push", "shrink", "pop", "clear"))
                pos = rng.choice((0, 1, n // 3, n - n // 3, n, n))
                v = rng.randint(1, 99)
                vs = " ".join(map(str, range(1, m + 1)))
                if o == "insert_nv": L.append("0 insert_nv %d %d %d" % (pos, m, v)); n += m
                elif o == "insert_rng": L.append("0 insert_rng %d %d %s" % (pos, rng.choice((1, 3, 5)), vs)); n += m
                elif o == "grow": L.append("0 %s %d%s" % ((rng.choice(("resize_front", "resize_back", "resize")) if i["segdev"] else "resize") + rng.choice(("", "_v")), n + m, " %d" % v)); n += m
                elif o == "reserve": L.append("0 %s %d" % ((rng.choice(("reserve_front", "reserve_back")) if i["segdev"] else "reserve"), m if i["segdev"] else n + m))
                elif o == "assign": L.append("0 assign_nv %d %d" % (m, v) if rng.random() < .5 else "0 assign_rng 3 " + vs); n = m
                elif o == "erase_rng": L.append("0 erase_rng %d %d" % (pos, m)); n = max(0, n - m)
                elif o == "push": L += ["0 %s %d" % (rng.choice(("push_back", "push_front") if i["segdev"] else ("push_back",)), v)] * rng.randint(1, 9)
                elif o == "pop": L += ["0 " + (rng.choice(("pop_back", "pop_front")) if i["segdev"] else "pop_back")] * rng.randint(1, 5)
                else: L.append("0 " + o)
                if o == "clear": n = 0
        return L
    return f
def tabs(th): return [dict(kind="lines", c=c, lines=tables(*x), cfg=g) for c in SEG for g, x in ((dict(n=1), (300 if th else 60, 45)), ({}, (300 if th else 60, 130)), (dict(n=4), (200 if th else 20, 160)))]
NDB = dict(ndebug=1)      # assertions compiled out: nothing may depend on them
prop("C01", SEM, lambda th: rnd(SEQ1, B(th, 40, 300), weights(), length=14, cfg=NDB) + model(SEQ1, CONTENT, B(th, 2500), th) + shapes(SEQ1, th, 600) + sizes(["segmented_vector", "small_vector"], th, CONTENT, weights()) + [x for x in tabs(th) if x["c"] in SEQ1] + long(SEQ1, th) + rnd(SEQ1, B(th, 150, 1500), weights(), length=B(th, 14, 30), maxlen=B(th, 9, 16)))
prop("C02", SEM, lambda th: rnd(SEQ2, B(th, 80, 300), weights(), length=14, cfg=NDB) + model(SEQ2, CONTENT, B(th, 6000), th) + shapes(SEQ2, th, 2500) + far(th, 1500) + sizes(["segmented_devector"], th, CONTENT, weights(), q=600) + [x for x in tabs(th) if x["c"] in SEQ2] + long(SEQ2, th, 10) + rnd(SEQ2, B(th, 300, 2000), weights(), length=B(th, 16, 30), maxlen=B(th, 9, 16)))
ASG = ("ctor", "ins", "era", "read")
def assoc(cs): return lambda th: rnd(cs, B(th, 40, 300), weights(), length=14, cfg=NDB) + model(cs, ASG, B(th, 2500), th) + sizes([c for c in cs if c in SMALL], th, ASG, weights(), ns=(1, 6)) + long(cs, th) + rnd(cs, B(th, 150, 1500), weights(), length=B(th, 16, 30))
prop("C03", SEM + ["assoc"], assoc(OU))
prop("C04", SEM + ["assoc"], assoc(OM))
prop("C05", SEM + ["assoc"], assoc(UU))
prop("C06", SEM + ["assoc"], assoc(UM))

# ---- C07 lookups
LOOK = {"lookup", "look1", "comp", "nth", "at", "erase_key"}
prop("C07", ["ret", "hetero", "elems", "exc", "crash"],
     lambda th: model(OU + OM, ("read", "ins", "era"), B(th, 2500, 12000), ops=LOOK, len=4, keys=B(th, 5, 6)) + model(UU + UM, ("read", "ins", "era"), B(th, 2000, 8000), ops=LOOK, len=3, keys=4)
     + rnd(ASSOC, B(th, 60, 600), w(ctor=1, ins=5, era=2, look=8, map=1, read=1), length=20) + long(ASSOC, th, 3, ws=w(ctor=1, ins=5, era=2, look=12, map=1)))

# ---- C08 keyed access of maps
MAPOPS = {"try_emplace", "htry_emplace", "ins_assign", "hins_assign", "sub", "at", "insert_p", "hinsert_p", "setm"}
prop("C08", ["elems", "ret", "args", "hetero", "assoc", "exc", "crash"],
     lambda th: model(UMAPS, ("ins", "read"), B(th, 5000), ops=MAPOPS) + model(UMAPS, ("ins",), B(th, 800, 4000), ops=MAPOPS, fault=63)
     + rnd(UMAPS, B(th, 200, 1500), w(ctor=1, map=12, ins=2, era=2, write=1), length=20) + long(UMAPS, th, ws=w(ctor=1, map=12, ins=2, era=2, write=1)))

# ---- C09 capacity
prop("C09", ["cap", "struct", "crash"],
     lambda th: model(ALL, ("ctor", "assign", "ins", "era", "resize", "cap", "binary"), B(th, 1500, 20000), th)
     + rnd(HEAP, B(th, 80, 800), weights(cap=8), length=16, maxlen=12) + long(ALL, th, 2, ws=weights(cap=6)) + sizes(SEG, th, ("ins", "era", "resize", "cap"), weights(cap=8)) + tabs(th), modules=lambda th: [("SflStore.tla", "SflStore.cfg" if th else "SflStoreQ.cfg")])

# ---- C10 inline storage
prop("C10", ["inline", "struct", "aligned", "crash"],
     lambda th: model(SMALL + STATIC, ("ctor", "assign", "ins", "era", "resize", "cap", "binary"), B(th, 1500, 12000), th)
     + rnd(SMALL + STATIC, B(th, 60, 600), weights(cap=6, whole=5, swap=5), length=16)
     + rnd(SMALL, B(th, 60, 400), weights(cap=6, whole=5, swap=5), length=16, cfg=dict(n=5, apr=0))
     + rnd(SMALL, B(th, 30, 200), weights(cap=6), length=12, cfg=dict(n=0))
     # elements with an alignment of their own
     + rnd(SMALL + STATIC, B(th, 20, 200), weights(cap=6, whole=5, swap=5), length=14, cfg=dict(al=64)))

# ---- C11 object lifetime
ALLG = ("ctor", "assign", "ins", "era", "resize", "cap", "alias", "binary")
def faulty(cs, budget, th, groups=ALLG, mask=63, **k): return model(cs, groups, budget, th, fault=mask, **k)
prop("C11", ["life", "leak", "crash"],
     lambda th: faulty(ALL, B(th, 420, 4000), th) + faulty(ALL, B(th, 200, 2000), th, cfg=dict(el=2))
     + faulty(SEQ2, B(th, 1500, 8000), th) + far(th, 500, fault=63) + rnd(ALL, B(th, 40, 400), weights(), fault=0.3) + long(ALL, th, 1, (48,), fault=0.08, cfg=dict(el=2)))

# ---- C12 memory and allocators
prop("C12", ["mem", "blocks", "leakmem", "alloc", "crash"],
     lambda th: faulty(HEAP, B(th, 400, 4000), th) + faulty(HEAP, B(th, 250, 3000), th, cfg=dict(apr=0), groups=("binary", "ctor", "assign", "cap"))
     + rnd(HEAP, B(th, 40, 400), weights(cap=6, whole=5, swap=4), fault=0.2) + rnd(HEAP, B(th, 40, 400), weights(cap=6, whole=5, swap=4), fault=0.2, cfg=dict(apr=0))
     + tabs(th)
     # moves that may fail: exchanges and transfers that stop half-way
     + faulty(HEAP, B(th, 200, 2500), th, groups=("binary",), ops={"swap", "swap_nm", "move", "ctor_movea", "copy"}, cfg=dict(el=2))
     + faulty(HEAP, B(th, 100, 1500), th, groups=("binary",), ops={"move", "copy"}, cfg=dict(apr=3))
     + faulty(HEAP, B(th, 150, 2000), th, groups=("cap", "ins", "resize"), cfg=dict(el=2))
     + faulty(SEQ2, B(th, 1200, 8000), th, groups=("cap", "ins", "resize"), cfg=dict(el=2), add=5))

# ---- C13 copy, move, swap
prop("C13", ["elems", "other", "alloc", "comp", "ret", "crash"],
     lambda th: model(ALL, ("binary",), B(th, 700, 8000), th) + model(HEAP, ("binary",), B(th, 400, 4000), th, cfg=dict(apr=0))
     + [x for a in (2, 3, 4) for x in model(HEAP, ("binary",), B(th, 200, 3000), th, cfg=dict(apr=a), ops={"copy", "move", "swap", "swap_nm", "self_copy", "self_swap"})]
     + rnd(ALL, B(th, 50, 400), w(ctor=2, ins=4, era=2, whole=8, swap=8, assign=2, cap=2)) + long(ALL, th, 2, ws=w(ctor=2, ins=4, era=2, whole=8, swap=8, assign=2, cap=2)) + rnd(HEAP, B(th, 40, 400), w(ctor=2, ins=4, era=2, whole=8, swap=8, assign=2, cap=2), cfg=dict(apr=0)))

# ---- C14 basic guarantee
prop("C14", ["basic", "struct", "crash", "leak", "life", "mem", "blocks", "leakmem"],
     lambda th: faulty(ALL, B(th, 450, 4000), th) + faulty(SEQ2, B(th, 700, 5000), th, groups=("cap", "ins", "resize", "era"), cfg=dict(el=2), add=4) + faulty(ALL, B(th, 150, 1500), th, cfg=dict(el=2)) + far(th, 400, fault=63) + long(ALL, th, 1, (48,), fault=0.08, cfg=dict(el=2)) + rnd(ALL, B(th, 30, 300), weights(), fault=0.4)
     # comparators and key equalities whose own copies may fail
     + faulty(ASSOC, B(th, 100, 1500), th, groups=("ctor", "assign", "binary"), mask=8, cfg=dict(tc=1), ops={"ctor_def", "ctor_rng", "ctor_il", "copy", "move", "ctor_copy", "ctor_copya", "ctor_move", "ctor_movea", "il"})
     + rnd(ASSOC, B(th, 20, 300), w(ctor=4, ins=4, whole=5, assign=3, cap=2, era=2), fault=.4, mask=8, cfg=dict(tc=1))
     # elements that can only be moved, by moves that may fail
     + rnd(ALL, B(th, 20, 300), weights(cap=5, whole=5), fault=.4, cfg=dict(mo=1, el=2)))

# ---- C15 strong guarantee
STRONG = {"reserve", "reserve_front", "reserve_back", "shrink", "push_back", "push_back_m", "emplace_back", "push_front", "push_front_m", "emplace_front"}
def strong(th):
    cs = [c for c in SEQ if c != "static_vector"] + [c for c in SMALL if c not in SEQ]
    return (model(cs, ("ins", "cap"), B(th, 900, 8000), th, ops=STRONG, fault=63) + model(cs, ("ins", "cap"), B(th, 500, 5000), th, ops=STRONG, fault=63, cfg=dict(el=2))
            + rnd(cs, B(th, 60, 500), w(ctor=1, ins=4, end=5, cap=8, era=2), fault=0.5)
            + model(OU + OM + UU + UM, ("ins",), B(th, 250, 2500), th, fault=63))
prop("C15", ["strong", "basic", "crash"], strong)

# ---- C16 aliasing
prop("C16", ["elems", "ret", "life", "assoc", "crash"],
     lambda th: model(ALL, ("alias",), B(th, 2500, 20000), th) + model(["devector"], ("alias",), B(th, 800, 8000), th, wide=FAR, len=5) + rnd(ALL, B(th, 60, 500), weights(alias=15), length=14) + long(ALL, th, 2, ws=weights(alias=15)))

# ---- C17 reference stability
prop("C17", ["stable", "crash"],
     lambda th: model(ALL, ("ins", "era", "resize", "cap", "binary", "read"), B(th, 1500, 15000), th) + model(HEAP, ("binary",), B(th, 200, 2000), th, cfg=dict(apr=0))
     + rnd(ALL, B(th, 60, 600), weights(end=10, cap=5), length=18, maxlen=14) + long(ALL, th, 2, ws=weights(end=10, cap=5, whole=4, swap=4)) + sizes(SEG, th, ("ins", "era", "resize", "cap"), weights(end=10, cap=5), q=150))

# ---- C18 iterators and views
def deep(name, rng):
    """long containers whose iterators cross many segments"""
    L = []; i = info(name); hid = 0
    for ln in (0, 1, 2, 3, 5, 7, 11):
        if i["static"] and ln > 8: continue
        for f, b in ([(0, 0), (1, 1), (2, 3), (3, 2), (5, 0)] if i["segdev"] or i["dev"] else [(0, 0), (0, 2)]):
            if i["static"] and ln + b > 8: continue
            hid += 1
            L += ["H %d" % hid]
            if i["seq"]:
                L += ["0 ctor_rng %d 1 3 %s" % (0 if i["static"] else 1, " ".join(map(str, range(1, f + ln + b + 1))))] + ["0 pop_front"] * f + ["0 pop_back"] * b
            else:
                L += ["0 ctor_rng 1 0 1 3 %s" % " ".join(str(10000 * k + 100 + (k if i["map"] else 0)) for k in range(ln))]
            L += ["0 views"]
            for x in range(ln + 1):
                for y in range(ln + 1): L.append("0 iter %d %d" % (x, y))
    # iterators that are many segments apart
    for ln in (40, 130):
        if i["static"]: break
        hid += 1
        L += ["H %d" % hid]
        L += ["0 ctor_rng 1 1 3 %s" % " ".join(map(str, range(1, ln + 1)))] if i["seq"] else ["0 ctor_rng 1 0 1 3 %s" % " ".join(str(10000 * k + 100 + (k % 90 if i["map"] else 0)) for k in range(ln))]
        L += ["0 iter %d %d" % (rng.randint(0, ln), rng.randint(0, ln)) for _ in range(90)]
    return L
prop("C18", ["views", "iter", "ret", "crash"],
     lambda th: [dict(kind="lines", c=c, lines=deep) for c in ALL] + model(ALL, ("views", "read"), B(th, 800, 8000), th)
     + rnd(ALL, B(th, 40, 400), weights(views=10, read=6), length=16, maxlen=14) + long(ALL, th, 2, ws=weights(views=20, read=6))
     + [dict(kind="lines", c=c, lines=deep, cfg=dict(n=n)) for c in SEG for n in (1, 2, 4, 8)])

# ---- C19 comparison and erase / erase_if
def c19(th):
    return (model(SEQ, ("cmp",), B(th, 1200), alpha=1, len=3, keys=2) + model(OU + UU, ("cmp",), B(th, 1200, 8000), alpha=1, len=3, keys=3)
            + model(OM + UM, ("cmp",), B(th, 1200, 8000), alpha=1, len=3, keys=2)
            + model(ALL, ("era",), B(th, 600, 4000), ops={"erase_if", "nm_erase"}) + rnd(ALL, B(th, 60, 500), w(ctor=2, ins=5, algo=6, cmp=6, whole=3, era=1)) + long(ALL, th, 2, ws=w(ctor=2, ins=5, algo=6, cmp=6, whole=3, era=1)))
prop("C19", ["ret", "elems", "life", "crash"], c19)

# ---- C20 errors
def huge(name, rng):
    """counts no container can reach: beyond max_size(), or so large that size() + n wraps around"""
    L = []; i = info(name); hid = 0
    BIG = (-1, -2, -3, -4, -6, 10, 11, 17, 300)
    ops = []
    if i["seq"]:
        ops = ["resize %d", "resize_v %d 91", "assign_nv %d 91", "insert_nv 0 %d 91", "insert_nv 2 %d 91", "insert_nv 9 %d 91"]
        if i["dev"] or i["segdev"]:
            ops += ["reserve_front %d", "reserve_back %d", "resize_front %d", "resize_back %d", "resize_front_v %d 91", "resize_back_v %d 91"]
    if not (i["dev"] or i["segdev"] or i["compact"]): ops.append("reserve %d")
    for mx in (0, 9):
        for n in BIG:
            if mx == 0 and n > 0: continue
            for op in ops:
                for ln in (0, 1, 3, 4):
                    for lay in layouts(name, False)[:4]:
                        hid += 1
                        base = [10 * k + 1 for k in range(1, ln + 1)] if i["seq"] else [10000 * k + 101 * (1 if i["map"] else 0) for k in range(ln)]
                        L += ["H %d%s" % (hid, " 9" if mx else "")] + prep(name, 0, base, 0, 1, lay) + ["M", "0 " + op % n]
            if i["seq"]:
                for o in ("ctor_n 1 1 %d", "ctor_n 0 1 %d", "ctor_nv 1 2 %d 91"):
                    hid += 1; L += ["H %d%s" % (hid, " 9" if mx else ""), "M", "0 " + o % n]
    return L
def c20(th):
    mx = lambda n, r: r.randint(4, 9)
    heapseq = [c for c in SEQ if c != "static_vector"]
    return (model(SEQ + UMAPS, ("read",), B(th, 600), ops={"at"})
            + model(heapseq, ("ctor", "assign", "ins", "resize", "cap"), B(th, 1500, 8000), th, maxsz=mx)
            + [dict(kind="lines", c=c, lines=huge) for c in HEAP]
            + model([c for c in HEAP if c not in SEQ], ("ins", "ctor", "cap"), B(th, 300, 4000), th, maxsz=mx)
            + rnd(heapseq, B(th, 150, 1000), weights(end=8, resize=6, cap=6), maxsz=10, maxlen=14, length=18))
prop("C20", ["exc", "crash", "elems", "life", "leak"], c20)

# ---- C21 input ranges
RNG = {"ctor_rng", "assign_rng", "insert_rng", "ctor_il", "assign_il", "insert_il", "il"}
prop("C21", ["elems", "ret", "range", "life", "assoc", "crash"],
     lambda th: model(ALL, ("ctor", "assign", "ins"), B(th, 1500, 10000), th, ops=RNG) + model(ALL, ("ctor", "assign", "ins"), B(th, 150, 1200), th, ops=RNG, fault=63) + long(ALL, th, 2, ws=w(ctor=6, assign=6, ins=6, whole=1)))

# ---- C22 complexity
def big(name, rng):
    """large containers: growth, single calls at every place, lookups; contents are not logged"""
    i = info(name); L = []; hid = 0
    for n in (60, 300, 1500):
        if i["compact"] and n > 400: continue
        at = [0, 1, n // 4, n // 2, n - 2]
        if i["seq"]:
            two = i["dev"] or i["segdev"]
            fills = ["bulk_pb %d" % n] + (["bulk_pf %d" % n, "bulk_alt %d" % n] if two else [])
            for fill in fills:
                hid += 1
                L += ["H %d" % hid, "0 ctor_def %d 1" % (0 if i["static"] else 1), "1 quiet"]
                L += ["0 " + fill, "0 bulk_pb %d" % (n // 3), "0 pop_back"] + (["0 pop_front", "0 bulk_pf %d" % (n // 3), "0 bulk_q %d 0" % n, "0 bulk_q %d 1" % n, "0 bulk_alt %d" % n] if two else [])
                if not i["static"] and not i["compact"]:
                    L += ["0 reserve_front %d" % (4 * n), "0 reserve_back %d" % (4 * n)] if two else ["0 reserve %d" % (4 * n)]
                for p in at:
                    L += ["0 %s %d 5" % (rng.choice(("emplace", "insert", "insert_m")), p), "0 erase %d 0" % p, "0 erase %d 1" % p, "0 insert_nv %d 3 5" % p, "0 insert_rng %d %d 7 8 9" % (p, rng.randint(1, 4)), "0 erase_rng %d 2" % p]
                L += ["0 push_back 5", "0 push_back_m 5", "0 emplace_back 5", "0 pop_back", "0 resize %d" % (n + 5), "0 resize %d" % (n - 3), "0 resize_v %d 4" % (n + 2), "0 erase_if 7 3"]
                if two: L += ["0 push_front 5", "0 push_front_m 5", "0 emplace_front 5", "0 pop_front", "0 resize_front %d" % (n + 5), "0 resize_back %d" % (n + 8), "0 resize_front %d" % (n - 3)]
                L += ["0 copy"] if i["static"] else ["0 shrink"]
                L += ["1 copy", "0 pop_back" if n else "", "0 cmp_eq", "0 swap", "0 clear"]
        else:
            for mul in (1, 7, 9972):
                hid += 1
                L += ["H %d" % hid, "0 ctor_def %d 0 1" % (1 if i["static"] else 3), "1 quiet", "0 bulk_ins %d %d 3" % (n, mul)]
                keys = [rng.randrange(0, 9973) for _ in range(6)] + [(k * mul + 3) % 9973 for k in (0, 1, n // 2, n - 1)]
                for k in keys:
                    L += ["0 look1 %d %d" % (k, q) for q in range(6 if i["ordered"] else 3)]
                for k in keys[:5]:
                    v = k * 10000 + 100
                    L += ["0 insert %d" % v, "0 emplace %d" % (v + 30000)] + ["0 hinsert %d %d" % (h, v + 10000 * d) for h in (0, n // 2, n) for d in (2, 4000)] + ["0 hemplace %d %d" % (rng.randrange(n), v + 60000)] + (["0 insert_m %d" % (v + 70000)] if not i["static"] else [])
                    if i["map"] and not i["multi"]: L += ["0 try_emplace %d 0" % v, "0 ins_assign %d 0" % v, "0 sub %d 0 5" % v]
                    L += ["0 erase_key %d 0" % k]
                for p in at: L += ["0 erase %d 0" % p]
                L += ["0 erase_if 70000 0", "1 copy", "0 erase 0 0", "0 cmp_eq", "0 swap", "0 clear"]
    return [l for l in L if l]
BIGCFG = dict(n=2600)
prop("C22", ["cost", "linear", "crash"],
     lambda th: [dict(kind="lines", c=c, lines=big, cfg=BIGCFG if c in STATIC else {}) for c in ALL]
     + model(ALL, ("ins", "era", "resize", "read", "binary"), B(th, 700, 6000), th) + rnd(ALL, B(th, 60, 500), weights(end=8, look=6), length=20, maxlen=14))

# ---- C23 preconditions are asserted
M3 = dict(n=3)
prop("C23", ["accept", "crash"],
     lambda th: [dict(kind="model", c=c, groups=("misuse",), budget=B(th, 500, 4000), len=3, add=2, keys=3, wide=th, cfg=dict(M3, apr=0) if c in STATIC + SMALL else dict(apr=0)) for c in ALL]
     + model(ALL, ("ins", "era", "resize", "read", "cap"), B(th, 250, 2500), th))

# ---- C24 without exceptions
NX = dict(nx=1)
def c24(th):
    mx = lambda n, r: r.randint(4, 9)
    heapseq = [c for c in SEQ if c != "static_vector"]
    L = []
    for cfg in (NX, dict(nx=1, ndebug=1, cc="clang++")):
        L += (model(ALL, ("ctor", "assign", "ins", "era", "resize", "cap", "binary", "read"), B(th, 350, 3000), th, cfg=cfg)
              + model(SEQ + UMAPS, ("read",), B(th, 120, 600), ops={"at"}, cfg=cfg)
              + model(heapseq, ("ctor", "assign", "ins", "resize", "cap"), B(th, 150, 1500), th, maxsz=mx, cfg=cfg)
              + rnd(ALL, B(th, 20, 200), weights(), length=14, cfg=cfg))
    return L + [dict(kind="lines", c=c, lines=huge, cfg=NX) for c in ("vector", "devector", "segmented_vector", "small_vector", "compact_vector")]
prop("C24", SEM + ["exc", "leak", "life", "struct", "assoc"], c24)

# ---- C25 no copies behind the caller's back
MO = dict(mo=1)
prop("C25", ["copies", "crash", "elems", "other", "life", "leak"],
     lambda th: model(ALL, ("ctor", "assign", "ins", "era", "resize", "cap", "alias", "binary", "read"), B(th, 900, 9000), th)
     + model(HEAP, ("binary",), B(th, 200, 2000), th, cfg=dict(apr=0)) + model(HEAP, ("binary",), B(th, 120, 1000), th, cfg=dict(apr=4))
     + rnd(ALL, B(th, 60, 600), weights(cap=5, whole=4, swap=4, alias=3), length=18, maxlen=12) + long(ALL, th, 2)
     # elements that cannot be copied: every call that does not hand over something to copy exists for them
     + model(ALL, ("ctor", "assign", "ins", "era", "resize", "cap", "alias", "binary"), B(th, 150, 2000), th, cfg=MO) + rnd(ALL, B(th, 50, 400), weights(cap=5, whole=6, swap=5, alias=3), length=18, maxlen=12, cfg=MO)
     + rnd(ALL, B(th, 20, 200), weights(cap=5, whole=6, swap=5), fault=.15, cfg=dict(MO, el=2)))

# ---- C26 const calls write nothing
RO = dict(ro=1)
CONSTOPS = {"views", "iter", "cmp", "cmp_eq", "idx", "front", "back", "nth", "iof", "lookup", "look1", "comp", "at", "copy", "ctor_copy", "ctor_copya"}
prop("C26", ["writes"],
     lambda th: model(ALL, ("read",), B(th, 400, 6000), th, cfg=RO) + model(ALL, ("binary",), B(th, 150, 3000), th, ops=CONSTOPS, cfg=RO)
     + rnd(ALL, B(th, 50, 400), weights(read=6, look=10, cmp=6, views=6, map=8, whole=8), length=20, maxlen=14, cfg=RO) + long(ALL, th, 2, ws=weights(read=6, look=10, cmp=6, views=6), cfg=RO),
     modules=lambda th: [("SflReaders.tla", "SflReaders_none.cfg")])

# ---- C27 no undefined behaviour
SAN = dict(san=1, cc="clang++")
def c27(th):
    return (model(ALL, ALLG, B(th, 250, 4000), th, cfg=SAN) + faulty(ALL, B(th, 60, 1000), th, cfg=SAN)
            + [dict(s, cfg=SAN) for s in shapes(SEQ2 + SEG, th, 150) + far(th, 200) + [dict(kind="lines", c=c, lines=deep) for c in SEQ]]
            + rnd(ALL, B(th, 50, 500), weights(cap=5, alias=3, views=3), fault=.1, length=16, maxlen=12, cfg=SAN) + long(ALL, th, 2, cfg=SAN)
            + [dict(s, cfg=dict(s["cfg"], **SAN)) for s in tabs(th)])
prop("C27", ["crash", "mem", "life", "leak", "leakmem"], c27)
