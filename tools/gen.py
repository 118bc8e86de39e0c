"""Random operation histories.  The generator knows argument shapes only; the runner
normalises positions and skips calls whose documented preconditions do not hold."""
import random
from containers import info

class Gen:
    def __init__(self, name, rng, maxlen=9):
        self.i = info(name); self.name = name; self.r = rng; self.maxlen = maxlen
        self.long = maxlen > 40          # long containers: many values, far positions, whole blocks at once
        self.tag = 0

    # ---- values
    def val(self):
        r = self.r
        if self.i["seq"]: return r.randint(1, 900 if self.long else 30)
        self.tag = self.tag % 97 + 1
        return r.randint(0, 2 * self.maxlen if self.long else 6) * 10000 + self.tag * 100 + (r.randint(1, 9) if self.i["map"] else 0)
    def vals(self, hi=4):
        if self.long and self.r.random() < .6: hi = self.maxlen if hi > 5 else self.maxlen // 3
        return [self.val() for _ in range(self.r.randint(0, hi))]
    def few(self, hi): return self.r.randint(0, self.maxlen // 2) if self.long and self.r.random() < .5 else self.r.randint(0, hi)
    def key(self): return self.r.randint(0, 2 * self.maxlen if self.long else 7)
    def pos(self):
        if self.long: return self.r.choice([0, 1, self.r.randint(0, self.maxlen), self.r.randint(0, self.maxlen)])
        return self.r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11])
    def al(self): return self.r.choice([1, 2, 3])
    def cat(self): return self.r.randint(0, 6)
    def mapped(self): return self.r.randint(1, 9)

    def ops(self):
        """name -> (group, argument builder)"""
        i, g = self.i, self
        r = self.r
        O = {}
        def add(group, name, f=lambda: []): O[name] = (group, f)
        heap = not i["static"]
        # construction and whole-container operations
        if i["seq"]:
            c0 = lambda: ([r.randint(0, 1), g.al()] if heap else [0, 1])
            add("ctor", "ctor_def", c0)
            add("ctor", "ctor_n", lambda: c0() + [g.few(6)])
            add("ctor", "ctor_nv", lambda: c0() + [g.few(6), g.val()])
            add("ctor", "ctor_rng", lambda: c0() + [g.cat()] + g.vals(7))
            add("ctor", "ctor_il", lambda: c0() + g.vals(6))
            add("assign", "assign_nv", lambda: [g.few(7), g.val()])
            add("assign", "assign_rng", lambda: [g.cat()] + g.vals(7))
            add("assign", "assign_il", lambda: g.vals(6))
            for n in ("emplace", "insert", "insert_m"): add("ins", n, lambda: [g.pos(), g.val()])
            add("ins", "insert_nv", lambda: [g.pos(), g.few(4), g.val()])
            add("ins", "insert_rng", lambda: [g.pos(), g.cat()] + g.vals(5))
            add("ins", "insert_il", lambda: [g.pos()] + g.vals(4))
            for n in ("emplace_back", "push_back", "push_back_m"): add("end", n, lambda: [g.val()])
            add("end", "pop_back")
            add("resize", "resize", lambda: [r.randint(0, g.maxlen)])
            add("resize", "resize_v", lambda: [r.randint(0, g.maxlen), g.val()])
            for n in ("emplace_al", "emplace_alm", "insert_al"): add("alias", n, lambda: [g.pos(), g.pos()])
            add("alias", "insert_nv_al", lambda: [g.pos(), g.few(4), g.pos()])
            for n in ("push_back_al", "emplace_back_al", "emplace_back_alm"): add("alias", n, lambda: [g.pos()])
            add("alias", "resize_v_al", lambda: [r.randint(0, g.maxlen), g.pos()])
            add("read", "at", lambda: [g.pos(), r.randint(0, 1)])
            for n in ("idx", "nth"): add("read", n, lambda: [g.pos()])
            add("read", "front"); add("read", "back")
            add("write", "set", lambda: [g.pos(), r.randint(0, 3), g.val()])
            add("algo", "nm_erase", lambda: [g.val()])
            add("algo", "erase_if", lambda: [r.randint(2, 4), r.randint(0, 2)])
            if i["dev"] or i["segdev"]:
                for n in ("emplace_front", "push_front", "push_front_m"): add("end", n, lambda: [g.val()])
                add("end", "pop_front")
                for n in ("push_front_al", "emplace_front_al", "emplace_front_alm"): add("alias", n, lambda: [g.pos()])
                for n in ("resize_front", "resize_back"): add("resize", n, lambda: [r.randint(0, g.maxlen)])
                for n in ("resize_front_v", "resize_back_v"): add("resize", n, lambda: [r.randint(0, g.maxlen), g.val()])
                for n in ("resize_front_v_al", "resize_back_v_al"): add("alias", n, lambda: [r.randint(0, g.maxlen), g.pos()])
                for n in ("reserve_front", "reserve_back"): add("cap", n, lambda: [r.randint(0, 2 * g.maxlen) if g.long else r.randint(0, 14)])
        else:
            c0 = lambda: [r.randint(0, 3), r.randint(0, 1), g.al()]
            add("ctor", "ctor_def", c0)
            add("ctor", "ctor_rng", lambda: c0() + [g.cat()] + g.vals(6))
            add("ctor", "ctor_il", lambda: c0() + g.vals(6))
            for n in ("insert", "insert_m", "emplace"): add("ins", n, lambda: [g.val()])
            for n in ("hinsert", "hinsert_m", "hemplace"): add("ins", n, lambda: [g.pos(), g.val()])
            add("ins", "insert_rng", lambda: [g.cat()] + g.vals(5))
            add("ins", "insert_il", lambda: g.vals(5))
            add("alias", "insert_al", lambda: [g.pos()]); add("alias", "emplace_al", lambda: [g.pos()])
            add("alias", "hinsert_al", lambda: [g.pos(), g.pos()]); add("alias", "erase_al", lambda: [g.pos()])
            add("era", "erase_key", lambda: [g.key(), r.randint(0, 1)])
            add("look", "lookup", lambda: [g.key(), r.randint(0, 3)])
            add("look", "look1", lambda: [g.key(), r.randint(0, 5 if i["ordered"] else 2)])
            add("read", "nth", lambda: [g.pos()])
            add("look", "comp", lambda: [g.key(), g.key()])
            add("algo", "erase_if", lambda: [r.choice([200, 300, 20000, 7]), r.choice([0, 100])])
            if i["map"]:
                add("ins", "insert_p", lambda: [g.val()]); add("ins", "hinsert_p", lambda: [g.pos(), g.val()])
                add("write", "setm", lambda: [g.pos(), g.mapped()])
                if not i["multi"]:
                    add("map", "try_emplace", lambda: [g.val(), r.randint(0, 3)])
                    add("map", "htry_emplace", lambda: [g.val(), r.randint(0, 3), g.pos()])
                    add("map", "ins_assign", lambda: [g.val(), r.randint(0, 2)])
                    add("map", "hins_assign", lambda: [g.val(), r.randint(0, 2), g.pos()])
                    add("map", "sub", lambda: [g.val(), r.randint(0, 3), r.choice([0, g.mapped()])])
                    add("map", "at", lambda: [g.key(), r.randint(0, 3), r.choice([0, g.mapped()])])
                    for n in ("try_emplace_al", "ins_assign_al", "ins_assign_kal"): add("alias", n, lambda: [g.pos(), g.val()])
            elif not i["multi"]:
                add("ins", "insert_k", lambda: [g.key() * 10000]); add("ins", "hinsert_k", lambda: [g.pos(), g.key() * 10000])
        # common
        for n in ("copy", "move", "ctor_copy", "ctor_move"): add("whole", n)
        if heap:
            add("whole", "ctor_copya", lambda: [g.al()]); add("whole", "ctor_movea", lambda: [g.al()])
        add("whole", "self_copy"); add("whole", "self_swap")
        for n in ("swap", "swap_nm"): add("swap", n)
        add("assign", "il", lambda: g.vals(6))
        add("clear", "clear")
        add("era", "erase", lambda: [g.pos(), r.randint(0, 1)]); add("era", "erase_rng", lambda: [g.pos(), g.few(4)])
        if heap and not i["compact"]:
            add("cap", "shrink")
            if not (i["dev"] or i["segdev"]): add("cap", "reserve", lambda: [r.randint(0, 2 * g.maxlen) if g.long else r.randint(0, 14)])
        add("cmp", "cmp"); add("cmp", "cmp_eq"); add("views", "views"); add("views", "iter", lambda: [g.pos(), g.pos()])
        return O

DEFAULT_W = {"ctor": 2, "assign": 2, "ins": 8, "end": 5, "resize": 3, "alias": 0, "read": 1, "write": 1, "algo": 1,
             "cap": 3, "look": 3, "map": 5, "whole": 2, "swap": 2, "clear": 1, "era": 4, "cmp": 1, "views": 1}

def random_histories(name, seed, count, length, weights=None, fault=0.0, mask=63, maxlen=9, first_id=1, start=True, maxsz=None):
    rng = random.Random("%s/%s" % (name, seed))
    g = Gen(name, rng, maxlen)
    ops = g.ops()
    w = dict(DEFAULT_W)
    if weights is not None: w = weights
    groups = {}
    for n, (gr, f) in ops.items(): groups.setdefault(gr, []).append(n)
    gl = [x for x in groups if w.get(x, 0) > 0]
    gw = [w[x] for x in gl]
    out = []
    for h in range(count):
        out.append("H %d%s" % (first_id + h, " %d" % maxsz if maxsz else ""))
        if start:      # begin from some content
            n = "ctor_rng"
            for s in (0, 1):
                if rng.random() < .8: out.append("%d %s %s" % (s, n, " ".join(map(str, ops[n][1]()))))
        for _ in range(rng.randint(max(1, length // 2), length)):
            gr = rng.choices(gl, gw)[0]
            n = rng.choice(groups[gr])
            s = 0 if rng.random() < .75 else 1
            line = "%d %s %s" % (s, n, " ".join(map(str, ops[n][1]())))
            if fault and rng.random() < fault: line = "F%d %s" % (mask, line)
            out.append(line)
    return out
