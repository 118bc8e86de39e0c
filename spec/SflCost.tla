------------------------------ MODULE SflCost ------------------------------
(***************************************************************************)
(* Cost bounds (documented complexity) and reference stability.            *)
(* Counters: <<copy ctor, move ctor, copy assign, move assign, value ctor, *)
(*   dtor, comparator calls, allocations, deallocations, keys built from a *)
(*   heterogeneous key, element ==/< calls, failure points>>.  One element *)
(*   of a map is two counted objects (w = 2).                              *)
(* Constants are generous: the clause separates complexity classes, it     *)
(* does not pin an implementation.                                         *)
(***************************************************************************)
EXTENDS SflCore

RECURSIVE Log2(_)
Log2(k) == IF k <= 1 THEN 0 ELSE 1 + Log2(k \div 2)

Work(n) == n[1] + n[2] + n[3] + n[4]

\* how many element operations a single-element insertion / erasure at p may need
ShiftAt(t, o, p0, pos) ==
    IF t.fam \in {"dev", "segdev"}
    THEN IF o \in {"erase", "erase_rng"} \/ Min(p0.f, p0.b) > 0 THEN Min(pos, p0.z - pos) ELSE p0.z
    ELSE p0.z - pos

\* the same for an insertion of d elements
ShiftN(t, p0, pos, d) ==
    IF t.fam \in {"dev", "segdev"} THEN IF Min(p0.f, p0.b) >= d THEN Min(pos, p0.z - pos) ELSE p0.z
    ELSE p0.z - pos

CostOK(t, o, a, p, q, p2, q2, n) ==
    LET w == IF t.map THEN 2 ELSE 1
        grew == p2.c # p.c \/ p2.st # p.st
        work == Work(n)
        lg == Log2(p.z + 1)
    IN
    CASE t.fam = "compact" /\ o = "bulk_pb" -> TRUE
      [] t.fam = "compact" /\ o \notin ReadOps \union SwapOps \union {"clear"} -> work <= 8 * (p.z + q.z + p2.z + 4)
      [] o \in {"emplace", "insert", "insert_m"} /\ t.seq ->
            work <= (IF grew THEN 2 * p.z ELSE 2 * ShiftAt(t, o, p, a[1])) + 6
      [] o = "erase" /\ t.seq -> work <= 2 * ShiftAt(t, o, p, a[1]) + 2 /\ n[8] = 0
      [] o = "erase_rng" /\ t.seq ->
            work <= 2 * (IF t.fam \in {"dev", "segdev"} THEN Min(a[1], p.z - a[2]) ELSE p.z - a[2]) + 2
      [] o \in {"insert_nv", "insert_il"} /\ t.seq ->
            work <= (IF grew THEN 3 * p2.z ELSE 3 * ((p2.z - p.z) + ShiftN(t, p, a[1], p2.z - p.z))) + 6
      [] o = "insert_rng" /\ t.seq /\ a[2] > 0 ->
            work <= (IF grew THEN 4 * p2.z ELSE 4 * ((p2.z - p.z) + ShiftN(t, p, a[1], p2.z - p.z))) + 6
      [] o \in {"push_back", "push_back_m", "emplace_back", "push_front", "push_front_m", "emplace_front"} ->
            work <= (IF t.fam = "seg" \/ t.fam = "segdev" \/ RoomFor(t, o, p) > 0 THEN 0 ELSE 2 * p.z) + 2
      [] o \in {"pop_back", "pop_front"} -> work = 0 /\ n[6] = 1 /\ n[8] = 0
      [] o = "clear" -> work = 0 /\ n[6] = w * p.z
      [] o \in {"resize", "resize_v", "resize_back", "resize_back_v", "resize_front", "resize_front_v"} ->
            IF p2.z <= p.z THEN work <= 1 /\ n[6] <= p.z - p2.z + 1
            ELSE work <= (IF grew THEN 2 * p2.z ELSE 2 * (p2.z - p.z)) + 4
      [] o \in SwapOps /\ t.heap /\ p.st = 2 /\ q.st = 2 -> work = 0
      [] o \in SwapOps -> work <= 3 * w * (p.z + q.z) + 2
      [] o = "ctor_move" /\ t.heap /\ q.st = 2 -> work = 0
      \* amortised constant: at either end, as a queue, at both ends in turn
      [] o \in {"bulk_pb", "bulk_pf", "bulk_q", "bulk_alt"} ->
            IF t.fam = "compact" THEN TRUE
            ELSE IF t.fam \in {"seg", "segdev"} THEN work = 0 /\ n[8] <= a[1] + 4 * (Log2(a[1] + p.z + 1) + 4)
            ELSE IF t.fam = "static" THEN work = 0
            ELSE work <= 8 * (a[1] + p.z) + 16 /\ n[8] <= 4 * (Log2(a[1] + 1) + 4)
      [] o = "cmp_eq" -> p.z # q.z => n[11] = 0 /\ n[7] = 0
      \* logarithmic lookup in sorted contents, linear in unsorted
      [] o = "look1" -> IF t.ordered
                        THEN n[7] <= 2 * lg + 6 + (IF a[2] = 1 /\ t.multi THEN Cardinality(Matches(t, p.cm, p.v, a[1])) ELSE 0)
                        ELSE n[7] <= p.z + 2
      [] o = "lookup" -> IF t.ordered THEN n[7] <= 12 * (lg + 3) ELSE n[7] <= 4 * p.z + 6
      [] o \in {"insert", "insert_m", "emplace", "try_emplace", "ins_assign", "sub", "insert_k"} /\ t.ordered ->
            /\ n[7] <= 2 * lg + 6
            /\ work <= 2 * w * p.z + 8 * w
      [] o \in {"insert", "insert_m", "emplace", "try_emplace", "ins_assign", "sub", "insert_k"} /\ ~t.seq ->
            /\ n[7] <= p.z + 2
            /\ work <= (IF grew THEN 2 * w * p.z ELSE 0) + 8 * w
      \* a hint, good or bad, never makes the search more than logarithmic
      [] o \in {"hinsert", "hinsert_m", "hinsert_p", "hinsert_k", "hemplace", "htry_emplace", "hins_assign"} ->
            /\ n[7] <= (IF t.ordered THEN 2 * lg + 10 ELSE p.z + 2)
            /\ work <= (IF t.ordered \/ grew THEN 2 * w * p.z ELSE 0) + 8 * w
      [] o = "erase" /\ ~t.seq -> work <= (IF t.ordered THEN 2 * w * (p.z - a[1]) ELSE 2 * w) + 2 /\ n[8] = 0
      [] o = "erase_key" /\ t.ordered -> n[7] <= 4 * lg + 8
      [] o = "at" -> t.seq \/ (IF t.ordered THEN n[7] <= 2 * lg + 6 ELSE n[7] <= p.z + 2)
      [] OTHER -> TRUE

\* cost of the same calls when contents are not logged (large containers): sizes only
BigCostOK(t, o, a, p, p2, n) ==
    LET w == IF t.map THEN 2 ELSE 1
        lg == Log2(p.z + 1)
        grew == p2.c # p.c
    IN
    CASE o = "look1" -> IF t.ordered THEN n[7] <= 2 * lg + 6 ELSE n[7] <= p.z + 2
      [] o \in {"insert", "insert_m", "emplace", "try_emplace", "ins_assign", "sub", "insert_k"} /\ t.ordered -> n[7] <= 2 * lg + 6
      [] o \in {"hinsert", "hinsert_m", "hemplace", "htry_emplace", "hins_assign"} /\ t.ordered -> n[7] <= 2 * lg + 10
      [] o = "erase_key" /\ t.ordered -> n[7] <= 4 * lg + 8
      [] o \in {"bulk_pb", "bulk_pf", "bulk_q", "bulk_alt"} -> CostOK(t, o, a, p, p, p2, p, n)
      [] o \in {"resize", "resize_v", "resize_back", "resize_back_v", "resize_front", "resize_front_v", "insert_nv", "insert_rng", "erase_rng"} /\ t.seq ->
            CostOK(t, o, a, p, p, p2, p, n)
      [] o = "erase" /\ ~t.seq -> Work(n) <= (IF t.ordered THEN 2 * w * (p.z - a[1]) ELSE 2 * w) + 2 /\ n[8] = 0
      [] o = "erase_if" -> n[7] = 0 /\ (n[8] = 0 \/ t.fam = "compact")
      [] o \in {"emplace", "insert", "insert_m", "erase", "push_back", "push_back_m", "emplace_back", "push_front",
                "push_front_m", "emplace_front", "pop_back", "pop_front", "clear"} /\ t.seq ->
            CostOK(t, o, a, p, p, p2, p, n)
      [] OTHER -> TRUE

\* erase_if is documented linear (its own clause: the flat sets and maps are known not to be)
EraseIfLinear(t, p, n) == Work(n) <= 3 * (IF t.map THEN 2 ELSE 1) * p.z + 4

-----------------------------------------------------------------------------
(* Reference stability.  ad[j+1] = index before the call of the element    *)
(* that occupied the address of element j after it (1000 + index when it   *)
(* belonged to the other slot, -1 when the address held no element).       *)
\* adS: slot s, base bs = 1000*s; own index i is recorded as base + i
KeepFrom(ad, base, lo, hi, d) == \A j \in lo..hi : ad[j + 1] = base + j + d     \* 0-based positions lo..hi

FirstDiff(x, y) == IF \E i \in 1..Min(Len(x), Len(y)) : x[i] # y[i]
                   THEN (CHOOSE i \in 1..Min(Len(x), Len(y)) : x[i] # y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]) - 1
                   ELSE Min(Len(x), Len(y))

StableOK(t, o, a, s, p, q, p2, q2, ad, eqal, prop) ==
    LET base == 1000 * s
        obase == 1000 * (1 - s)
        A1 == ad[s + 1]
        B1 == ad[2 - s]
        kept == CapKept(p, p2)
        m == Min(p.z, p2.z)
    IN
    CASE o \in ReadOps \union {"self_swap", "set", "setm", "at"} -> KeepFrom(A1, base, 0, p2.z - 1, 0) /\ KeepFrom(B1, obase, 0, q2.z - 1, 0)
      [] t.fam = "compact" /\ o \notin SwapOps \union MoveOps -> KeepFrom(B1, obase, 0, q2.z - 1, 0)
      \* exchanging or giving away heap storage moves no element
      [] o \in SwapOps /\ t.heap /\ p.st = 2 /\ q.st = 2 -> KeepFrom(A1, obase, 0, p2.z - 1, 0) /\ KeepFrom(B1, base, 0, q2.z - 1, 0)
      [] o \in SwapOps -> TRUE
      [] o = "ctor_move" /\ t.heap /\ q.st = 2 -> KeepFrom(A1, obase, 0, p2.z - 1, 0)
      [] o = "ctor_movea" /\ t.heap /\ q.st = 2 /\ a[1] = q.al -> KeepFrom(A1, obase, 0, p2.z - 1, 0)
      [] o = "move" /\ t.heap /\ q.st = 2 /\ (eqal \/ (prop /\ t.fam \notin {"seg", "segdev"})) -> KeepFrom(A1, obase, 0, p2.z - 1, 0)
      [] o \in MoveOps \union CtorOps \union {"copy", "self_copy"} -> TRUE
      \* nothing done to one container moves the elements of another
      [] ~KeepFrom(B1, obase, 0, q2.z - 1, 0) -> FALSE
      [] o \in {"reserve", "reserve_front", "reserve_back", "shrink"} ->
            (kept \/ t.fam \in {"seg", "segdev"}) => KeepFrom(A1, base, 0, m - 1, 0)
      [] t.fam \in {"seg", "segdev"} /\ o \in BackOps \union {"pop_back"} -> KeepFrom(A1, base, 0, m - 1, 0)
      [] t.fam = "segdev" /\ o \in {"emplace_front", "push_front", "push_front_m"} -> KeepFrom(A1, base, 1, p2.z - 1, -1)
      [] t.fam = "segdev" /\ o \in {"resize_front", "resize_front_v"} /\ p2.z >= p.z -> KeepFrom(A1, base, p2.z - p.z, p2.z - 1, p.z - p2.z)
      [] t.fam = "segdev" /\ o = "pop_front" -> KeepFrom(A1, base, 0, p2.z - 1, 1)
      [] t.fam = "segdev" -> TRUE
      [] t.fam = "seg" /\ o \in {"resize", "resize_v"} -> KeepFrom(A1, base, 0, m - 1, 0)
      [] t.fam = "seg" /\ t.seq /\ o \in {"emplace", "insert", "insert_m", "insert_nv", "insert_il", "insert_rng"} -> KeepFrom(A1, base, 0, a[1] - 1, 0)
      [] t.fam = "seg" -> kept => KeepFrom(A1, base, 0, m - 1, 0)
      [] t.fam = "dev" ->
            CASE o \in {"emplace_front", "push_front", "push_front_m"} /\ p.f > 0 -> KeepFrom(A1, base, 1, p2.z - 1, -1)
              [] o = "pop_front" -> KeepFrom(A1, base, 0, p2.z - 1, 1)
              [] o \in {"emplace_back", "push_back", "push_back_m"} /\ p.b > 0 -> KeepFrom(A1, base, 0, m - 1, 0)
              [] o = "pop_back" -> KeepFrom(A1, base, 0, m - 1, 0)
              [] OTHER -> TRUE
      \* contiguous, growing at the back: without reallocation every address keeps its position
      [] OTHER -> kept => KeepFrom(A1, base, 0, m - 1, 0)
(***************************************************************************)
(* Copies.  An element is copied only where the caller hands over an       *)
(* object to be copied; what a container does for itself (making room,     *)
(* growing, closing gaps, changing storage, moving and exchanging whole    *)
(* containers) moves elements, so that types that can only be moved can be *)
(* kept in it.  The bound says how many copies a call may make when moving *)
(* an element cannot fail; it is 0 for everything that is not given an     *)
(* object to copy.                                                         *)
(***************************************************************************)
GivenOne == {"insert", "hinsert", "push_back", "push_front", "insert_al", "emplace_al", "hinsert_al", "push_back_al",
             "emplace_back_al", "push_front_al", "emplace_front_al", "set", "setm"}
GivenFill == {"insert_nv", "insert_nv_al", "resize_v", "resize_v_al", "resize_front_v", "resize_front_v_al", "resize_back_v", "resize_back_v_al"}
CopiesMax(t, o, a, p, q, p2) ==
    LET w == IF t.map THEN 2 ELSE 1
        fill == Max(0, p2.z - p.z) + 2
        range(from, cat) == IF cat = 6 THEN 0 ELSE 2 * w * (Len(a) - from + 1)
    IN
    CASE o \in GivenOne -> 2 * w
      [] o \in GivenFill -> fill
      [] o = "assign_nv" -> a[1] + 2
      [] o = "ctor_nv" -> a[3] + 1
      [] o = "insert_rng" -> IF t.seq THEN range(3, a[2]) ELSE range(2, a[1])
      [] o = "assign_rng" -> range(2, a[1])
      [] o = "ctor_rng" -> IF t.seq THEN range(4, a[3]) ELSE range(5, a[4])
      [] o \in {"insert_il", "assign_il", "ctor_il", "il"} -> 2 * w * Len(a)
      [] o \in {"copy", "ctor_copy", "ctor_copya"} -> w * q.z
      [] o = "self_copy" -> w * p.z
      [] o \in {"try_emplace", "htry_emplace"} -> IF a[2] \in {1, 2} THEN 0 ELSE 1
      [] o \in {"ins_assign", "hins_assign"} -> IF a[2] = 0 THEN 2 ELSE 0
      [] o \in {"try_emplace_al", "ins_assign_al", "ins_assign_kal"} -> 3
      [] o = "sub" -> B(a[2] = 0) + B(a[3] > 0)
      [] o = "at" /\ ~t.seq -> B(a[3] > 0)
      [] OTHER -> 0
CopiesOK(t, o, a, p, q, p2, n) == n[1] + n[3] <= CopiesMax(t, o, a, p, q, p2)
=============================================================================
