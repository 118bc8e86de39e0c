------------------------------ MODULE SflTrace ------------------------------
(***************************************************************************)
(* Trace validation: recorded executions of the real containers are        *)
(* behaviours of the specification.  Every history is an independent       *)
(* behaviour; every event is one public call with its arguments, result    *)
(* and the complete abstract state of both containers after it.  An event  *)
(* that is not a step the specification allows is reported with the names  *)
(* of the clauses it breaks; validation then resumes from the recorded     *)
(* state, so that the rest of the behaviour is checked too.                *)
(***************************************************************************)
EXTENDS SflCost, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Want == LET w == JsonDeserialize(IOEnv.CLAUSES) IN {w[i] : i \in 1..Len(w)}

VARIABLES h, l, sl, taint, bad
vars == <<h, l, sl, taint, bad>>

NoSlot == [v |-> <<>>, z |-> 0, c |-> 0, f |-> 0, b |-> 0, al |-> 0, cm |-> 0, st |-> 0]

Has(e, f) == f \in DOMAIN e
In(x, s) == \E i \in 1..Len(s) : s[i] = x
LifeErrs == {"oob_ctor", "misaligned", "dbl_ctor", "bad_dtor", "dead_read", "dead_write", "dead_elem", "dealloc_live"}
MemErrs == {"bad_dealloc", "dealloc_size", "dealloc_alloc", "raw_ctor", "raw_dtor", "oob_write", "freed_write"}
HasErr(e, S) == \E i \in 1..Len(e.er) : e.er[i] \in S

Cl(name, ok) == IF name \in Want /\ ~ok THEN {name} ELSE {}

ClearsTaint == CtorOps \union {"clear", "il", "copy", "move"}

Quiet(p) == p.z > 0 /\ p.v = <<>>

StructBoth(t, n, p) == /\ Quiet(p[1]) \/ StructOK(t, n, p[1])
                       /\ Quiet(p[2]) \/ StructOK(t, n, p[2])

Resources(t, hh, e) ==
    LET w == IF t.map THEN 2 ELSE 1
        P == e.p
    IN Cl("life", ~HasErr(e, LifeErrs) /\ e.lv = w * (P[1].z + P[2].z))
       \union Cl("mem", ~HasErr(e, MemErrs))
       \union Cl("blocks", BlocksOK(t, hh.N, P[1], P[2], e.bk))
       \union Cl("struct", StructBoth(t, hh.N, P))
       \union Cl("aligned", ~HasErr(e, {"misaligned"}))
       \union Cl("range", ~HasErr(e, {"stale_input", "taken_twice", "not_taken", "source_changed", "not_moved"}))

\* the size an operation needs to reach, for max_size() limits; -1: none
NeedOf(t, o, a, p, q) ==
    CASE o \in ReserveOps \ {"shrink"} -> a[1]
      [] t.seq /\ o \notin ReadOps -> Len(SeqX(t, o, a, p.v, q.v))
      [] ~t.seq /\ o \in OneOps \union AssignOps \union {"sub"} -> p.z + 1
      [] ~t.seq /\ o \in {"insert_rng", "insert_il"} -> p.z + Len(a)
      [] OTHER -> -1

OnePass(o, a) == \/ o \in {"assign_rng", "insert_rng"} /\ a[IF o = "assign_rng" THEN 1 ELSE 2] = 0
                 \/ o = "ctor_rng" /\ a[3] = 0

\* a count no container can reach (a negative number stands for its unsigned wrap-around)
Huge(t, o, a) ==
    CASE o \in ReserveOps \ {"shrink"} -> a[1] < 0
      [] ~t.seq -> FALSE
      [] o \in {"resize", "resize_v", "resize_d", "resize_front", "resize_front_v", "resize_back", "resize_back_v", "assign_nv"} -> a[1] < 0
      [] o = "insert_nv" -> a[2] < 0
      [] o \in {"ctor_n", "ctor_nd", "ctor_nv"} -> a[3] < 0
      [] OTHER -> FALSE

\* did the call need more than max_size() allows?  Segmented storage is made
\* of whole segments: what fits into segments at hand is not refused.
TooBig(t, mx, o, a, p, q) ==
    \/ Huge(t, o, a)
    \/ /\ mx > 0
       /\ o \notin MoveOps \union SwapOps \union {"self_swap"}
       \* segmented storage is rounded up to whole segments, what is there may be used
       /\ IF t.seq \/ o = "reserve" THEN NeedOf(t, o, a, p, q) > (IF t.fam \in {"seg", "segdev"} THEN Max(mx, p.c) ELSE mx) ELSE FALSE
       /\ t.fam \in {"seg", "segdev"} => ~OnePass(o, a)

At(v, k) == IF k >= 0 /\ k < Len(v) THEN v[k + 1] ELSE -9
IterHalf(v, i, j) ==
    <<i - j, B(i < j), B(i > j), B(i <= j), B(i >= j), B(i = j), B(i # j), At(v, j), At(v, j), At(v, j),
      At(v, j), 1, At(v, j), 1, At(v, j)>>
    \o (IF i < Len(v) THEN <<At(v, i + 1), 1, At(v, i), At(v, i + 1), 1>> ELSE <<>>)
    \o (IF i > 0 THEN <<At(v, i - 1), 1, At(v, i), At(v, i - 1)>> ELSE <<>>)
    \o <<1, 1>>
IterExp(v, i, j) == IterHalf(v, i, j) \o IterHalf(v, i, j) \o <<1, 1, j - i, i - j, B(j < i), B(i < j), i>>

ViewOK(v, w) ==
    CASE w[1] = 1 -> Tail(w) = v
      [] w[1] = 2 -> Tail(w) = Rev(v)
      [] w[1] = 3 -> Tail(w) = [i \in 1..(Len(v) + 1) |-> i - 1]
      [] w[1] = 4 -> Tail(w) = <<Len(v), B(v = <<>>), Len(v), Len(v), 1>>
      [] w[1] = 5 -> Tail(w) = <<v[1], v[Len(v)], v[1], v[Len(v)]>>
      [] OTHER -> FALSE

\* a completed call
Normal(t, hh, e, p, q, p2, q2, tp, tq) ==
    LET o == e.o
        a == e.a
        s == e.s
        prop == PropOf(hh.pr, o)
        cm == CmOf(t, o, a, p, q)
        \* contents are judged unless they derive from a moved-from or half-failed associative container
        judged == t.seq \/ ~((tp /\ o \notin ClearsTaint) \/ (tq /\ o \in CopyOps \union MoveOps \union SwapOps \union {"cmp", "cmp_eq"}))
        qt == Quiet(p2) \/ Quiet(p)
    IN
    (IF judged /\ ~qt THEN
        Cl("elems", ElemsOK(t, cm, o, a, p.v, q.v, p2.v))
        \union Cl("ret", MustThrowOor(t, cm, o, a, p.v) \/ RetOK(t, cm, o, a, p.v, q.v, p2.v, e.r))
        \union (IF Has(e, "am") THEN Cl("args", ArgsOK(t, cm, o, a, p.v, e.am)) ELSE {})
        \union Cl("exc", ~MustThrowOor(t, cm, o, a, p.v))
        \union (IF t.seq THEN {} ELSE Cl("assoc", (AssocInv(t, p.cm, p.v) /\ AssocInv(t, q.cm, q.v)) => AssocInv(t, cm, p2.v)))
        \union (IF Has(e, "n") THEN Cl("cost", CostOK(t, o, a, p, q, p2, q2, e.n)) ELSE {})
     ELSE IF qt /\ Has(e, "n") THEN Cl("cost", BigCostOK(t, o, a, p, p2, e.n)) ELSE {})
    \union (IF Has(e, "n") /\ hh.el = 1 /\ o \notin {"start", "end"} THEN Cl("copies", CopiesOK(t, o, a, p, q, p2, e.n)) ELSE {})
    \union (IF o = "erase_if" /\ Has(e, "n") THEN Cl("linear", EraseIfLinear(t, p, e.n)) ELSE {})
    \union Cl("other",
              CASE o \in SwapOps -> judged => (IF t.seq \/ t.ordered THEN q2.v = p.v ELSE BagEq(q2.v, p.v))
                [] o = "ctor_move" /\ t.fam \in {"compact", "seg", "segdev"} -> q2.v = <<>>
                [] o \in MoveOps -> TRUE
                [] OTHER -> q2 = q)
    \union Cl("cap", qt \/ CapOK(t, hh.N, prop, o, a, p, q, p2, q2))
    \union (IF Has(e, "n") THEN Cl("inline", InlineOK(t, hh.N, o, p, q, p2, q2, e.n[8])) ELSE {})
    \union Cl("alloc", p2.al = AlOf(t, prop, o, a, p, q) /\ (o \in MoveOps \/ q2.al = AlOther(t, prop, o, p, q)))
    \union Cl("comp", p2.cm = cm /\ q2.cm = CmOther(t, o, p, q))
    \union (IF o = "lookup" /\ Has(e, "n") THEN Cl("hetero", (a[2] % 2 = 1 => e.n[10] = 0) /\ Work(e.n) = 0) ELSE {})
    \union (IF o = "erase_key" /\ Has(e, "n") THEN Cl("hetero", a[2] = 1 => e.n[10] = 0) ELSE {})
    \union (IF o \in {"try_emplace", "htry_emplace", "ins_assign", "hins_assign", "sub"} /\ a[2] >= 2 /\ Has(e, "n") /\ judged
            THEN Cl("hetero", (a[2] = 3 /\ o # "sub") \/ e.n[10] = B(Matches(t, cm, p.v, Key(a[1])) = {})) ELSE {})
    \* reading needs no memory
    \union (IF o \in ReadOps \union {"at"} /\ Has(e, "n") THEN Cl("writes", e.n[8] = 0 /\ e.n[9] = 0) ELSE {})
    \union (IF Has(e, "rv") THEN Cl("views", \A i \in 1..Len(e.rv) : ViewOK(p2.v, e.rv[i])) ELSE {})
    \union (IF o = "iter" THEN Cl("iter", e.r = IterExp(p.v, a[1], a[2])) ELSE {})
    \union (IF Has(e, "ad") /\ ~qt THEN Cl("stable", StableOK(t, o, a, s, p, q, p2, q2, e.ad, p.al = q.al, prop)) ELSE {})
    \union Cl("exc", ~TooBig(t, hh.mx, o, a, p, q) /\ (hh.mx > 0 => p2.z <= Max(hh.mx, hh.N) + (IF t.fam \in {"seg", "segdev"} THEN hh.N ELSE 0)))

StrongOps == ReserveOps \union {"push_back", "push_back_m", "emplace_back", "push_front", "push_front_m", "emplace_front"} \union ReadOps

\* segmented storage promises its contents back, not its spare segments
Unchanged(t, p, p2) == IF t.fam \in {"seg", "segdev"} THEN p2.v = p.v /\ p2.al = p.al /\ p2.st = p.st ELSE p2 = p

\* values that may legitimately be left in a sequence after a failed call
Origin(o, a, p, q) == Range(p.v) \union Range(q.v) \union Range(a) \union {0, -1}

\* a call that failed by an injected failure
Failed(t, hh, e, p, q, p2, q2, tp, tq) ==
    LET o == e.o
        a == e.a
        binary == o \in MoveOps \union SwapOps
    IN
    Cl("basic", binary \/ q2 = q)
    \union Cl("basic", ~t.seq \/ (Range(p2.v) \union Range(q2.v)) \subseteq Origin(o, a, p, q))
    \* when moves cannot fail, a failed call leaves an associative container ordered and unique
    \union Cl("basic", (~t.seq /\ hh.el = 1 /\ ~tp /\ ~tq /\ AssocInv(t, p.cm, p.v) /\ AssocInv(t, q.cm, q.v)) => AssocInv(t, p2.cm, p2.v) /\ AssocInv(t, q2.cm, q2.v))
    \union Cl("basic", (~t.seq /\ hh.el = 1 /\ ~binary /\ o \in OneOps /\ ~tp) => p2.v = p.v)
    \union (IF o \in StrongOps /\ (o \in ReserveOps \union ReadOps \/ hh.el = 1 \/ t.fam # "dev") THEN Cl("strong", Unchanged(t, p, p2) /\ q2 = q) ELSE {})
    \union (IF binary THEN Cl("alloc", {p2.al, q2.al} \subseteq {p.al, q.al, e.s + 1} \union Range(a))
            ELSE IF o \in CtorOps THEN {}
            ELSE Cl("alloc", p2.al \in {p.al, AlOf(t, PropOf(hh.pr, o), o, a, p, q)}))

\* may the call be refused with a length error?
MayReject(t, hh, o, a, p, q) ==
    \/ Huge(t, o, a)
    \/ /\ hh.mx > 0
       /\ LET nd == NeedOf(t, o, a, p, q) IN
          \/ nd > hh.mx \/ nd = -1
          \* storage is made of whole segments
          \/ (t.fam \in {"seg", "segdev"} /\ nd + 2 * hh.N > hh.mx)
          \* max_size() limits the slack at the other end and geometric growth too
          \/ (t.fam = "dev" /\ p.c + Max(nd, p.c \div 2) > hh.mx)
          \/ (t.fam = "segdev" /\ p.c + nd > hh.mx)
          \/ (t.fam = "dev" /\ OnePass(o, a) /\ 2 * nd > hh.mx)

\* a call rejected with a documented exception
Rejected(t, hh, e, p, q, p2, q2, tp) ==
    LET o == e.o
        a == e.a
    IN
    IF e.x = "oor"
    THEN Cl("exc", (tp \/ MustThrowOor(t, p.cm, o, a, p.v)) /\ p2 = p /\ q2 = q)
    ELSE IF e.x = "len" /\ (hh.mx > 0 \/ Huge(t, o, a))
    THEN Cl("exc", MayReject(t, hh, o, a, p, q))
         \* elements of a single pass range, and of a range inserted into an associative container, are inserted one by one
         \* an assignment that takes over an allocator may give its storage away first
         \union Cl("exc", o \in CtorOps \/ p2 = p \/ (o \in {"copy"} \union MoveOps /\ p2.al # p.al /\ Range(p2.v) \subseteq Range(q.v))
                          \/ ((OnePass(o, a) \/ (~t.seq /\ o \in {"insert_rng", "insert_il", "il"})) /\ Range(p2.v) \subseteq Origin(o, a, p, q))) 
         \union Cl("exc", q2 = q)
    ELSE Cl("exc", FALSE)

Check(hh, e) ==
    LET t == TypeOf(hh.c)
        s == e.s
        p == sl[s + 1]
        q == sl[2 - s]
    IN
    CASE e.o = "end" ->
            IF Has(e, "r") /\ Len(e.x) = 0
            THEN Cl("leak", e.r[1] = 0) \union Cl("leakmem", e.r[2] = 0) \union Cl("life", ~HasErr(e, LifeErrs)) \union Cl("mem", ~HasErr(e, MemErrs))
            ELSE Cl("crash", FALSE)
      \* a violated precondition stops the program; whatever else happens is wrong
      [] Has(e, "A") /\ Violates(t, hh.N, PropOf(hh.pr, e.o), e.o, e.a, p, q) -> Cl("accept", e.x = "SIG6" /\ e["in"] = 1)
      \* without exceptions, errors stop the program
      [] e.x = "SIG6" /\ hh.nx = 1 /\ e["in"] = 1 /\ (MustThrowOor(t, p.cm, e.o, e.a, p.v) \/ MayReject(t, hh, e.o, e.a, p, q)) -> {}
      \* written to memory that belongs to a container which the call may only read
      [] e.x = "SIG11" /\ Has(e, "ro") -> Cl("writes", FALSE)
      [] e.x \in {"SIG4", "SIG6", "SIG7", "SIG8", "SIG9", "SIG11", "SIG26"} -> Cl("crash", FALSE)
      [] e.o = "start" -> Resources(t, hh, e)
      [] e.x = "" -> Normal(t, hh, e, p, q, e.p[s + 1], e.p[2 - s], taint[s + 1], taint[2 - s]) \union Resources(t, hh, e)
      [] e.x = "T" -> Failed(t, hh, e, p, q, e.p[s + 1], e.p[2 - s], taint[s + 1], taint[2 - s]) \union Resources(t, hh, e)
      [] OTHER -> Rejected(t, hh, e, p, q, e.p[s + 1], e.p[2 - s], taint[s + 1]) \union Resources(t, hh, e)

\* contents that show moved-from elements
Moved(t, v) == \E i \in 1..Len(v) : v[i] < 0 \/ (t.map /\ v[i] % 100 = 99)

NextTaint(hh, e) ==
    LET t == TypeOf(hh.c)
        s == e.s
        tp == taint[s + 1]
        tq == taint[2 - s]
        mk(x, y) == IF s = 0 THEN <<x, y>> ELSE <<y, x>>
    IN
    IF t.seq \/ ~Has(e, "p") THEN taint
    ELSE CASE e.o = "start" -> <<Moved(t, e.p[1].v), Moved(t, e.p[2].v)>>
           [] e.x = "T" -> mk(e.o \notin ReadOps \union CtorOps \union {"reserve", "shrink"} \/ (tp /\ e.o \notin CtorOps),
                              tq \/ e.o \in MoveOps \union SwapOps)
           [] e.x # "" -> taint
           [] e.o \in SwapOps -> mk(tq, tp)
           [] e.o \in MoveOps -> mk(tq, e.p[2 - s].v # <<>>)
           [] e.o \in CopyOps -> mk(tq, tq)
           [] e.o \in ClearsTaint -> mk(FALSE, tq)
           [] OTHER -> taint

Init == /\ h \in 1..Len(Trace)
        /\ l = 1
        /\ sl = <<NoSlot, NoSlot>>
        /\ taint = <<FALSE, FALSE>>
        /\ bad = {}

Next == LET hh == Trace[h] IN
        /\ l <= Len(hh.ev)
        /\ LET e == hh.ev[l] IN
           /\ bad' = Check(hh, e)
           /\ sl' = IF Has(e, "p") THEN e.p ELSE sl
           /\ taint' = NextTaint(hh, e)
           /\ l' = l + 1
           /\ UNCHANGED h
           /\ bad' # {} => PrintT("BAD" \o ToJson(<<h, l, bad'>>))

Spec == Init /\ [][Next]_vars

\* every event of every history was consumed
RECURSIVE SumLen(_)
SumLen(i) == IF i = 0 THEN 0 ELSE Len(Trace[i].ev) + 1 + SumLen(i - 1)
=============================================================================
