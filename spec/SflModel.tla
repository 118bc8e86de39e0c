------------------------------ MODULE SflModel ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the specification within small bounds.        *)
(*                                                                         *)
(* Every valid abstract state of one container (x, with comparator state   *)
(* cm) next to a second one (y) is an initial state; every public call     *)
(* with every argument in bounds is a transition, related to its results   *)
(* by the operators of SflCore.  As all valid states are initial, one step *)
(* covers every history whose states stay within the bounds; the laws      *)
(* below are the properties a user relies on, stated independently of the  *)
(* operators (pointwise for sequences, as finite sets, maps and bags for   *)
(* associative containers) and checked on every transition.                *)
(*                                                                         *)
(* Every (state, call) is also printed: the conformance driver steps the   *)
(* real container from that state through that call.                       *)
(***************************************************************************)
EXTENDS SflCore, TLC, Json, IOUtils

M == JsonDeserialize(IOEnv.MODEL)
t == TypeOf(M.name)
Emit == M.emit = 1

VARIABLES x, y, cm, ycm, call, step
vars == <<x, y, cm, ycm, call, step>>

NoCall == [o |-> "none", a |-> <<>>]
C(o, a) == [o |-> o, a |-> a]

-----------------------------------------------------------------------------
(* State space.                                                            *)
Ids(n) == [i \in 1..n |-> i]

\* all sequences over S of length at most n
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>} ELSE LET P == SeqsUpTo(S, n - 1) IN P \union {Append(s, e) : s \in {u \in P : Len(u) = n - 1}, e \in S}

\* associative contents: keys are even/odd numbers, tag = position (tells equivalent keys apart)
Elem(k, tag) == k * 10000 + tag * 100 + (IF t.map THEN 1 + ((k + tag) % 9) ELSE 0)
Tagged(ks) == [i \in 1..Len(ks) |-> Elem(ks[i], i)]
AssocStates(c, n) == {s \in {Tagged(ks) : ks \in SeqsUpTo(1..M.keys, n)} : AssocInv(t, c, s)}

\* small alphabets with repetitions, for comparisons between two containers
Alpha == M.alpha = 1
AlphaStates(c) == IF t.seq THEN SeqsUpTo(1..M.keys, M.len)
                  ELSE {s \in SeqsUpTo({Elem(k, g) : k \in 1..M.keys, g \in {1, 2}}, M.len) : AssocInv(t, c, s)}

XStates(c) == IF Alpha THEN AlphaStates(c) ELSE IF t.seq THEN {Ids(n) : n \in 0..M.len} ELSE AssocStates(c, M.len)
YSeq == {[i \in 1..n |-> 50 + i] : n \in {0, 2, M.len}}
YStates(c) == IF Alpha THEN AlphaStates(c) ELSE IF t.seq THEN YSeq
              ELSE {s \in AssocStates(c, M.len) :
                       LET n == Len(s) IN
                       \/ n = 0
                       \/ n = 2 /\ Key(s[1]) = (IF c = 0 \/ ~t.ordered THEN 2 ELSE 3) /\ Key(s[2]) = (IF c = 0 THEN 3 ELSE IF t.ordered THEN 2 ELSE 4)
                       \/ n = M.len /\ \A i \in 1..(n - 1) : Key(s[i]) + (IF t.ordered /\ c = 0 THEN 1 ELSE IF t.ordered THEN -1 ELSE c + 1) = Key(s[i + 1])}
Cms == IF t.seq \/ Alpha THEN {0} ELSE {0, 1}

-----------------------------------------------------------------------------
(* Calls.                                                                  *)
New == 91                          \* a value no state contains
NewVals(k) == [i \in 1..k |-> 90 + i]
Cats == 0..6
N0 == Len(x)
Pos == 0..Len(x)
Idx == 0..(Len(x) - 1)
Add == 0..M.add
Front == t.fam \in {"dev", "segdev"}

SeqCtors ==
    IF x # <<>> THEN {} ELSE
    LET W == IF t.heap THEN {<<0, 1>>, <<1, 2>>} ELSE {<<0, 1>>} IN
    UNION {{C("ctor_def", w)} \union {C(o, w \o <<n>>) : n \in 0..M.len, o \in {"ctor_n", "ctor_nd"}} \union {C("ctor_nv", w \o <<n, New>>) : n \in 0..M.len}
           \union {C("ctor_rng", w \o <<c>> \o NewVals(n)) : n \in 0..M.len, c \in Cats}
           \union {C("ctor_il", w \o NewVals(n)) : n \in 0..Min(M.len, 6)} : w \in W}

SeqAssign ==
    {C("assign_nv", <<n, New>>) : n \in 0..(M.len + 1)}
    \union {C("assign_rng", <<c>> \o NewVals(n)) : n \in 0..(M.len + 1), c \in Cats}
    \union {C(o, NewVals(n)) : o \in {"assign_il", "il"}, n \in 0..Min(M.len + 1, 6)}

SeqInsert ==
    {C(o, <<p, New>>) : o \in {"emplace", "insert", "insert_m"}, p \in Pos}
    \union {C("insert_nv", <<p, n, New>>) : p \in Pos, n \in Add}
    \union {C("insert_rng", <<p, c>> \o NewVals(n)) : p \in Pos, c \in Cats, n \in Add}
    \union {C("insert_il", <<p>> \o NewVals(n)) : p \in Pos, n \in Add}
    \union {C(o, <<New>>) : o \in {"emplace_back", "push_back", "push_back_m"}}
    \union (IF Front THEN {C(o, <<New>>) : o \in {"emplace_front", "push_front", "push_front_m"}} ELSE {})

SeqErase ==
    {C("erase", <<p, f>>) : p \in Idx, f \in {0, 1}} \union {C("erase_rng", <<p, q>>) : p \in Pos, q \in Pos}
    \union {C("clear", <<>>)}
    \union (IF x = <<>> THEN {} ELSE {C("pop_back", <<>>)} \union (IF Front THEN {C("pop_front", <<>>)} ELSE {}))
    \union {C("nm_erase", <<v>>) : v \in 0..(Len(x) + 1)} \union {C("erase_if", <<2, 0>>), C("erase_if", <<2, 1>>), C("erase_if", <<3, 1>>), C("erase_if", <<1, 0>>)}

SeqResize ==
    LET R == 0..(M.len + M.add) IN
    {C(o, <<n>>) : n \in R, o \in {"resize", "resize_d"}} \union {C("resize_v", <<n, New>>) : n \in R}
    \union (IF Front THEN {C(o, <<n>>) : o \in {"resize_front", "resize_back"}, n \in R}
                          \union {C(o, <<n, New>>) : o \in {"resize_front_v", "resize_back_v"}, n \in R} ELSE {})

SeqAlias ==
    {C(o, <<p, i>>) : o \in {"emplace_al", "emplace_alm", "insert_al"}, p \in Pos, i \in Idx}
    \union {C("insert_nv_al", <<p, n, i>>) : p \in Pos, n \in Add, i \in Idx}
    \union {C(o, <<i>>) : o \in {"push_back_al", "emplace_back_al", "emplace_back_alm"}, i \in Idx}
    \union {C("resize_v_al", <<n, i>>) : n \in 0..(M.len + M.add), i \in Idx}
    \union (IF Front THEN {C(o, <<i>>) : o \in {"push_front_al", "emplace_front_al", "emplace_front_alm"}, i \in Idx}
                          \union {C(o, <<n, i>>) : o \in {"resize_front_v_al", "resize_back_v_al"}, n \in 0..(M.len + M.add), i \in Idx} ELSE {})

SeqRead ==
    {C("at", <<p, m>>) : p \in 0..(Len(x) + 1), m \in {0, 1}} \union {C("idx", <<p>>) : p \in Idx} \union {C(o, <<p>>) : p \in Pos, o \in {"nth", "iof"}}
    \union (IF x = <<>> THEN {} ELSE {C("front", <<>>), C("back", <<>>)})
    \union {C("set", <<p, m, New>>) : p \in Idx, m \in 0..3}

Capacity ==
    IF ~t.heap \/ t.fam = "compact" THEN {}
    ELSE {C("shrink", <<>>)}
         \union (IF Front THEN {C(o, <<n>>) : o \in {"reserve_front", "reserve_back"}, n \in 0..(M.len + M.add + 1)}
                 ELSE {C("reserve", <<n>>) : n \in 0..(M.len + M.add + 1)})

Views == {C("views", <<>>)} \union {C("iter", <<p, q>>) : p \in Pos, q \in Pos}

Binary ==
    {C(o, <<>>) : o \in {"copy", "move", "ctor_copy", "ctor_move", "swap", "swap_nm", "cmp", "cmp_eq", "self_copy", "self_swap"}}
    \union (IF t.heap THEN {C(o, <<al>>) : o \in {"ctor_copya", "ctor_movea"}, al \in {1, 2}} ELSE {})

\* ---- associative
Ks == 0..(M.keys + 1)              \* keys to look for: below, inside, above
NewElem(k) == k * 10000 + 5000 + 400 + (IF t.map THEN 7 ELSE 0)     \* a tag no state contains (54)
NewElems(ks) == [i \in 1..Len(ks) |-> ks[i] * 10000 + 6000 + i * 100 + (IF t.map THEN i ELSE 0)]
Batches == {<<>>, <<1>>, <<2, 1>>, <<2, 2>>, <<3, 0, 3>>, <<1, 4, 2, 2>>, <<4, 3, 2, 1, 0>>}
Init4 == {<<0, 0, 1>>, <<1, 1, 1>>} \union (IF t.heap THEN {<<2, 0, 2>>, <<3, 1, 2>>} ELSE {})

AssocCtors ==
    IF x # <<>> \/ cm # 0 THEN {} ELSE
    {C("ctor_def", w) : w \in Init4} \union {C("ctor_rng", w \o <<c>> \o NewElems(b)) : w \in Init4, c \in Cats, b \in Batches}
    \union {C("ctor_il", w \o NewElems(b)) : w \in Init4, b \in Batches}

AssocInsert ==
    {C(o, <<NewElem(k)>>) : o \in {"insert", "insert_m", "emplace"} \union (IF t.map THEN {"insert_p"} ELSE {}), k \in Ks}
    \union {C(o, <<p, NewElem(k)>>) : o \in {"hinsert", "hinsert_m", "hemplace"} \union (IF t.map THEN {"hinsert_p"} ELSE {}), k \in Ks, p \in Pos}
    \union {C("insert_rng", <<c>> \o NewElems(b)) : c \in Cats, b \in Batches}
    \union {C(o, NewElems(b)) : o \in {"insert_il", "il"}, b \in Batches}
    \union (IF t.map \/ t.multi THEN {} ELSE {C("insert_k", <<k * 10000>>) : k \in Ks} \union {C("hinsert_k", <<p, k * 10000>>) : k \in Ks, p \in Pos})

AssocMap ==
    IF ~t.map \/ t.multi THEN {} ELSE
    LET KV(k, h) == IF h = 2 THEN k * 10000 + 7 ELSE NewElem(k) IN
    {C("try_emplace", <<KV(k, h), h>>) : k \in Ks, h \in 0..3}
    \union {C("htry_emplace", <<KV(k, h), h, p>>) : k \in Ks, h \in 0..3, p \in Pos}
    \union {C("ins_assign", <<KV(k, h), h>>) : k \in Ks, h \in 0..2}
    \union {C("hins_assign", <<KV(k, h), h, p>>) : k \in Ks, h \in 0..2, p \in Pos}
    \union {C("sub", <<IF h >= 2 THEN k * 10000 ELSE KeyPart(NewElem(k)), h, m>>) : k \in Ks, h \in 0..3, m \in {0, 8}}
    \union {C("at", <<k, h, m>>) : k \in Ks, h \in 0..3, m \in {0, 8}}

AssocErase ==
    {C("erase", <<p, f>>) : p \in Idx, f \in {0, 1}} \union {C("erase_rng", <<p, q>>) : p \in Pos, q \in Pos} \union {C("clear", <<>>)}
    \union {C("erase_key", <<k, h>>) : k \in Ks, h \in {0, 1}}
    \union {C("erase_if", <<20000, 0>>), C("erase_if", <<200, 0>>), C("erase_if", <<200, 100>>), C("erase_if", <<1, 0>>), C("erase_if", <<300, 100>>)}

AssocAlias ==
    {C(o, <<i>>) : o \in {"insert_al", "emplace_al", "erase_al"}, i \in Idx} \union {C("hinsert_al", <<p, i>>) : p \in Pos, i \in Idx}
    \union (IF ~t.map \/ t.multi THEN {} ELSE {C(o, <<i, NewElem(k)>>) : o \in {"try_emplace_al", "ins_assign_al", "ins_assign_kal"}, i \in Idx, k \in Ks})

AssocRead ==
    {C("lookup", <<k, m>>) : k \in Ks, m \in 0..3} \union {C("look1", <<k, m>>) : k \in Ks, m \in 0..(IF t.ordered THEN 5 ELSE 2)}
    \union {C(o, <<p>>) : p \in Pos, o \in {"nth", "iof"}} \union {C("comp", <<j, k>>) : j \in 0..2, k \in 0..2}
    \union (IF t.map THEN {C("setm", <<i, 8>>) : i \in Idx} ELSE {})

\* ---- calls whose documented preconditions are violated.  Positions next to the valid ones; an
\* iterator beyond the end cannot be formed in segmented storage.
Far == IF t.fam \in {"seg", "segdev"} THEN Pos ELSE -1..(Len(x) + 1)
Near == 0..(Len(x) + 1)
Small == {n \in 0..(M.n + 2) : n <= 6}
SeqMisuse ==
    {C(o, <<p, New>>) : o \in {"emplace", "insert", "insert_m"}, p \in Far}
    \union {C("insert_nv", <<p, n, New>>) : p \in Far, n \in Small}
    \union {C("insert_rng", <<p, c>> \o NewVals(n)) : p \in Far, c \in Cats, n \in Small}
    \union {C("insert_il", <<p>> \o NewVals(n)) : p \in Far, n \in Small}
    \union {C(o, <<New>>) : o \in {"emplace_back", "push_back", "push_back_m"}}
    \union {C("erase", <<p, f>>) : p \in Far, f \in {0, 1}} \union {C("erase_rng", <<p, q>>) : p \in Far, q \in Far}
    \union {C("idx", <<p>>) : p \in Near} \union {C("nth", <<p>>) : p \in Near} \union {C("iof", <<p>>) : p \in Far}
    \union {C(o, <<>>) : o \in {"front", "back", "pop_back"} \union (IF Front THEN {"pop_front"} ELSE {})}
    \union (IF ~t.static THEN {} ELSE
             {C(o, <<n>>) : o \in {"resize", "resize_d"}, n \in Small} \union {C(o, <<n, New>>) : o \in {"resize_v", "assign_nv"}, n \in Small}
             \union {C("assign_rng", <<c>> \o NewVals(n)) : c \in Cats, n \in Small} \union {C(o, NewVals(n)) : o \in {"assign_il", "il"}, n \in Small}
             \union {C(o, <<0, 1, n>>) : o \in {"ctor_n", "ctor_nd"}, n \in Small} \union {C("ctor_nv", <<0, 1, n, New>>) : n \in Small}
             \union {C("ctor_rng", <<0, 1, c>> \o NewVals(n)) : c \in Cats, n \in Small} \union {C("ctor_il", <<0, 1>> \o NewVals(n)) : n \in Small})
AssocMisuse ==
    AssocInsert \union AssocMap
    \union {C(o, <<p, NewElem(k)>>) : o \in {"hinsert", "hinsert_m", "hemplace"} \union (IF t.map THEN {"hinsert_p"} ELSE {}), k \in Ks, p \in Far}
    \union (IF ~t.map \/ t.multi THEN {} ELSE
             {C("htry_emplace", <<KeyPart(NewElem(k)) + 7, h, p>>) : k \in Ks, h \in {0, 1, 3}, p \in Far} \union {C("hins_assign", <<KeyPart(NewElem(k)) + 7, h, p>>) : k \in Ks, h \in {0, 1}, p \in Far}
             \union {C(o, <<k * 10000 + 7, 2, p>>) : o \in {"htry_emplace", "hins_assign"}, k \in Ks, p \in Far})
    \union (IF t.map \/ t.multi THEN {} ELSE {C("hinsert_k", <<p, k * 10000>>) : k \in Ks, p \in Far})
    \union {C("erase", <<p, f>>) : p \in Far, f \in {0, 1}} \union {C("erase_rng", <<p, q>>) : p \in Far, q \in Far}
    \union {C("nth", <<p>>) : p \in Near} \union {C("iof", <<p>>) : p \in Far}
    \union (IF ~t.static THEN {} ELSE AssocCtors \union {C("insert_rng", <<c>> \o NewElems(b)) : c \in Cats, b \in {<<1, 2, 3, 4>>, <<5, 5, 5, 5>>}})

SlotX == [v |-> x, z |-> Len(x), cm |-> cm, al |-> 1]
SlotY == [v |-> y, z |-> Len(y), cm |-> ycm, al |-> 2]
Misuse == LET U == IF t.seq THEN SeqMisuse ELSE AssocMisuse IN {c \in U : Violates(t, M.n, TRUE, c.o, c.a, SlotX, SlotY)}
SwapMisuse == {c \in {C("swap", <<>>), C("swap_nm", <<>>)} : Violates(t, M.n, FALSE, c.o, c.a, SlotX, SlotY)}

Group ==
    [ctor |-> IF t.seq THEN SeqCtors ELSE AssocCtors,
     assign |-> IF t.seq THEN SeqAssign ELSE {},
     ins |-> IF t.seq THEN SeqInsert ELSE AssocInsert \union AssocMap,
     era |-> IF t.seq THEN SeqErase ELSE AssocErase,
     resize |-> IF t.seq THEN SeqResize ELSE {},
     alias |-> IF t.seq THEN SeqAlias ELSE AssocAlias,
     read |-> IF t.seq THEN SeqRead ELSE AssocRead,
     cap |-> Capacity,
     views |-> Views,
     binary |-> {}, cmp |-> {}, misuse |-> {}]

Wanted == {M.groups[i] : i \in 1..Len(M.groups)}
Named == {M.ops[i] : i \in 1..Len(M.ops)}           \* restrict to these operations; none: all
UnaryCalls == LET U == UNION {Group[g] : g \in Wanted} IN IF Named = {} THEN U ELSE {c \in U : c.o \in Named}
BinaryCalls == IF "binary" \in Wanted THEN Binary ELSE IF "cmp" \in Wanted THEN {C("cmp", <<>>), C("cmp_eq", <<>>)} ELSE {}

-----------------------------------------------------------------------------
(* Results of a call: every content the specification admits.              *)
BatchOf(o, a) == CASE o = "insert_rng" -> Tail(a) [] o \in {"insert_il", "il"} -> a [] o = "ctor_rng" -> Drop(a, 4) [] o = "ctor_il" -> Drop(a, 3)

\* all orders of the elements of s
RECURSIVE Perms(_)
Perms(s) == IF s = <<>> THEN {<<>>} ELSE UNION {{<<s[i]>> \o u : u \in Perms(RemoveRng(s, i - 1, i))} : i \in 1..Len(s)}

\* ways to insert w one by one into sorted contents u
RECURSIVE Merges(_, _, _)
Merges(c, u, w) == IF w = <<>> THEN {u}
                   ELSE UNION {Merges(c, InsertAt(u, p, <<Head(w)>>), Tail(w)) : p \in LB(c, u, Key(Head(w)))..UB(c, u, Key(Head(w)))}

Candidates(o, a) ==
    LET X2(w, base) == IF t.ordered THEN (IF t.multi THEN Merges(cm, base, w) ELSE {AddAllUnique(t, cm, base, w)})
                       ELSE IF t.multi THEN {base \o w} ELSE {AddAllUnique(t, cm, base, w)}
    IN
    CASE o \in {"ctor_rng", "ctor_il", "il"} ->
            (LET c2 == IF o = "il" THEN cm ELSE NewCm(o, a) IN
             IF t.ordered THEN (IF t.multi THEN Merges(c2, <<>>, BatchOf(o, a)) ELSE {AddAllUnique(t, c2, <<>>, BatchOf(o, a))})
             ELSE IF t.multi THEN {BatchOf(o, a)} ELSE {AddAllUnique(t, c2, <<>>, BatchOf(o, a))})
      [] o \in {"insert_rng", "insert_il"} -> X2(BatchOf(o, a), x)
      [] o \in OneOps \union AssignOps \union {"sub"} ->
            LET v == IF o = "sub" THEN KeyPart(a[1]) + a[3] ELSE OneVal(o, a, x)
                hit == Matches(t, cm, x, Key(v)) # {}
            IN IF hit /\ ~t.multi
               THEN (IF o \in AssignOps THEN {[x EXCEPT ![FirstMatch(t, cm, x, v)] = WithMapped(@, MapPart(v))]}
                     ELSE IF o = "sub" /\ a[3] > 0 THEN {[x EXCEPT ![FirstMatch(t, cm, x, v)] = WithMapped(@, a[3])]}
                     ELSE {x})
               ELSE X2(<<v>>, x)
      [] o \in {"erase", "erase_rng"} -> {RemoveRng(x, a[1], IF o = "erase" THEN a[1] + 1 ELSE a[2])}
      [] o \in {"erase_key", "erase_al", "erase_if"} -> LET P(u) == ElemFilter(t, cm, o, a, x, u) IN {Filter(x, P)}
      [] o \in {"clear", "ctor_def"} -> {<<>>}
      [] o \in {"ctor_copy", "ctor_copya", "ctor_move", "ctor_movea", "copy", "move", "swap", "swap_nm"} -> {y}
      [] o = "setm" -> {[x EXCEPT ![a[1] + 1] = WithMapped(@, a[2])]}
      [] o = "at" /\ a[3] > 0 /\ a[2] < 2 /\ Matches(t, cm, x, a[1]) # {} ->
            {[x EXCEPT ![FirstMatch(t, cm, x, a[1] * 10000)] = WithMapped(@, a[3])]}
      [] OTHER -> {x}

Rejects(c) == MustThrowOor(t, cm, c.o, c.a, x)

\* comparator of the result
Cm2(c) == CmOf(t, c.o, c.a, [cm |-> cm], [cm |-> ycm])

Results(c) ==
    IF Rejects(c) THEN {x}
    ELSE IF t.seq
    THEN (IF EitherEnd(t, c.o, c.a, x)
          THEN LET d == c.a[1] - Len(x) IN {Rep(i, FillOf(c.o, c.a, x)) \o x \o Rep(d - i, FillOf(c.o, c.a, x)) : i \in 0..d}
          ELSE {SeqX(t, c.o, c.a, x, y)})
    ELSE {s \in Candidates(c.o, c.a) : AssocElemsOK(t, Cm2(c), c.o, c.a, x, y, s)}

Do(c) ==
    /\ Emit => PrintT("C" \o ToJson(<<x, y, cm, ycm, c.o, c.a>>))
    /\ call' = c
    /\ step' = 1
    /\ Assert(Results(c) # {}, <<"no result", x, c>>)        \* the relation is total
    /\ x' \in Results(c)
    /\ cm' = Cm2(c)
    /\ IF c.o \in SwapOps THEN y' = x /\ ycm' = cm
       ELSE IF c.o \in MoveOps THEN y' = <<>> /\ ycm' = ycm    \* one admissible moved-from state
       ELSE UNCHANGED <<y, ycm>>

\* the program stops: nothing follows, nothing has changed
Stop(c) ==
    /\ Emit => PrintT("A" \o ToJson(<<x, y, cm, ycm, c.o, c.a>>))
    /\ call' = [c EXCEPT !.o = "stop"]
    /\ step' = 2
    /\ UNCHANGED <<x, y, cm, ycm>>

Init == /\ cm \in Cms /\ ycm \in Cms
        /\ x \in XStates(cm) /\ y \in YStates(ycm)
        /\ call = NoCall /\ step = 0

\* the second container matters to binary calls only
Next == /\ step = 0
        /\ \/ /\ y = <<>> /\ ycm = 0
              /\ \E c \in UnaryCalls : ~(c.o = "erase_rng" /\ c.a[1] > c.a[2]) /\ Do(c)
           \/ \E c \in BinaryCalls : Do(c)
           \/ /\ "misuse" \in Wanted
              /\ \/ y = <<>> /\ ycm = 0 /\ Len(x) <= M.n /\ \E c \in Misuse : Stop(c)
                 \/ \E c \in SwapMisuse : Stop(c)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Laws.                                                                   *)

\* C03-C06: keys stay sorted / unique whatever happens
OrderInv == t.seq \/ AssocInv(t, cm, x)

\* sequences, pointwise
AtX(i) == x[i + 1]
InsLaw(p, w) == /\ Len(x') = Len(x) + Len(w)
                /\ \A i \in 0..(Len(x') - 1) :
                      x'[i + 1] = IF i < p THEN x[i + 1] ELSE IF i < p + Len(w) THEN w[i - p + 1] ELSE x[i - Len(w) + 1]
DelLaw(p, q) == /\ Len(x') = Len(x) - (q - p)
                /\ \A i \in 0..(Len(x') - 1) : x'[i + 1] = IF i < p THEN x[i + 1] ELSE x[i + (q - p) + 1]

SeqLaw ==
    LET o == call'.o
        a == call'.a
    IN
    CASE o \in {"emplace", "insert", "insert_m"} -> InsLaw(a[1], <<a[2]>>)
      [] o = "insert_nv" -> InsLaw(a[1], Rep(a[2], a[3]))
      [] o = "insert_rng" -> InsLaw(a[1], Drop(a, 2))
      [] o = "insert_il" -> InsLaw(a[1], Drop(a, 1))
      [] o \in {"push_back", "push_back_m", "emplace_back"} -> InsLaw(Len(x), a)
      [] o \in {"push_front", "push_front_m", "emplace_front"} -> InsLaw(0, a)
      [] o = "erase" -> DelLaw(a[1], a[1] + 1)
      [] o = "erase_rng" -> DelLaw(a[1], a[2])
      [] o = "pop_back" -> DelLaw(Len(x) - 1, Len(x))
      [] o = "pop_front" -> DelLaw(0, 1)
      [] o \in {"resize", "resize_d", "resize_v", "resize_v_al", "resize_back", "resize_back_v", "resize_back_v_al",
                "resize_front", "resize_front_v", "resize_front_v_al"} ->
            /\ Len(x') = a[1]
            /\ (o \in {"resize_front", "resize_front_v", "resize_front_v_al"}) =>
                  (IF a[1] <= Len(x) THEN DelLaw(0, Len(x) - a[1]) ELSE \A i \in 1..Len(x) : x'[i + a[1] - Len(x)] = x[i])
            /\ (o \notin {"resize_front", "resize_front_v", "resize_front_v_al"} /\ a[1] <= Len(x)) => DelLaw(a[1], Len(x))
            /\ IsSubseqOf(x, x') \/ IsSubseqOf(x', x)
      \* aliasing: as if the argument had been copied beforehand
      [] o \in {"emplace_al", "insert_al"} -> InsLaw(a[1], <<x[a[2] + 1]>>)
      [] o = "insert_nv_al" -> InsLaw(a[1], Rep(a[2], x[a[3] + 1]))
      [] o \in {"push_back_al", "emplace_back_al"} -> InsLaw(Len(x), <<x[a[1] + 1]>>)
      [] o \in {"push_front_al", "emplace_front_al"} -> InsLaw(0, <<x[a[1] + 1]>>)
      [] o \in {"nm_erase", "erase_if"} ->
            /\ IsSubseqOf(x', x)
            /\ \A i \in 1..Len(x) : (IF o = "nm_erase" THEN x[i] = a[1] ELSE x[i] % a[1] = a[2]) = (Count(x', x[i]) = 0)
      [] o \in {"copy", "move", "ctor_copy", "ctor_copya", "ctor_move", "ctor_movea", "swap", "swap_nm"} -> x' = y
      [] o \in ReadOps \union ReserveOps \union {"at", "self_copy", "self_swap"} -> x' = x
      [] OTHER -> TRUE

\* associative containers as finite maps from keys to the bag of elements with that key
KeysOf(s) == {Key(s[i]) : i \in 1..Len(s)}
Has1(s, v) == \E i \in 1..Len(s) : s[i] = v
Present(k) == \E i \in 1..Len(x) : KEqv(t, cm, Key(x[i]), k)
NoDup == \A i, j \in 1..Len(x') : i # j => x'[i] # x'[j]
OthersKept(k) == /\ \A i \in 1..Len(x) : ~KEqv(t, cm, Key(x[i]), k) => Has1(x', x[i])
                 /\ \A i \in 1..Len(x') : ~KEqv(t, cm, Key(x'[i]), k) => Has1(x, x'[i])

AssocLaw ==
    LET o == call'.o
        a == call'.a
        v == OneVal(o, a, x)
        kept == \A i \in 1..Len(x) : Count(x', x[i]) >= Count(x, x[i])
    IN
    CASE o \in OneOps ->
            /\ kept /\ OthersKept(Key(v))
            /\ IF t.multi \/ ~Present(Key(v)) THEN Len(x') = Len(x) + 1 /\ Has1(x', v) ELSE x' = x
      [] o \in AssignOps ->
            /\ OthersKept(Key(v))
            /\ \E i \in 1..Len(x') : KEqv(t, cm, Key(x'[i]), Key(v)) /\ MapPart(x'[i]) = MapPart(v)
            /\ Len(x') = Len(x) + (IF Present(Key(v)) THEN 0 ELSE 1)
      [] o = "sub" -> /\ OthersKept(Key(v)) /\ Len(x') = Len(x) + (IF Present(Key(v)) THEN 0 ELSE 1)
                      /\ (a[3] = 0 /\ Present(Key(v))) => x' = x
      [] o \in {"insert_rng", "insert_il"} ->
            /\ kept
            /\ KeysOf(x') \subseteq KeysOf(x) \union KeysOf(BatchOf(o, a))
            /\ \A k \in KeysOf(BatchOf(o, a)) : \E i \in 1..Len(x') : KEqv(t, cm, Key(x'[i]), k)
            /\ t.multi => Len(x') = Len(x) + Len(BatchOf(o, a))
      [] o \in {"ctor_rng", "ctor_il", "il"} ->
            /\ \A k \in KeysOf(BatchOf(o, a)) : \E i \in 1..Len(x') : KEqv(t, cm', Key(x'[i]), k)
            /\ \A i \in 1..Len(x') : Has1(BatchOf(o, a), x'[i])
            /\ t.multi => Len(x') = Len(BatchOf(o, a))
      [] o = "erase_key" -> /\ OthersKept(a[1]) /\ \A i \in 1..Len(x') : ~KEqv(t, cm, Key(x'[i]), a[1])
      [] o = "erase_al" -> LET k == Key(x[a[1] + 1]) IN OthersKept(k) /\ \A i \in 1..Len(x') : ~KEqv(t, cm, Key(x'[i]), k)
      [] o \in {"erase", "erase_rng"} ->
            LET q == IF o = "erase" THEN a[1] + 1 ELSE a[2] IN
            /\ Len(x') = Len(x) - (q - a[1])
            /\ \A i \in 1..Len(x) : (i <= a[1] \/ i > q) => Has1(x', x[i])
      [] o = "erase_if" -> \A i \in 1..Len(x) : Has1(x', x[i]) = (x[i] % a[1] # a[2])
      [] o \in {"copy", "move", "ctor_copy", "ctor_copya", "ctor_move", "ctor_movea", "swap", "swap_nm"} -> x' = y /\ cm' = ycm
      [] o \in {"setm", "at"} -> KeysOf(x') = KeysOf(x) /\ Len(x') = Len(x)
      [] o \in ReadOps \union ReserveOps \union {"self_copy", "self_swap"} -> x' = x
      [] OTHER -> TRUE

\* lookups of sorted contents agree with each other
BoundsLaw == (t.ordered /\ step = 0) =>
    \A k \in Ks : /\ LB(cm, x, k) <= UB(cm, x, k)
                  /\ UB(cm, x, k) - LB(cm, x, k) = Cardinality(Matches(t, cm, x, k))
                  /\ \A i \in (LB(cm, x, k) + 1)..UB(cm, x, k) : i \in Matches(t, cm, x, k)

\* elements are neither invented nor duplicated by unique containers
DistinctInv == t.seq \/ t.multi \/ \A i, j \in 1..Len(x) : i # j => Key(x[i]) # Key(x[j])

SwapLaw == call'.o \in SwapOps => x' = y /\ y' = x /\ cm' = ycm /\ ycm' = cm
OtherLaw == call'.o \notin SwapOps \union MoveOps => y' = y /\ ycm' = ycm

Laws == [][(IF t.seq THEN SeqLaw ELSE AssocLaw) /\ SwapLaw /\ OtherLaw]_vars
=============================================================================
