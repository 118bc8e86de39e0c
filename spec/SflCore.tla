------------------------------ MODULE SflCore ------------------------------
(***************************************************************************)
(* The abstract state of an sfl container and the relation every public    *)
(* operation must establish between the state before and the state after.  *)
(*                                                                         *)
(* One slot (a container object) is a record                               *)
(*   v  the elements in iteration order, each an integer                   *)
(*   z  size()        c  capacity()                                        *)
(*   f  available_front() (0 when there is none)    b  available()/_back() *)
(*   al identity of the allocator   cm  state of the comparator / equality *)
(*   st where data() points: 0 nowhere, 1 inside the object, 2 elsewhere   *)
(* The world is a pair of slots of one container type.                     *)
(*                                                                         *)
(* Elements of associative containers encode key, tag and mapped value:    *)
(*   v = key*10000 + tag*100 + mapped.  Tags tell equivalent keys apart;   *)
(*   they are invisible to comparators.  -1 is a moved-from key, a mapped  *)
(*   part of 99 is a moved-from mapped value.                              *)
(*                                                                         *)
(* This module is the single source of truth: SflModel explores it         *)
(* exhaustively, SflTrace holds recorded executions of the real code       *)
(* against it.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b

Rep(n, x) == [i \in 1..n |-> x]
Range(s) == {s[i] : i \in 1..Len(s)}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, Min(n, Len(s)))
InsertAt(s, p, w) == Take(s, p) \o w \o Drop(s, p)          \* p is 0-based
RemoveRng(s, p, q) == Take(s, p) \o Drop(s, q)              \* [p, q) 0-based
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
BagEq(s, t) == Len(s) = Len(t) /\ \A x \in Range(s) : Count(s, x) = Count(t, x)
Filter(s, P(_)) == SelectSeq(s, P)

\* the elements of s, in order, occur in t
RECURSIVE SubseqFrom(_, _, _, _)
SubseqFrom(s, i, t, j) ==
    IF i > Len(s) THEN TRUE
    ELSE IF j > Len(t) THEN FALSE
    ELSE IF s[i] = t[j] THEN SubseqFrom(s, i + 1, t, j + 1)
    ELSE SubseqFrom(s, i, t, j + 1)
IsSubseqOf(s, t) == SubseqFrom(s, 1, t, 1)

Key(v) == IF v < 0 THEN -1 ELSE v \div 10000
WithMapped(v, m) == (v \div 100) * 100 + m
KeyPart(v) == (v \div 100) * 100
MapPart(v) == v % 100

-----------------------------------------------------------------------------
(* Container types.                                                        *)
(* fam: "vec" "compact" "seg" "dev" "segdev"  growth behaviour             *)
(*      "small" inline storage for N, heap beyond; "static" inline only    *)
SeqNames == {"vector", "compact_vector", "small_vector", "static_vector",
             "segmented_vector", "devector", "segmented_devector"}
Families == {"flat", "unordered_flat"}

Ty(name, fam, ordered, map, multi) ==
    [name |-> name, fam |-> fam, seq |-> name \in SeqNames,
     ordered |-> ordered, map |-> map, multi |-> multi,
     static |-> fam = "static", small |-> fam = "small",
     heap |-> fam # "static"]

TypeOf(name) ==
    CASE name = "vector"             -> Ty(name, "vec", FALSE, FALSE, FALSE)
      [] name = "compact_vector"     -> Ty(name, "compact", FALSE, FALSE, FALSE)
      [] name = "small_vector"       -> Ty(name, "small", FALSE, FALSE, FALSE)
      [] name = "static_vector"      -> Ty(name, "static", FALSE, FALSE, FALSE)
      [] name = "segmented_vector"   -> Ty(name, "seg", FALSE, FALSE, FALSE)
      [] name = "devector"           -> Ty(name, "dev", FALSE, FALSE, FALSE)
      [] name = "segmented_devector" -> Ty(name, "segdev", FALSE, FALSE, FALSE)
      [] name = "small_flat_set"      -> Ty(name, "small", TRUE, FALSE, FALSE)
      [] name = "small_flat_map"      -> Ty(name, "small", TRUE, TRUE, FALSE)
      [] name = "small_flat_multiset" -> Ty(name, "small", TRUE, FALSE, TRUE)
      [] name = "small_flat_multimap" -> Ty(name, "small", TRUE, TRUE, TRUE)
      [] name = "small_unordered_flat_set"      -> Ty(name, "small", FALSE, FALSE, FALSE)
      [] name = "small_unordered_flat_map"      -> Ty(name, "small", FALSE, TRUE, FALSE)
      [] name = "small_unordered_flat_multiset" -> Ty(name, "small", FALSE, FALSE, TRUE)
      [] name = "small_unordered_flat_multimap" -> Ty(name, "small", FALSE, TRUE, TRUE)
      [] name = "static_flat_set"      -> Ty(name, "static", TRUE, FALSE, FALSE)
      [] name = "static_flat_map"      -> Ty(name, "static", TRUE, TRUE, FALSE)
      [] name = "static_flat_multiset" -> Ty(name, "static", TRUE, FALSE, TRUE)
      [] name = "static_flat_multimap" -> Ty(name, "static", TRUE, TRUE, TRUE)
      [] name = "static_unordered_flat_set"      -> Ty(name, "static", FALSE, FALSE, FALSE)
      [] name = "static_unordered_flat_map"      -> Ty(name, "static", FALSE, TRUE, FALSE)
      [] name = "static_unordered_flat_multiset" -> Ty(name, "static", FALSE, FALSE, TRUE)
      [] name = "static_unordered_flat_multimap" -> Ty(name, "static", FALSE, TRUE, TRUE)

-----------------------------------------------------------------------------
(* Keys.                                                                   *)
KLess(cm, a, b) == IF cm = 0 THEN a < b ELSE b < a
KEqv(t, cm, a, b) == IF t.ordered \/ cm = 0 THEN a = b ELSE a \div 2 = b \div 2
Eqv(t, cm, x, y) == KEqv(t, cm, Key(x), Key(y))

Matches(t, cm, s, k) == {i \in 1..Len(s) : KEqv(t, cm, Key(s[i]), k)}

SortedBy(cm, s) == \A i \in 1..(Len(s) - 1) : ~KLess(cm, Key(s[i + 1]), Key(s[i]))
UniqueBy(t, cm, s) == \A i, j \in 1..Len(s) : i < j => ~Eqv(t, cm, s[i], s[j])

\* lower / upper bound of key k, 0-based positions
LB(cm, s, k) == Cardinality({i \in 1..Len(s) : KLess(cm, Key(s[i]), k)})
UB(cm, s, k) == Cardinality({i \in 1..Len(s) : ~KLess(cm, k, Key(s[i]))})

\* the state invariant of associative contents
AssocInv(t, cm, s) ==
    /\ t.ordered => SortedBy(cm, s)
    /\ ~t.multi => UniqueBy(t, cm, s)

\* insertion of one element into a container with unique keys: an element already there wins
AddUnique(t, cm, s, v) ==
    IF Matches(t, cm, s, Key(v)) # {} THEN s
    ELSE IF t.ordered THEN InsertAt(s, LB(cm, s, Key(v)), <<v>>)
    ELSE Append(s, v)

RECURSIVE AddAllUnique(_, _, _, _)
AddAllUnique(t, cm, s, w) ==
    IF w = <<>> THEN s ELSE AddAllUnique(t, cm, AddUnique(t, cm, s, Head(w)), Tail(w))

(* Contents x2 that inserting w one after the other into x may produce.    *)
(* Where the position of a new element among equivalent ones, or the order *)
(* of an unordered container, is unspecified every choice is allowed; the  *)
(* elements already in an ordered container keep their relative order.     *)
AddedOK(t, cm, x, w, x2) ==
    IF t.multi
    THEN /\ BagEq(x2, x \o w)
         /\ t.ordered => SortedBy(cm, x2) /\ IsSubseqOf(x, x2)
    ELSE LET e == AddAllUnique(t, cm, x, w)
         IN IF t.ordered THEN x2 = e
            ELSE IF Len(e) = Len(x) THEN x2 = x ELSE BagEq(x2, e)

-----------------------------------------------------------------------------
(* Operations.  A call is [o |-> name, s |-> slot 0/1, a |-> arguments].   *)

CtorOps == {"ctor_def", "ctor_n", "ctor_nd", "ctor_nv", "ctor_rng", "ctor_il",
            "ctor_copy", "ctor_copya", "ctor_move", "ctor_movea"}
SwapOps == {"swap", "swap_nm"}
MoveOps == {"move", "ctor_move", "ctor_movea"}
CopyOps == {"copy", "ctor_copy", "ctor_copya"}
ReadOps == {"views", "iter", "cmp", "cmp_eq", "idx", "front", "back", "nth", "iof", "lookup", "look1", "comp"}
ReserveOps == {"reserve", "reserve_front", "reserve_back", "shrink"}

\* arguments of a sequence constructor: <<with allocator?, allocator, ...>>
SeqX(t, o, a, x, y) ==
    CASE o \in {"clear", "ctor_def"} -> <<>>
      [] o \in {"ctor_n", "ctor_nd"} -> Rep(a[3], 0)
      [] o = "ctor_nv" -> Rep(a[3], a[4])
      [] o = "ctor_rng" -> Drop(a, 3)
      [] o = "ctor_il" -> Drop(a, 2)
      [] o \in {"ctor_copy", "ctor_copya", "ctor_move", "ctor_movea", "copy", "move", "swap", "swap_nm"} -> y
      [] o \in {"self_copy", "self_swap"} -> x
      [] o = "assign_nv" -> Rep(a[1], a[2])
      [] o = "assign_rng" -> Tail(a)
      [] o \in {"assign_il", "il"} -> a
      [] o \in {"emplace", "insert", "insert_m"} -> InsertAt(x, a[1], <<a[2]>>)
      [] o = "insert_nv" -> InsertAt(x, a[1], Rep(a[2], a[3]))
      [] o = "insert_rng" -> InsertAt(x, a[1], Drop(a, 2))
      [] o = "insert_il" -> InsertAt(x, a[1], Tail(a))
      [] o \in {"emplace_back", "push_back", "push_back_m"} -> Append(x, a[1])
      [] o \in {"emplace_front", "push_front", "push_front_m"} -> <<a[1]>> \o x
      [] o = "pop_back" -> Take(x, Len(x) - 1)
      [] o = "pop_front" -> Tail(x)
      [] o = "erase" -> RemoveRng(x, a[1], a[1] + 1)
      [] o = "erase_rng" -> RemoveRng(x, a[1], a[2])
      [] o \in {"resize", "resize_d", "resize_back"} ->
            IF a[1] <= Len(x) THEN Take(x, a[1]) ELSE x \o Rep(a[1] - Len(x), 0)
      [] o \in {"resize_v", "resize_back_v"} ->
            IF a[1] <= Len(x) THEN Take(x, a[1]) ELSE x \o Rep(a[1] - Len(x), a[2])
      [] o = "resize_front" ->
            IF a[1] <= Len(x) THEN Drop(x, Len(x) - a[1]) ELSE Rep(a[1] - Len(x), 0) \o x
      [] o = "resize_front_v" ->
            IF a[1] <= Len(x) THEN Drop(x, Len(x) - a[1]) ELSE Rep(a[1] - Len(x), a[2]) \o x
      \* the argument refers to an element of the container itself
      [] o \in {"emplace_al", "insert_al"} -> InsertAt(x, a[1], <<x[a[2] + 1]>>)
      [] o = "emplace_alm" -> InsertAt([x EXCEPT ![a[2] + 1] = -1], a[1], <<x[a[2] + 1]>>)
      [] o = "insert_nv_al" -> InsertAt(x, a[1], Rep(a[2], x[a[3] + 1]))
      [] o \in {"push_back_al", "emplace_back_al"} -> Append(x, x[a[1] + 1])
      [] o = "emplace_back_alm" -> Append([x EXCEPT ![a[1] + 1] = -1], x[a[1] + 1])
      [] o \in {"push_front_al", "emplace_front_al"} -> <<x[a[1] + 1]>> \o x
      [] o = "emplace_front_alm" -> <<x[a[1] + 1]>> \o [x EXCEPT ![a[1] + 1] = -1]
      [] o \in {"resize_v_al", "resize_back_v_al"} ->
            IF a[1] <= Len(x) THEN Take(x, a[1]) ELSE x \o Rep(a[1] - Len(x), x[a[2] + 1])
      [] o = "resize_front_v_al" ->
            IF a[1] <= Len(x) THEN Drop(x, Len(x) - a[1]) ELSE Rep(a[1] - Len(x), x[a[2] + 1]) \o x
      [] o = "set" -> [x EXCEPT ![a[1] + 1] = a[3]]
      [] o = "nm_erase" -> LET P(u) == u # a[1] IN Filter(x, P)
      [] o = "erase_if" -> LET P(u) == u % a[1] # a[2] IN Filter(x, P)
      [] o = "bulk_pb" -> x \o [i \in 1..a[1] |-> i]
      [] o = "bulk_pf" -> [i \in 1..a[1] |-> a[1] + 1 - i] \o x
      [] o = "bulk_q" -> (IF x = <<>> THEN x ELSE Drop(x, a[1]))         \* contents are not logged here
      [] OTHER -> x

\* resize without a named end may extend at either end (devector, segmented_devector document it)
EitherEnd(t, o, a, x) == t.fam \in {"dev", "segdev"} /\ o \in {"resize", "resize_v", "resize_v_al"} /\ a[1] > Len(x)
FillOf(o, a, x) == IF o = "resize" THEN 0 ELSE IF o = "resize_v" THEN a[2] ELSE x[a[2] + 1]

SeqElemsOK(t, o, a, x, y, x2) ==
    IF EitherEnd(t, o, a, x)
    THEN LET d == a[1] - Len(x) IN
         \E i \in 0..d : x2 = Rep(i, FillOf(o, a, x)) \o x \o Rep(d - i, FillOf(o, a, x))
    ELSE x2 = SeqX(t, o, a, x, y)

-----------------------------------------------------------------------------
(* Associative operations.                                                 *)
\* assoc constructor arguments: <<cv, cm, al, ...>>
NewCm(o, a) == IF a[1] \in {1, 3} THEN a[2] ELSE 0
NewAl(o, a) == IF a[1] \in {2, 3} THEN a[3] ELSE 1

\* the element a single-element insertion would add
InsVal(o, a) ==
    CASE o \in {"insert", "insert_m", "emplace", "insert_p", "insert_k", "try_emplace", "htry_emplace",
                "ins_assign", "hins_assign"} -> a[1]
      [] o \in {"hinsert", "hinsert_m", "hemplace", "hinsert_p", "hinsert_k"} -> a[2]
      [] OTHER -> 0
InsOps == {"insert", "insert_m", "emplace", "insert_p", "insert_k", "hinsert", "hinsert_m", "hemplace",
           "hinsert_p", "hinsert_k"}
TryOps == {"try_emplace", "htry_emplace"}
AsgOps == {"ins_assign", "hins_assign"}
HintOps == {"hinsert", "hinsert_m", "hemplace", "hinsert_p", "hinsert_k", "htry_emplace", "hins_assign", "hinsert_al"}

\* the value an aliasing insertion adds: read before the call changes anything
AlVal(o, a, x) ==
    CASE o \in {"insert_al", "emplace_al"} -> x[a[1] + 1]
      [] o = "hinsert_al" -> x[a[2] + 1]
      [] o \in {"try_emplace_al", "ins_assign_al"} -> KeyPart(a[2]) + MapPart(x[a[1] + 1])
      [] o = "ins_assign_kal" -> KeyPart(x[a[1] + 1]) + MapPart(a[2])
      [] OTHER -> 0

OneVal(o, a, x) ==
    IF o \in {"insert_al", "emplace_al", "hinsert_al", "try_emplace_al", "ins_assign_al", "ins_assign_kal"}
    THEN AlVal(o, a, x)
    ELSE IF o = "sub" THEN a[1] ELSE InsVal(o, a)

AssignOps == AsgOps \union {"ins_assign_al", "ins_assign_kal"}

\* operations that add at most one element
OneOps == InsOps \union TryOps \union {"insert_al", "emplace_al", "hinsert_al", "try_emplace_al"}

FirstMatch(t, cm, s, v) == CHOOSE i \in Matches(t, cm, s, Key(v)) : \A j \in Matches(t, cm, s, Key(v)) : i <= j

ElemFilter(t, cm, o, a, x, u) ==      \* does element u stay?
    CASE o = "erase_key" -> ~KEqv(t, cm, Key(u), a[1])
      [] o = "erase_al" -> ~Eqv(t, cm, u, x[a[1] + 1])
      [] o = "erase_if" -> u % a[1] # a[2]

AssocElemsOK(t, cm, o, a, x, y, x2) ==
    CASE o \in {"clear", "ctor_def"} -> x2 = <<>>
      [] o = "ctor_rng" -> AddedOK(t, cm, <<>>, Drop(a, 4), x2)
      [] o = "ctor_il" -> AddedOK(t, cm, <<>>, Drop(a, 3), x2)
      [] o = "il" -> AddedOK(t, cm, <<>>, a, x2)
      [] o \in {"ctor_copy", "ctor_copya", "ctor_move", "ctor_movea", "copy", "move", "swap", "swap_nm"} ->
            IF t.ordered THEN x2 = y ELSE BagEq(x2, y)
      [] o \in {"self_copy", "self_swap"} -> IF t.ordered THEN x2 = x ELSE BagEq(x2, x)
      [] o = "insert_rng" -> AddedOK(t, cm, x, Tail(a), x2)
      [] o = "insert_il" -> AddedOK(t, cm, x, a, x2)
      [] o \in OneOps -> AddedOK(t, cm, x, <<OneVal(o, a, x)>>, x2)
      [] o \in AssignOps ->
            LET v == OneVal(o, a, x) IN
            IF Matches(t, cm, x, Key(v)) = {} THEN AddedOK(t, cm, x, <<v>>, x2)
            ELSE x2 = [x EXCEPT ![FirstMatch(t, cm, x, v)] = WithMapped(@, MapPart(v))]
      [] o = "sub" ->
            IF Matches(t, cm, x, Key(a[1])) = {} THEN AddedOK(t, cm, x, <<KeyPart(a[1]) + a[3]>>, x2)
            ELSE IF a[3] > 0 THEN x2 = [x EXCEPT ![FirstMatch(t, cm, x, a[1])] = WithMapped(@, a[3])]
            ELSE x2 = x
      [] o = "at" ->
            IF a[3] > 0 /\ a[2] < 2 THEN x2 = [x EXCEPT ![FirstMatch(t, cm, x, a[1] * 10000)] = WithMapped(@, a[3])]
            ELSE x2 = x
      [] o = "setm" -> x2 = [x EXCEPT ![a[1] + 1] = WithMapped(@, a[2])]
      [] o = "erase" -> LET e == RemoveRng(x, a[1], a[1] + 1) IN IF t.ordered THEN x2 = e ELSE BagEq(x2, e)
      [] o = "erase_rng" -> LET e == RemoveRng(x, a[1], a[2]) IN IF t.ordered THEN x2 = e ELSE BagEq(x2, e)
      [] o \in {"erase_key", "erase_al", "erase_if"} ->
            LET P(u) == ElemFilter(t, cm, o, a, x, u)
                e == Filter(x, P)
            IN IF t.ordered THEN x2 = e ELSE BagEq(x2, e)
      [] o = "bulk_ins" -> TRUE
      [] OTHER -> x2 = x

ElemsOK(t, cm, o, a, x, y, x2) ==
    IF t.seq THEN SeqElemsOK(t, o, a, x, y, x2) ELSE AssocElemsOK(t, cm, o, a, x, y, x2)

-----------------------------------------------------------------------------
(* Results.                                                                *)
B(p) == IF p THEN 1 ELSE 0

SeqRetOK(t, o, a, x, y, x2, r) ==
    CASE o \in {"emplace", "insert", "insert_m", "insert_nv", "insert_rng", "insert_il",
                "emplace_al", "emplace_alm", "insert_al", "insert_nv_al"} -> r = <<a[1]>>
      [] o \in {"erase", "erase_rng"} -> r = <<a[1]>>
      [] o \in {"emplace_back", "emplace_front", "il", "copy", "move", "self_copy"} -> r = <<1>>
      [] o \in {"at", "idx"} -> r = <<x[a[1] + 1]>>
      [] o = "front" -> r = <<x[1]>>
      [] o = "back" -> r = <<x[Len(x)]>>
      [] o \in {"nth", "iof"} -> r = <<a[1]>>
      [] o \in {"nm_erase", "erase_if"} -> r = <<Len(x) - Len(x2)>>
      [] OTHER -> TRUE

LookupOK(t, cm, x, k, r) ==
    LET m == Matches(t, cm, x, k) IN
    /\ (IF m = {} THEN r[1] = Len(x) ELSE (r[1] + 1) \in m)
    /\ r[2] = Cardinality(m)
    /\ r[3] = B(m # {})
    /\ t.ordered => /\ r[4] = LB(cm, x, k) /\ r[5] = UB(cm, x, k)
                    /\ r[6] = LB(cm, x, k) /\ r[7] = UB(cm, x, k)

AssocRetOK(t, cm, o, a, x, y, x2, r) ==
    CASE o \in OneOps \union AssignOps ->
            LET v == OneVal(o, a, x)
                new == t.multi \/ Matches(t, cm, x, Key(v)) = {}
            IN /\ r[1] >= 0 /\ r[1] < Len(x2)
               /\ Eqv(t, cm, x2[r[1] + 1], v)
               /\ new => x2[r[1] + 1] = v
               /\ r[2] # -1 => r[2] = B(new)
               /\ (~t.multi /\ o \notin HintOps) => r[2] # -1
      [] o \in {"erase", "erase_rng"} ->
            LET q == IF o = "erase" THEN a[1] + 1 ELSE a[2] IN
            /\ r = <<a[1]>>
            \* an erase loop visits every remaining element exactly once
            /\ BagEq(Take(x2, a[1]), Take(x, a[1]))
            /\ BagEq(Drop(x2, a[1]), Drop(x, q))
      [] o \in {"erase_key", "erase_al", "erase_if"} -> r = <<Len(x) - Len(x2)>>
      [] o = "lookup" -> LookupOK(t, cm, x, a[1], r)
      [] o = "look1" ->
            LET m == Matches(t, cm, x, a[1]) IN
            (CASE a[2] = 0 -> (IF m = {} THEN r[1] = Len(x) ELSE (r[1] + 1) \in m)
              [] a[2] = 1 -> r[1] = Cardinality(m)
              [] a[2] = 2 -> r[1] = B(m # {})
              [] a[2] \in {3, 5} -> r[1] = LB(cm, x, a[1])
              [] a[2] = 4 -> r[1] = UB(cm, x, a[1]))
      [] o \in {"nth", "iof"} -> r = <<a[1]>>
      [] o = "comp" -> IF t.ordered THEN r = <<B(KLess(cm, a[1], a[2])), B(KLess(cm, a[1], a[2]))>>
                       ELSE IF t.map THEN r = <<B(KEqv(t, cm, a[1], a[2])), B(KEqv(t, cm, a[1], a[2]))>>
                       ELSE r = <<B(KEqv(t, cm, a[1], a[2]))>>
      [] o \in {"il", "copy", "move", "self_copy"} -> r = <<1>>
      [] o = "sub" ->
            LET m == Matches(t, cm, x, Key(a[1])) IN
            r = <<IF m = {} THEN 0 ELSE MapPart(x[FirstMatch(t, cm, x, a[1])])>>
      [] o = "at" -> r = <<MapPart(x[FirstMatch(t, cm, x, a[1] * 10000)])>>
      [] OTHER -> TRUE

\* lexicographic order by element value
RECURSIVE LexLess(_, _, _)
LexLess(x, y, i) ==
    IF i > Len(y) THEN FALSE ELSE IF i > Len(x) THEN TRUE
    ELSE IF x[i] < y[i] THEN TRUE ELSE IF y[i] < x[i] THEN FALSE ELSE LexLess(x, y, i + 1)

CmpOK(t, x, y, r) ==
    LET eq == IF t.seq \/ t.ordered THEN x = y ELSE BagEq(x, y) IN
    /\ r[1] = B(eq) /\ r[2] = B(~eq)
    /\ (t.seq \/ t.ordered) =>
         /\ r[3] = B(LexLess(x, y, 1)) /\ r[4] = B(LexLess(y, x, 1))
         /\ r[5] = B(~LexLess(y, x, 1)) /\ r[6] = B(~LexLess(x, y, 1))

RetOK(t, cm, o, a, x, y, x2, r) ==
    IF o = "cmp" THEN CmpOK(t, x, y, r)
    ELSE IF o = "cmp_eq" THEN r = <<B(IF t.seq \/ t.ordered THEN x = y ELSE BagEq(x, y))>>
    ELSE IF t.seq THEN SeqRetOK(t, o, a, x, y, x2, r) ELSE AssocRetOK(t, cm, o, a, x, y, x2, r)

(* What the call may have done to its argument objects (key, mapped).      *)
ArgsOK(t, cm, o, a, x, am) ==
    CASE t.seq -> am = <<a[Len(a)]>>                         \* const arguments stay
      [] o \in {"insert", "hinsert"} ->
            LET v == InsVal(o, a) IN
            IF t.map THEN am = <<KeyPart(v), MapPart(v)>> ELSE am = <<v>>
      [] o \in TryOps ->
            LET hit == Matches(t, cm, x, Key(a[1])) # {} IN
            IF hit THEN am = <<KeyPart(a[1]), MapPart(a[1])>>       \* nothing is moved from
            ELSE /\ am[1] = (IF a[2] = 1 THEN -1 ELSE KeyPart(a[1]))
                 /\ am[2] = (IF a[2] = 3 THEN MapPart(a[1]) ELSE -1)
      [] o \in AsgOps ->
            LET hit == Matches(t, cm, x, Key(a[1])) # {} IN
            /\ am[1] = (IF a[2] = 1 /\ ~hit THEN -1 ELSE KeyPart(a[1]))
            /\ am[2] = (IF a[2] = 0 THEN MapPart(a[1]) ELSE -1)
      [] o = "sub" ->
            LET hit == Matches(t, cm, x, Key(a[1])) # {} IN
            am = <<IF a[2] = 1 /\ ~hit THEN -1 ELSE KeyPart(a[1])>>
      [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Errors the interface documents.                                         *)
MustThrowOor(t, cm, o, a, x) ==
    o = "at" /\ (IF t.seq THEN a[1] >= Len(x) ELSE Matches(t, cm, x, a[1]) = {})

-----------------------------------------------------------------------------
(* Documented preconditions ("asserted in debug mode").  Violated: the call *)
(* must stop the program before it does anything.  p, q: slots before.     *)
PosOps == {"emplace", "insert", "insert_m", "insert_nv", "insert_rng", "insert_il", "hinsert", "hinsert_m", "hemplace",
           "hinsert_p", "hinsert_k"}
OneEndOps == {"emplace_back", "push_back", "push_back_m", "emplace_front", "push_front", "push_front_m"}

\* how many elements a static container must have room for; documented per overload
Adds(t, o, a, p) ==
    CASE t.seq /\ o \in {"emplace", "insert", "insert_m"} \union OneEndOps -> 1
      [] t.seq /\ o = "insert_nv" -> a[2]
      [] t.seq /\ o = "insert_rng" -> Len(a) - 2
      [] t.seq /\ o = "insert_il" -> Len(a) - 1
      [] ~t.seq /\ o \in InsOps \union TryOps \union {"sub"} -> 1
      [] ~t.seq /\ o \in AsgOps -> (IF Matches(t, p.cm, p.v, Key(a[1])) = {} THEN 1 ELSE 0)
      [] ~t.seq /\ o \in {"insert_rng", "insert_il"} ->
            LET w == IF o = "insert_rng" THEN Tail(a) ELSE a IN
            IF t.multi THEN Len(w) ELSE Len(AddAllUnique(t, p.cm, p.v, w)) - Len(p.v)
      [] OTHER -> 0
\* how many elements a static container is asked to hold
Holds(t, o, a) ==
    CASE t.seq /\ o \in {"ctor_n", "ctor_nv", "ctor_nd"} -> a[3]
      [] t.seq /\ o = "ctor_rng" -> Len(a) - 3
      [] t.seq /\ o = "ctor_il" -> Len(a) - 2
      [] t.seq /\ o \in {"assign_nv", "resize", "resize_v", "resize_d"} -> a[1]
      [] t.seq /\ o = "assign_rng" -> Len(a) - 1
      [] t.seq /\ o \in {"assign_il", "il"} -> Len(a)
      [] ~t.seq /\ o = "ctor_rng" -> (IF t.multi THEN Len(a) - 4 ELSE Len(AddAllUnique(t, NewCm(o, a), <<>>, Drop(a, 4))))
      [] ~t.seq /\ o = "ctor_il" -> (IF t.multi THEN Len(a) - 3 ELSE Len(AddAllUnique(t, NewCm(o, a), <<>>, Drop(a, 3))))
      [] ~t.seq /\ o = "il" -> (IF t.multi THEN Len(a) ELSE 0)
      [] OTHER -> 0

Violates(t, n, prop, o, a, p, q) ==
    \/ CASE o \in PosOps /\ (t.seq \/ o \notin {"insert", "insert_m", "emplace", "insert_rng", "insert_il"}) -> a[1] < 0 \/ a[1] > p.z
         [] o \in {"htry_emplace", "hins_assign"} -> a[3] < 0 \/ a[3] > p.z
         [] o = "erase" -> a[1] < 0 \/ a[1] >= p.z
         [] o = "erase_rng" -> a[1] < 0 \/ a[1] > a[2] \/ a[2] > p.z
         [] o = "idx" -> a[1] < 0 \/ a[1] >= p.z
         [] o \in {"nth", "iof"} -> a[1] < 0 \/ a[1] > p.z
         [] o \in {"front", "back", "pop_back", "pop_front"} -> p.z = 0
         [] o \in SwapOps -> t.heap /\ ~prop /\ p.al # q.al
         [] OTHER -> FALSE
    \/ t.static /\ (p.z + Adds(t, o, a, p) > n \/ Holds(t, o, a) > n)

-----------------------------------------------------------------------------
(* Allocator and comparator propagation.  prop: do the allocators of this  *)
(* configuration propagate on copy assignment, move assignment and swap?   *)
Soc(al) == IF al < 10 THEN al + 10 ELSE al        \* select_on_container_copy_construction
SeqNewAl(a) == IF a[1] # 0 THEN a[2] ELSE 1

\* pr: 0 never, 1 always, 2 on copy assignment only, 3 on move assignment only, 4 on swap only
PropOf(pr, o) == \/ pr = 1
                 \/ pr = 2 /\ o = "copy"
                 \/ pr = 3 /\ o = "move"
                 \/ pr = 4 /\ o \in SwapOps

AlOf(t, prop, o, a, p, q) ==     \* p: slot before, q: other slot before
    CASE ~t.heap -> 0
      [] o \in {"ctor_def", "ctor_n", "ctor_nd", "ctor_nv", "ctor_rng", "ctor_il"} -> (IF t.seq THEN SeqNewAl(a) ELSE NewAl(o, a))
      [] o = "ctor_copy" -> Soc(q.al)
      [] o \in {"ctor_copya", "ctor_movea"} -> a[1]
      [] o = "ctor_move" -> q.al
      [] o \in {"copy", "move", "swap", "swap_nm"} -> (IF prop THEN q.al ELSE p.al)
      [] OTHER -> p.al

CmOf(t, o, a, p, q) ==
    CASE t.seq -> 0
      [] o \in {"ctor_def", "ctor_rng", "ctor_il"} -> NewCm(o, a)
      [] o \in CopyOps \union MoveOps \union SwapOps -> q.cm
      [] OTHER -> p.cm

\* allocator and comparator of the other slot
AlOther(t, prop, o, p, q) == IF o \in SwapOps /\ prop /\ t.heap THEN p.al ELSE q.al
CmOther(t, o, p, q) == IF o \in SwapOps THEN p.cm ELSE q.cm

-----------------------------------------------------------------------------
(* Storage.                                                                *)

\* well-formedness of one slot, whatever happened before
StructOK(t, n, p) ==
    /\ p.z = Len(p.v)
    /\ p.c >= p.z /\ p.f >= 0 /\ p.b >= 0
    /\ CASE t.fam = "vec"     -> p.b = p.c - p.z /\ p.f = 0 /\ p.st = (IF p.c = 0 THEN 0 ELSE 2)
         [] t.fam = "compact" -> p.c = p.z /\ p.b = 0 /\ p.st = (IF p.c = 0 THEN 0 ELSE 2)
         [] t.fam = "static"  -> p.c = n /\ p.b = n - p.z /\ p.st = 1
         [] t.fam = "small"   -> /\ p.b = p.c - p.z
                                 /\ \/ p.st = 1 /\ p.c = n /\ n > 0
                                    \/ p.st = 2 /\ p.c > n
                                    \/ p.st = 0 /\ p.c = 0          \* N = 0, or storage given away by a move
         [] t.fam = "dev"     -> p.f + p.z + p.b = p.c /\ p.st = (IF p.c = 0 THEN 0 ELSE 2)
         [] t.fam = "seg"     -> p.b = p.c - p.z /\ (p.c + 1) % n = 0
         [] t.fam = "segdev"  -> p.f + p.z + p.b = p.c /\ (p.c + 1) % n = 0

\* element blocks <<allocator, elements>> a slot owns, as [blk |-> <<al, n>>, k |-> how many]
OwnElem(t, n, p) ==
    CASE ~t.heap -> [blk |-> <<0, 0>>, k |-> 0]
      [] t.fam \in {"seg", "segdev"} -> [blk |-> <<p.al, n>>, k |-> (p.c + 1) \div n]
      [] p.st = 2 -> [blk |-> <<p.al, p.c>>, k |-> 1]
      [] OTHER -> [blk |-> <<0, 0>>, k |-> 0]

\* bk: recorded live blocks <<allocator, n, 1 element / 0 other>>
BlocksOK(t, n, p0, p1, bk) ==
    LET o0 == OwnElem(t, n, p0)
        o1 == OwnElem(t, n, p1)
        cnt(b) == Cardinality({i \in 1..Len(bk) : bk[i][3] = 1 /\ bk[i][1] = b[1] /\ bk[i][2] = b[2]})
        want(b) == (IF o0.blk = b THEN o0.k ELSE 0) + (IF o1.blk = b THEN o1.k ELSE 0)
        nelem == Cardinality({i \in 1..Len(bk) : bk[i][3] = 1})
        tab == {i \in 1..Len(bk) : bk[i][3] = 0}
    IN /\ o0.k > 0 => cnt(o0.blk) = want(o0.blk)
       /\ o1.k > 0 => cnt(o1.blk) = want(o1.blk)
       /\ nelem = o0.k + o1.k
       /\ IF t.fam \in {"seg", "segdev"}
          THEN \* one table of segment pointers per container that has segments, from its own allocator
               /\ Cardinality(tab) = B(o0.k > 0) + B(o1.k > 0)
               /\ o0.k > 0 => \E i \in tab : bk[i][1] = p0.al /\ bk[i][2] >= o0.k
               /\ o1.k > 0 => \E i \in tab : bk[i][1] = p1.al /\ bk[i][2] >= o1.k
               /\ (o0.k > 0 /\ o1.k > 0) => \E i, j \in tab : i # j /\ bk[i][1] = p0.al /\ bk[j][1] = p1.al
                                                           /\ bk[i][2] >= o0.k /\ bk[j][2] >= o1.k
          ELSE tab = {}

\* operations that never need more room than they find, except by growing
GrowOps == {"emplace", "insert", "insert_m", "insert_nv", "insert_rng", "insert_il",
            "emplace_back", "push_back", "push_back_m", "emplace_front", "push_front", "push_front_m",
            "emplace_al", "emplace_alm", "insert_al", "insert_nv_al", "push_back_al", "emplace_back_al",
            "emplace_back_alm", "push_front_al", "emplace_front_al", "emplace_front_alm",
            "resize", "resize_d", "resize_v", "resize_v_al", "resize_front", "resize_front_v", "resize_front_v_al",
            "resize_back", "resize_back_v", "resize_back_v_al",
            "hinsert", "hinsert_m", "hemplace", "insert_p", "hinsert_p", "insert_k", "hinsert_k", "hinsert_al",
            "try_emplace", "htry_emplace", "ins_assign", "hins_assign", "sub", "at",
            "try_emplace_al", "ins_assign_al", "ins_assign_kal", "setm", "set"}
ShrinkingOps == {"pop_back", "pop_front", "erase", "erase_rng", "clear", "erase_key", "erase_al", "erase_if", "nm_erase"}
AssignLike == {"assign_nv", "assign_rng", "assign_il", "il"}
FrontOps == {"emplace_front", "push_front", "push_front_m", "push_front_al", "emplace_front_al", "emplace_front_alm",
             "resize_front", "resize_front_v", "resize_front_v_al"}
BackOps == {"emplace_back", "push_back", "push_back_m", "push_back_al", "emplace_back_al", "emplace_back_alm",
            "resize_back", "resize_back_v", "resize_back_v_al", "bulk_pb"}

\* the room an insertion of d elements may count on without reallocating
RoomFor(t, o, p) ==
    IF t.fam \in {"dev", "segdev"}
    THEN IF o \in FrontOps THEN p.f ELSE IF o \in BackOps THEN p.b ELSE Min(p.f, p.b)
    ELSE p.c - p.z

CapKept(p, p2) == p2.c = p.c /\ p2.st = p.st

(* unordered maps document that emplace may construct the element even if  *)
(* its key is present already: a full one may then grow for nothing.       *)
ConstructsFirst(t, o, p, p2) == /\ t.map /\ ~t.ordered /\ ~t.multi /\ p2.z = p.z /\ p.z = p.c
                                /\ o \in {"emplace", "hemplace", "emplace_al"}

(* How an operation may change the storage of the slot it is applied to.   *)
CapOK(t, n, prop, o, a, p, q, p2, q2) ==
    CASE t.fam \in {"static", "compact"} -> TRUE          \* StructOK says it all
      [] o \in ReadOps \union {"self_swap"} -> p2.c = p.c /\ p2.f = p.f /\ p2.b = p.b /\ p2.st = p.st
      [] o \in ShrinkingOps -> /\ CapKept(p, p2)
                               \* removal at one end leaves the room at the other
                               /\ (t.fam \in {"dev", "segdev"} /\ o = "pop_back") => p2.f = p.f
                               /\ (t.fam \in {"dev", "segdev"} /\ o = "pop_front") => p2.b = p.b
      [] o = "reserve" ->
            IF a[1] <= p.c THEN CapKept(p, p2)
            ELSE IF t.fam = "seg" THEN p2.c >= a[1]
            ELSE IF t.fam = "small" THEN p2.c = Max(a[1], n)
            ELSE p2.c = a[1]
      [] o = "reserve_front" ->
            IF a[1] <= p.z + p.f THEN CapKept(p, p2) /\ p2.f = p.f /\ p2.b = p.b
            ELSE p2.z + p2.f >= a[1] /\ p2.b >= p.b
      [] o = "reserve_back" ->
            IF a[1] <= p.z + p.b THEN CapKept(p, p2) /\ p2.f = p.f /\ p2.b = p.b
            ELSE p2.z + p2.b >= a[1] /\ p2.f >= p.f
      [] o = "shrink" ->
            (CASE t.fam = "small" -> (IF p.z > n THEN p2.c = p.z
                                     ELSE IF n < p.c THEN p2.c = n
                                     ELSE CapKept(p, p2))
              [] t.fam \in {"vec", "dev"} -> p2.c = p2.z
              \* segments without elements are released; the slot past the last element may keep one
              [] t.fam = "seg" -> p2.c <= p.c /\ p2.c - p2.z < n
              [] t.fam = "segdev" -> p2.c <= p.c /\ p2.f < n /\ p2.b < n)
      [] o \in GrowOps ->
            /\ IF ConstructsFirst(t, o, p, p2) THEN p2.c >= p.c
               ELSE IF p2.z <= p.z \/ p2.z - p.z <= RoomFor(t, o, p) THEN CapKept(p, p2)
               ELSE p2.c >= p.c
            \* an insertion that finds room at its end leaves the room at the other alone
            /\ (t.fam \in {"dev", "segdev"} /\ o \in FrontOps /\ p2.z - p.z <= p.f) => p2.b = p.b /\ p2.f = p.f - (p2.z - p.z)
            /\ (t.fam \in {"dev", "segdev"} /\ o \in BackOps /\ p2.z - p.z <= p.b) => p2.f = p.f /\ p2.b = p.b - (p2.z - p.z)
      \* (a double-ended container need not use the room at its front to assign)
      [] o \in AssignLike \union {"insert_rng"} -> (IF t.seq /\ p2.z <= (IF t.fam = "dev" THEN p.z + p.b ELSE p.c) /\ t.fam # "segdev" /\ p.c > 0
                                                    THEN CapKept(p, p2) ELSE p2.c >= p2.z)
      [] o \in SwapOps -> /\ p2.c = q.c /\ q2.c = p.c
                          /\ t.fam # "small" => p2.f = q.f /\ p2.b = q.b /\ q2.f = p.f /\ q2.b = p.b
      [] OTHER -> TRUE

(* Inline storage: contents that fit are kept in the object.               *)
InlineOK(t, n, o, p, q, p2, q2, nalloc) ==
    CASE t.fam = "static" -> nalloc = 0
      [] t.fam = "small" ->
            \* an operation on a container in its own storage whose result fits allocates nothing
            /\ (p.st = 1 /\ p2.z <= n /\ ~ConstructsFirst(t, o, p, p2) /\ o \notin MoveOps \union SwapOps \union {"reserve"} \union CtorOps) =>
                    p2.st = 1 /\ nalloc = 0
            /\ (o \in CtorOps \ {"ctor_move", "ctor_movea"} /\ p2.z <= n /\ n > 0) => p2.st = 1 /\ nalloc = 0
            /\ (o \in MoveOps \union SwapOps /\ p.st = 1 /\ q.st = 1) => p2.st = 1 /\ q2.st = 1 /\ nalloc = 0
            /\ (p2.z > n) => p2.st = 2
      [] OTHER -> TRUE
=============================================================================
