------------------------------ MODULE SflStore ------------------------------
(***************************************************************************)
(* The storage half of the specification: size, capacity, slack at either  *)
(* end and the place of the elements, under every storage-relevant call.   *)
(* The implementation is free in how much it grows, so one call has many   *)
(* allowed results: every result CapOK, InlineOK and StructOK allow is a   *)
(* transition.  Checked are                                                *)
(*   - that every call has an allowed result in every valid state,         *)
(*   - what a user makes of reserve(): the promised number of insertions   *)
(*     follows without reallocation, whatever other calls do in between,   *)
(*   - that capacity is given back by nothing but shrink_to_fit,           *)
(*   - that contents which fit never leave inline storage on their own.    *)
(***************************************************************************)
EXTENDS SflCore, TLC

CONSTANTS MaxC,        \* capacities explored
          Names        \* container types, one per storage family

VARIABLES name, n, p, room, froom, last
vars == <<name, n, p, room, froom, last>>

t == TypeOf(name)
Ids(k) == [i \in 1..k |-> i]
Slot(z, c, f, b, st) == [v |-> Ids(z), z |-> z, c |-> c, f |-> f, b |-> b, al |-> IF t.heap THEN 1 ELSE 0, cm |-> 0, st |-> st]

\* every valid slot within the bound
SlotsOf(c) ==
    CASE t.fam \in {"dev", "segdev"} -> {Slot(z, c, f, c - z - f, IF t.fam = "segdev" \/ c = 0 THEN 0 ELSE 2) : <<z, f>> \in {u \in (0..c) \X (0..c) : u[1] + u[2] <= c}}
      [] t.fam = "small" -> {Slot(z, c, 0, c - z, st) : z \in 0..c, st \in 0..2}
      [] t.fam = "seg" -> {Slot(z, c, 0, c - z, 0) : z \in 0..c}
      [] t.fam = "static" -> {Slot(z, c, 0, c - z, 1) : z \in 0..c}
      [] OTHER -> {Slot(z, c, 0, c - z, IF c = 0 THEN 0 ELSE 2) : z \in 0..c}
Slots == {s \in UNION {SlotsOf(c) : c \in 0..MaxC} : StructOK(t, n, s)}

Dev == t.fam \in {"dev", "segdev"}
C(o, a, z) == [o |-> o, a |-> a, z |-> z]
Calls(s) ==
    {C("clear", <<>>, 0)}
    \union (IF s.z > 0 THEN {C("pop_back", <<>>, s.z - 1), C("erase", <<0>>, s.z - 1)} ELSE {})
    \union (IF s.z > 0 /\ Dev THEN {C("pop_front", <<>>, s.z - 1)} ELSE {})
    \union (IF t.fam = "static" /\ s.z = n THEN {} ELSE {C("push_back", <<9>>, s.z + 1), C("emplace", <<0, 9>>, s.z + 1)})
    \union (IF Dev THEN {C("push_front", <<9>>, s.z + 1)} ELSE {})
    \union (IF t.fam = "static" /\ s.z + 2 > n THEN {} ELSE {C("insert_nv", <<0, 2, 9>>, s.z + 2)})
    \union (IF t.fam \in {"vec", "small", "seg"} THEN {C("reserve", <<k>>, s.z) : k \in 0..(MaxC \div 2)} ELSE {})
    \union (IF Dev THEN {C(o, <<k>>, s.z) : o \in {"reserve_front", "reserve_back"}, k \in 0..(MaxC \div 2)} ELSE {})
    \union (IF t.fam \in {"vec", "small", "seg", "dev", "segdev"} THEN {C("shrink", <<>>, s.z)} ELSE {})

Results(s, k) == {s2 \in UNION {{u \in SlotsOf(c) : u.z = k.z} : c \in 0..MaxC} : StructOK(t, n, s2) /\ CapOK(t, n, TRUE, k.o, k.a, s, s, s2, s)
                                 /\ \E m \in 0..1 : InlineOK(t, n, k.o, s, s, s2, s, m)}

Init == /\ name \in Names
        /\ n \in (CASE TypeOf(name).fam \in {"seg", "segdev"} -> 1..(IF MaxC >= 7 THEN 4 ELSE 2) [] TypeOf(name).fam = "static" -> 0..4 [] TypeOf(name).fam = "small" -> 0..4 [] OTHER -> {0})
        /\ p \in Slots
        /\ room = 0 /\ froom = 0
        /\ last = "none"

\* every call can be answered (capacities beyond the bound are left out)
Total(s) == \A k \in Calls(s) : (k.z <= MaxC \div 2 /\ s.c <= MaxC \div 2) => Results(s, k) # {}

\* insertions promised not to reallocate: at the back for room, at the front for froom
Promise(k, s, r) ==
    CASE k.o = "reserve" -> Max(r, k.a[1] - s.z)
      [] k.o = "reserve_back" -> Max(r, k.a[1] - s.z)
      [] k.o = "push_back" -> r - 1
      [] k.o = "push_front" /\ s.f = 0 -> 0
      \* an insertion elsewhere in a devector may use up the room at either end
      [] k.o \in {"emplace", "insert_nv"} -> (IF Dev THEN 0 ELSE r - (k.z - s.z))
      [] k.o = "pop_back" -> (IF Dev THEN r ELSE r + 1)
      \* where the elements of an emptied devector were is its own business
      [] k.o = "pop_front" -> r
      [] k.o \in {"erase", "clear"} -> (IF Dev THEN 0 ELSE r + s.z - k.z)
      [] k.o = "shrink" -> 0
      [] OTHER -> r
FPromise(k, s, r) ==
    CASE k.o = "reserve_front" -> Max(r, k.a[1] - s.z)
      [] k.o = "push_front" -> r - 1
      \* without room at the back a devector may shift its elements into the room at the front
      [] k.o = "push_back" /\ s.b = 0 -> 0
      [] k.o \in {"shrink", "emplace", "insert_nv", "erase", "clear"} -> 0
      [] OTHER -> r

Next == \E k \in Calls(p) : \E s2 \in Results(p, k) :
            /\ last' = k.o
            /\ p' = s2
            /\ UNCHANGED <<name, n>>
            /\ room' = Max(0, Min(Promise(k, p, room), MaxC))
            /\ froom' = Max(0, Min(FPromise(k, p, froom) , MaxC))

Spec == Init /\ [][Next]_vars

Bound == p.c <= MaxC

Struct == StructOK(t, n, p)
Answered == Total(p)
Promised == (t.fam \in {"vec", "small", "seg"} => p.c - p.z >= room)
            /\ Dev => p.b >= room /\ p.f >= froom
NoGiveBack == [][(last' \notin {"shrink"}) => p'.c >= p.c \/ t.fam = "compact"]_vars
StaysInline == [][(t.fam = "small" /\ p.st = 1 /\ p'.z <= n /\ last' # "reserve") => p'.st = 1]_vars
FitsInline == t.fam = "static" => p.z <= n /\ p.st = 1
Kept == [][(t.fam \in {"vec", "small", "seg"} /\ last' \in {"push_back", "emplace"} /\ room > 0) => p'.c = p.c /\ p'.st = p.st]_vars
KeptBack == [][(Dev /\ last' = "push_back" /\ p.b > 0) => p'.c = p.c]_vars
KeptFront == [][(Dev /\ last' = "push_front" /\ p.f > 0) => p'.c = p.c]_vars
=============================================================================
