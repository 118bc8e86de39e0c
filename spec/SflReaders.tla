----------------------------- MODULE SflReaders -----------------------------
(***************************************************************************)
(* Any number of threads read one container at the same time: every reader *)
(* runs one call on a const container, element by element, interleaved in  *)
(* every possible way.  Scratch says what a call writes while it runs:     *)
(*   "none"      nothing: what the conformance runner demands of every     *)
(*               const call (all memory of the container is unwritable     *)
(*               while the call runs, clause "writes" of SflTrace)         *)
(*   "sentinel"  puts the key behind the elements and takes it away again  *)
(*   "cache"     remembers the last position found inside the container    *)
(* With "none" every reader gets the answer it would get alone (Alone),    *)
(* for all interleavings.  With the others it does not (tools/selftest.py  *)
(* runs those configurations and expects a counterexample), although each  *)
(* call leaves the contents as they were: which is why the check looks for *)
(* writes and not for changed contents.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Readers, MaxLen, Keys, Scratch

VARIABLES v,        \* the elements; one more cell behind them
          cache,    \* the cell a caching call would use: <<key, position>>
          pc, key, what, pos, acc, ans
vars == <<v, cache, pc, key, what, pos, acc, ans>>

N == Len(v) - 1
Calls == {"find", "count", "sum"}

\* the answer to the call when nobody else runs
Seqs == UNION {[1..n -> Keys] : n \in 0..MaxLen}
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
First(s, n, k) == IF \E i \in 1..n : s[i] = k THEN CHOOSE i \in 1..n : s[i] = k /\ \A j \in 1..(i - 1) : s[j] # k ELSE n + 1
Answer(s, n, w, k) == CASE w = "find" -> First(s, n, k)
                        [] w = "count" -> Cardinality({i \in 1..n : s[i] = k})
                        [] OTHER -> Sum(s, n)

Init == /\ v \in {Append(s, 0) : s \in Seqs}
        /\ cache = <<0, 1>>
        /\ pc = [r \in Readers |-> "idle"]
        /\ key \in [Readers -> Keys]
        /\ what \in [Readers -> Calls]
        /\ pos = [r \in Readers |-> 1]
        /\ acc = [r \in Readers |-> 0]
        /\ ans = [r \in Readers |-> -1]

Start(r) == /\ pc[r] = "idle"
            /\ pc' = [pc EXCEPT ![r] = IF what[r] = "find" /\ Scratch = "cache" THEN "look" ELSE "scan"]
            /\ v' = IF what[r] = "find" /\ Scratch = "sentinel" THEN [v EXCEPT ![N + 1] = key[r]] ELSE v
            /\ UNCHANGED <<cache, key, what, pos, acc, ans>>
\* a remembered position for the same key is believed
Look(r) == /\ pc[r] = "look"
           /\ IF cache[1] = key[r]
              THEN /\ pc' = [pc EXCEPT ![r] = "done"] /\ ans' = [ans EXCEPT ![r] = cache[2]]
              ELSE /\ pc' = [pc EXCEPT ![r] = "scan"] /\ UNCHANGED ans
           /\ UNCHANGED <<v, cache, key, what, pos, acc>>
Finish(r, x) == /\ ans' = [ans EXCEPT ![r] = x]
                /\ pc' = [pc EXCEPT ![r] = IF what[r] = "find" /\ Scratch = "cache" THEN "note" ELSE "done"]
                /\ v' = IF what[r] = "find" /\ Scratch = "sentinel" THEN [v EXCEPT ![N + 1] = 0] ELSE v
                /\ UNCHANGED <<cache, key, what, pos, acc>>
Scan(r) == /\ pc[r] = "scan"
           /\ LET last == IF what[r] = "find" /\ Scratch = "sentinel" THEN N + 1 ELSE N IN
              IF pos[r] > last THEN Finish(r, IF what[r] # "find" THEN acc[r] ELSE IF last = N THEN N + 1 ELSE 99)   \* 99: read past the sentinel's place
              ELSE IF what[r] = "find" /\ v[pos[r]] = key[r] THEN Finish(r, pos[r])
              ELSE /\ acc' = [acc EXCEPT ![r] = CASE what[r] = "count" -> @ + (IF v[pos[r]] = key[r] THEN 1 ELSE 0)
                                                   [] what[r] = "sum" -> @ + v[pos[r]]
                                                   [] OTHER -> @]
                   /\ pos' = [pos EXCEPT ![r] = @ + 1]
                   /\ UNCHANGED <<v, cache, pc, key, what, ans>>
\* the cache is written in two steps
Note(r) == /\ pc[r] = "note"
           /\ pc' = [pc EXCEPT ![r] = "note2"] /\ cache' = <<key[r], cache[2]>>
           /\ UNCHANGED <<v, key, what, pos, acc, ans>>
Note2(r) == /\ pc[r] = "note2"
            /\ pc' = [pc EXCEPT ![r] = "done"] /\ cache' = <<cache[1], ans[r]>>
            /\ UNCHANGED <<v, key, what, pos, acc, ans>>
Next == \E r \in Readers : Start(r) \/ Look(r) \/ Scan(r) \/ Note(r) \/ Note2(r)
Spec == Init /\ [][Next]_vars

Alone == \A r \in Readers : pc[r] = "done" => ans[r] = Answer(v, N, what[r], key[r])
Quiet == [][Scratch = "none" => UNCHANGED <<v, cache>>]_vars
=============================================================================
