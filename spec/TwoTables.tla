------------------------------ MODULE TwoTables ------------------------------
(***************************************************************************)
(* The design of the three maps: two hash tables, one per side, whose      *)
(* entries refer to each other by the hash of the other item and by an     *)
(* identifier taken from a counter.                                        *)
(*                                                                         *)
(* A design state is [l |-> set of left entries, r |-> set of right        *)
(* entries, n |-> counter] where an entry holds at least an item v and an  *)
(* identifier id.  The hash functions hl and hr (key -> hash) are chosen   *)
(* arbitrarily and then fixed; hashes are 1, 2, ...                        *)
(*                                                                         *)
(* A lookup in a hash table finds an entry with the right hash and the     *)
(* wanted property if there is one; it may also come across an entry with  *)
(* another hash in the same probe sequence, so that a lookup is only safe  *)
(* if exactly one entry of the whole table has the wanted property.        *)
(***************************************************************************)
EXTENDS MapCommon

VARIABLES hl, hr

NoHash == 0

\* entries with an item of key k, on either side
ByKey(S, k) == {e \in S : K(e.v) = k}

\* the entry of S found by its hash under h and a property, or nothing, or unsure
Unsure == {"unsure", "?"}
Find(S, h, hash, P(_)) ==
    LET may  == {e \in S : P(e)}
        must == {e \in may : h[K(e.v)] = hash}
    IN  IF may = must /\ Cardinality(may) <= 1 THEN may ELSE Unsure
FindL(S, hash, P(_)) == Find(S, hl, hash, P)
FindR(S, hash, P(_)) == Find(S, hr, hash, P)
One(S) == Cardinality(S) = 1      \* found, and for certain: what unwrap() relies on

\* the outcome of an operation of the design, or its failure
Ret(d, res) == [d |-> d, r |-> res, ok |-> TRUE]
Bad(d) == [d |-> d, r |-> Panicked, ok |-> FALSE]
\* continue after a step that may have failed
Then(x, Op(_, _)) == IF x.ok THEN Op(x.d, x.r) ELSE x

IdsUnique(S) == Cardinality({e.id : e \in S}) = Cardinality(S)
KeysUnique(S) == Cardinality({K(e.v) : e \in S}) = Cardinality(S)

\* all hash functions on 1..n up to renaming of the hashes
HashFns(n) == {f \in [1..n -> 1..n] :
                 \A i \in 1..n : \A c \in 1..(f[i] - 1) : \E j \in 1..(i - 1) : f[j] = c}
=============================================================================
