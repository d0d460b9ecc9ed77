----------------------------- MODULE HashTable -------------------------------
(***************************************************************************)
(* The sizes of a hash table of the hashbrown kind, which the maps keep    *)
(* their sides in: b buckets, n items, and room to grow by g items.  A     *)
(* removed item may leave a tombstone, which takes up room until the table *)
(* is rehashed or a later item happens to land on it.  Where items land is *)
(* up to the hash function, here to chance: operations return the set of   *)
(* possible outcomes <<table, moved>>.                                     *)
(***************************************************************************)
EXTENDS Naturals

New == [b |-> 0, n |-> 0, g |-> 0]

RECURSIVE Pow2(_, _)
LOCAL Pow2(x, p) == IF p >= x THEN p ELSE Pow2(x, 2 * p)

Full(b) == IF b = 0 THEN 0 ELSE IF b <= 8 THEN b - 1 ELSE (b \div 8) * 7
Buckets(c) == IF c = 0 THEN 0 ELSE IF c < 4 THEN 4 ELSE IF c < 8 THEN 8 ELSE Pow2((c * 8) \div 7, 1)
With(c) == [b |-> Buckets(c), n |-> 0, g |-> Full(Buckets(c))]
Tombs(t) == Full(t.b) - t.n - t.g
Cap(t) == t.n + t.g

Legal(t) == t.n + t.g <= Full(t.b)

Resize(t, c) == [b |-> Buckets(c), n |-> t.n, g |-> Full(Buckets(c)) - t.n]

Reserve(t, k) ==
    IF k <= t.g THEN <<t, FALSE>>
    ELSE IF 2 * (t.n + k) <= Full(t.b) THEN << [t EXCEPT !.g = Full(t.b) - t.n], TRUE>>
    ELSE LET c == IF t.n + k > Full(t.b) + 1 THEN t.n + k ELSE Full(t.b) + 1
         IN  <<Resize(t, c), TRUE>>

Insert(t) ==
    (IF Tombs(t) > 0 THEN { << [t EXCEPT !.n = @ + 1], FALSE>> } ELSE {}) \cup
    { LET r == Reserve(t, 1) IN << [r[1] EXCEPT !.n = @ + 1, !.g = @ - 1], r[2]>> }

Remove(t) == IF t.n = 0 THEN {} ELSE
    { << [t EXCEPT !.n = @ - 1], FALSE>>, << [t EXCEPT !.n = @ - 1, !.g = @ + 1], FALSE>> }

Shrink(t, m) ==
    LET c == IF m > t.n THEN m ELSE t.n
    IN  IF c = 0 THEN <<New, FALSE>>
        ELSE IF Buckets(c) < t.b THEN <<Resize(t, c), TRUE>>
        ELSE <<t, FALSE>>

Clear(t) == <<[t EXCEPT !.n = 0, !.g = Full(t.b)], FALSE>>
=============================================================================
