------------------------------ MODULE MapCommon ------------------------------
(***************************************************************************)
(* Vocabulary shared by the specifications of the three maps.              *)
(*                                                                         *)
(* An item is a tuple <<key, tag>>.  Two items are equal (in the sense of  *)
(* the Rust Eq of the item type) iff their keys are equal; the tag tells   *)
(* which copy it is, so that "the stored item is returned, the new one is  *)
(* kept" can be expressed.                                                 *)
(*                                                                         *)
(* The abstract contents of any of the maps is a record                    *)
(*     [p  |-> set of pairs <<left item, right item>>,                     *)
(*      ul |-> set of unpaired left items,                                 *)
(*      ur |-> set of unpaired right items]                                *)
(* For a CycleMap ul = ur = {}; for a GroupMap ul = {}.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt  \* FoldLeft, SetToSortSeq

K(x) == x[1]                     \* the key of an item

\* S, listed in order: TLC looks things up faster then
Norm(S) == IF Cardinality(S) >= 0 THEN S ELSE S

Only(S) == CHOOSE x \in S : TRUE \* the element of a singleton

Empty == [p |-> {}, ul |-> {}, ur |-> {}]

Lefts(m)  == Norm(Norm({x[1] : x \in m.p}) \cup m.ul)
Rights(m) == Norm(Norm({x[2] : x \in m.p}) \cup m.ur)

\* stored items with a given key (at most one of each in a legal state)
LeftAt(m, k)  == {x \in Lefts(m)  : K(x) = k}
RightAt(m, k) == {x \in Rights(m) : K(x) = k}

\* pairs holding an item of a given key
PairsL(m, k) == {x \in m.p : K(x[1]) = k}
PairsR(m, k) == {x \in m.p : K(x[2]) = k}

ArePaired(m, lk, rk) == \E x \in m.p : K(x[1]) = lk /\ K(x[2]) = rk

\* f(x) # f(y) for different x and y in S (counting is faster than comparing)
Injective(f(_), S) == Cardinality({f(x) : x \in S}) = Cardinality(S)
KeyOfLeft(x) == K(x[1])
KeyOfRight(x) == K(x[2])

(***************************************************************************)
(* Encodings of results.  Option: <<>> or <<x>>.  OptionalPair: the four   *)
(* tuples below.  Unit: <<>>.                                              *)
(***************************************************************************)
Opt(S) == IF S = {} THEN <<>> ELSE <<Only(S)>>

Neither == <<"N">>
SomeLeft(x) == <<"L", x>>
SomeRight(y) == <<"R", y>>
SomeBoth(x, y) == <<"B", x, y>>

\* the OptionalPair of two sets with at most one element each
OptPair(A, B) ==
    CASE A = {} /\ B = {} -> Neither
      [] A # {} /\ B = {} -> SomeLeft(Only(A))
      [] A = {} /\ B # {} -> SomeRight(Only(B))
      [] OTHER            -> SomeBoth(Only(A), Only(B))

Unit == <<>>
Panicked == <<"panic">>

Outcome(mm, rr) == [m |-> mm, r |-> rr]
Same(m, rr) == {Outcome(m, rr)}

(***************************************************************************)
(* Subsets of bounded size and sequences of bounded length.                *)
(***************************************************************************)
SubsetsOfSize(S, n) == {T \in SUBSET S : Cardinality(T) = n}

Least(a, b) == IF a < b THEN a ELSE b

SeqsUpTo(S, n) == UNION {[1..i -> S] : i \in 0..n}

\* Left fold of a deterministic operation Op(m, x) (giving contents) along a sequence
FoldOps(Op(_, _), m, s) == FoldLeft(Op, m, s)

\* no item of a sequence of pairs equals another one of them, or one that is stored: then
\* inserting them one after the other adds these pairs (checked: see Shortcuts in the SM module)
AllNew(m, s) ==
    LET lk == Norm({K(s[j][1]) : j \in DOMAIN s})
        rk == Norm({K(s[j][2]) : j \in DOMAIN s})
    IN  /\ Cardinality(lk) = Len(s) /\ Cardinality(rk) = Len(s)
        /\ \A x \in Lefts(m)  : K(x) \notin lk
        /\ \A x \in Rights(m) : K(x) \notin rk
AddAll(m, s) == [m EXCEPT !.p = @ \cup {s[j] : j \in DOMAIN s}]
FoldPairs(Op(_, _), m, s) == IF AllNew(m, s) THEN AddAll(m, s) ELSE FoldOps(Op, m, s)

\* items in the order of their keys, and the one with a given key
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : K(a) < K(b))
RECURSIVE Seek(_, _, _, _)
Seek(q, k, lo, hi) ==
    IF lo = hi THEN q[lo]
    ELSE LET mid == (lo + hi) \div 2
         IN  IF K(q[mid]) < k THEN Seek(q, k, mid + 1, hi) ELSE Seek(q, k, lo, mid)

\* Exchange the roles of left and right
MirrorPair(x) == <<x[2], x[1]>>
Mirror(m) == [p |-> {MirrorPair(x) : x \in m.p}, ul |-> m.ur, ur |-> m.ul]

(***************************************************************************)
(* Contents up to equality of items: what == on maps talks about.          *)
(***************************************************************************)
Contents(m) == [p  |-> {<<K(x[1]), K(x[2])>> : x \in m.p},
                ul |-> {K(x) : x \in m.ul},
                ur |-> {K(x) : x \in m.ur}]
=============================================================================
