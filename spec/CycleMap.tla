------------------------------ MODULE CycleMap -------------------------------
(***************************************************************************)
(* CycleMap: a strict one-to-one map.  One operator per public operation;  *)
(* each gives the set of allowed outcomes [m |-> contents after, r |->     *)
(* result] from contents m.  Arguments taken by reference in Rust are keys *)
(* here, arguments taken by value are items.                               *)
(***************************************************************************)
EXTENDS MapCommon

WithPairs(ps) == [p |-> ps, ul |-> {}, ur |-> {}]

\* insert(l, r)
InsertSt(m, l, r) ==
    WithPairs((m.p \ (PairsL(m, K(l)) \cup PairsR(m, K(r)))) \cup {<<l, r>>})
InsertRes(m, l, r) ==
    OptPair(PairsL(m, K(l)), PairsR(m, K(r)) \ PairsL(m, K(l)))
Insert(m, l, r) == Same(InsertSt(m, l, r), InsertRes(m, l, r))

\* remove_via_left(&l), remove_via_right(&r), remove(&l, &r)
RemoveSet(m, S) == Same(WithPairs(m.p \ S), Opt(S))
RemoveViaLeft(m, lk)  == RemoveSet(m, PairsL(m, lk))
RemoveViaRight(m, rk) == RemoveSet(m, PairsR(m, rk))
Remove(m, lk, rk)     == RemoveSet(m, PairsL(m, lk) \cap PairsR(m, rk))

\* swap_left(&old, new): (old, r) becomes (new, r)
SwapLeft(m, ok, n) ==
    IF PairsL(m, ok) = {} THEN Same(m, Neither)
    ELSE LET x    == Only(PairsL(m, ok))
             clash == PairsL(m, K(n)) \ {x}
         IN  Same(WithPairs((m.p \ ({x} \cup clash)) \cup {<<n, x[2]>>}),
                  OptPair({x[1]}, clash))
SwapLeftChecked(m, ok, ek, n) ==
    IF ArePaired(m, ok, ek) THEN SwapLeft(m, ok, n) ELSE Same(m, Neither)
SwapLeftOrInsert(m, ok, n, r) ==
    IF PairsL(m, ok) # {} THEN SwapLeft(m, ok, n)
    ELSE LET viaL == PairsL(m, K(n))
             viaR == PairsR(m, K(r)) \ viaL
         IN  Same(InsertSt(m, n, r), OptPair({x[1] : x \in viaL}, viaR))

\* swap_right(&old, new): (l, old) becomes (l, new)
SwapRight(m, ok, n) ==
    IF PairsR(m, ok) = {} THEN Same(m, Neither)
    ELSE LET x    == Only(PairsR(m, ok))
             clash == PairsR(m, K(n)) \ {x}
         IN  Same(WithPairs((m.p \ ({x} \cup clash)) \cup {<<x[1], n>>}),
                  OptPair({x[2]}, clash))
SwapRightChecked(m, ok, ek, n) ==
    IF ArePaired(m, ek, ok) THEN SwapRight(m, ok, n) ELSE Same(m, Neither)
SwapRightOrInsert(m, ok, n, l) ==
    IF PairsR(m, ok) # {} THEN SwapRight(m, ok, n)
    ELSE LET viaL == PairsL(m, K(l))
             viaR == PairsR(m, K(n)) \ viaL
         IN  Same(InsertSt(m, l, n),
                  IF viaL # {} /\ viaR # {}
                  THEN SomeBoth(Only(viaR)[2], Only(viaL))
                  ELSE OptPair({}, viaL \cup viaR))

(***************************************************************************)
(* Bulk operations.  S is a set of pairs of keys: the pairs for which the  *)
(* closure answers true.  Iteration order is unspecified, so an iterator   *)
(* dropped after n items has yielded any n of the items it would yield.    *)
(***************************************************************************)
KP(x) == <<K(x[1]), K(x[2])>>
Sel(m, S) == {x \in m.p : KP(x) \in S}

Clear(m) == Same(Empty, Unit)

\* drain(), take n items, drop the iterator
Drain(m, n) ==
    {Outcome(Empty, Y) : Y \in SubsetsOfSize(m.p, Least(n, Cardinality(m.p)))}

\* drain_filter(f), take n items, drop the iterator; the result holds what was
\* yielded and on which entries the predicate was called
DrainFilter(m, S, n) ==
    {Outcome(WithPairs(m.p \ Sel(m, S)), <<Y, m.p>>) :
        Y \in SubsetsOfSize(Sel(m, S), Least(n, Cardinality(Sel(m, S))))}

\* drain_filter(f), take n items, forget the iterator
DrainFilterForget(m, S, n) ==
    {Outcome(WithPairs(m.p \ Y), Y) :
        Y \in SubsetsOfSize(Sel(m, S), Least(n, Cardinality(Sel(m, S))))}

\* retain(f): keeps the pairs for which f is true; the result is what f saw
Retain(m, S) == Same(WithPairs(Sel(m, S)), m.p)

(***************************************************************************)
(* Callbacks that panic.  The closure panics when it is first given the    *)
(* pair with keys x, and otherwise answers by S.                           *)
(***************************************************************************)
RetainPanic(m, S, x) ==
    {Outcome(WithPairs(m.p \ D), Panicked) :
        D \in SUBSET {y \in m.p : KP(y) \notin S /\ KP(y) # x}}
DrainFilterPanic(m, S, x) ==
    {Outcome(WithPairs(m.p \ D), Panicked) :
        D \in SUBSET {y \in m.p : KP(y) \in S /\ KP(y) # x}}

(***************************************************************************)
(* Sequences of pairs: extend, collect, serde.                             *)
(***************************************************************************)
InsertPair(m, x) == InsertSt(m, x[1], x[2])
Extend(m, s) == Same(FoldPairs(InsertPair, m, s), Unit)
ExtendPanic(m, s) == Same(FoldPairs(InsertPair, m, s), Panicked)
Collect(m, s) == Same(FoldPairs(InsertPair, Empty, s), Unit)
FromSerde(m, s) == Collect(m, s)
\* the serialized form lists exactly the pairs; reading it back gives the same contents
RoundTrip(m) == Same(m, m.p)
FromBadSerde(m, kind) == Same(m, <<"err">>)

(***************************************************************************)
(* Operations that must not change the contents.                           *)
(***************************************************************************)
Clone(m) == Same(m, Unit)
Touch(m) == Same(m, <<"ok">>)      \* reserve, try_reserve, shrink_to, shrink_to_fit

(***************************************************************************)
(* The same operations as predicates, by name: what the state machine and  *)
(* the trace specification use.  Outs lists the outcomes of the operations *)
(* with few of them; Allowed decides any outcome without listing.          *)
(***************************************************************************)
Outs(m, op, a) ==
    CASE op = "insert" -> Insert(m, a[1], a[2])
      [] op = "remove" -> Remove(m, a[1], a[2])
      [] op = "remove_via_left" -> RemoveViaLeft(m, a[1])
      [] op = "remove_via_right" -> RemoveViaRight(m, a[1])
      [] op = "swap_left" -> SwapLeft(m, a[1], a[2])
      [] op = "swap_left_checked" -> SwapLeftChecked(m, a[1], a[2], a[3])
      [] op = "swap_left_or_insert" -> SwapLeftOrInsert(m, a[1], a[2], a[3])
      [] op = "swap_right" -> SwapRight(m, a[1], a[2])
      [] op = "swap_right_checked" -> SwapRightChecked(m, a[1], a[2], a[3])
      [] op = "swap_right_or_insert" -> SwapRightOrInsert(m, a[1], a[2], a[3])
      [] op = "clear" -> Clear(m)
      [] op = "retain" -> Retain(m, a[1])
      [] op = "extend" -> Extend(m, a[1])
      [] op = "extend_panic" -> ExtendPanic(m, a[1])
      [] op = "collect" -> Collect(m, a[1])
      [] op = "deserialize" -> FromSerde(m, a[1])
      [] op = "deserialize_bad" -> FromBadSerde(m, a[1])
      [] op = "round_trip" -> RoundTrip(m)
      [] op = "clone" -> Clone(m)
      [] op \in {"reserve", "try_reserve", "try_reserve_huge", "shrink_to", "shrink_to_fit"} -> Touch(m)

Bulk == {"drain", "drain_filter", "drain_filter_forget", "drain_filter_panic", "retain_panic"}

\* is m2 allowed after the call, whatever was returned?
AllowedM(m, op, a, m2) ==
    CASE op = "drain" -> m2 = Empty
      [] op = "drain_filter" -> m2 = WithPairs(m.p \ Sel(m, a[1]))
      [] op = "drain_filter_forget" ->
            /\ m2.ul = {} /\ m2.ur = {} /\ m2.p \subseteq m.p /\ m.p \ m2.p \subseteq Sel(m, a[1])
            /\ Cardinality(m.p \ m2.p) = Least(a[2], Cardinality(Sel(m, a[1])))
      [] op = "drain_filter_panic" ->
            /\ m2.ul = {} /\ m2.ur = {} /\ m2.p \subseteq m.p
            /\ \A y \in m.p \ m2.p : KP(y) \in a[1] /\ KP(y) # a[2]
      [] op = "retain_panic" ->
            /\ m2.ul = {} /\ m2.ur = {} /\ m2.p \subseteq m.p
            /\ \A y \in m.p \ m2.p : KP(y) \notin a[1] /\ KP(y) # a[2]
      [] OTHER -> \E o \in Outs(m, op, a) : o.m = m2

Allowed(m, op, a, r, m2) ==
    CASE op = "drain" ->
            m2 = Empty /\ r \subseteq m.p /\ Cardinality(r) = Least(a[1], Cardinality(m.p))
      [] op = "drain_filter" ->
            /\ m2 = WithPairs(m.p \ Sel(m, a[1]))
            /\ r[1] \subseteq Sel(m, a[1]) /\ r[2] = m.p
            /\ Cardinality(r[1]) = Least(a[2], Cardinality(Sel(m, a[1])))
      [] op = "drain_filter_forget" ->
            AllowedM(m, op, a, m2) /\ r = m.p \ m2.p
      [] op \in {"drain_filter_panic", "retain_panic"} -> AllowedM(m, op, a, m2) /\ r = Panicked
      [] OTHER -> Outcome(m2, r) \in Outs(m, op, a)

\* the contents a call leads to, where that is determined
Expected(m, op, a) ==
    CASE op = "drain" -> {Empty}
      [] op = "drain_filter" -> {WithPairs(m.p \ Sel(m, a[1]))}
      [] op \in Bulk -> {}
      [] OTHER -> {o.m : o \in Outs(m, op, a)}

(***************************************************************************)
(* Observers                                                               *)
(***************************************************************************)
ContainsLeft(m, lk)  == \E x \in m.p : K(x[1]) = lk
ContainsRight(m, rk) == \E x \in m.p : K(x[2]) = rk
GetRight(m, lk) == Opt({x[2] : x \in PairsL(m, lk)})
GetLeft(m, rk)  == Opt({x[1] : x \in PairsR(m, rk)})
Len1(m) == Cardinality(m.p)
IsEmpty(m) == m.p = {}
Iter(m) == m.p
IterLeft(m)  == {x[1] : x \in m.p}
IterRight(m) == {x[2] : x \in m.p}
MapEq(a, b) == Contents(a) = Contents(b)

Obs(m, LK, RK) ==
    [cl |-> [k \in LK |-> ContainsLeft(m, k)],
     cr |-> [k \in RK |-> ContainsRight(m, k)],
     gr |-> [k \in LK |-> GetRight(m, k)],
     gl |-> [k \in RK |-> GetLeft(m, k)],
     ap |-> [i \in LK |-> [j \in RK |-> ArePaired(m, i, j)]],
     len |-> Len1(m),
     empty |-> IsEmpty(m),
     iter |-> Iter(m), il |-> IterLeft(m), ir |-> IterRight(m)]

(***************************************************************************)
(* Legal contents                                                          *)
(***************************************************************************)
Legal(m) ==
    /\ m.ul = {} /\ m.ur = {}
    /\ Injective(KeyOfLeft, m.p) /\ Injective(KeyOfRight, m.p)
=============================================================================
