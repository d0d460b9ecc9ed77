---------------------------- MODULE CycleMapImpl -----------------------------
(***************************************************************************)
(* The design of CycleMap: entries [v |-> item, h |-> hash of the partner, *)
(* id |-> number of the pair], and the algorithms of its operations.       *)
(* Variant names a deliberately wrong variant of the design ("" for none). *)
(***************************************************************************)
EXTENDS TwoTables

CONSTANT Variant

Entry(v, h, id) == [v |-> v, h |-> h, id |-> id]
Start == [l |-> {}, r |-> {}, n |-> 0]

HashAndId(e, hash, id) ==
    IF Variant = "by_hash" THEN e.h = hash ELSE e.id = id /\ e.h = hash

Push(d, l, r) ==
    [l |-> d.l \cup {Entry(l, hr[K(r)], d.n)}, r |-> d.r \cup {Entry(r, hl[K(l)], d.n)},
     n |-> IF Variant = "ids_from_length" THEN Cardinality(d.l) + 1 ELSE d.n + 1]

IRemoveViaLeft(d, lk) ==
    LET E == ByKey(d.l, lk)
    IN  IF E = {} THEN Ret(d, <<>>)
        ELSE LET x == Only(E)
                 Y == FindR(d.r, x.h, LAMBDA e : HashAndId(e, hl[lk], x.id))
             IN  IF ~One(Y) THEN Bad(d)
                 ELSE Ret([d EXCEPT !.l = @ \ {x}, !.r = @ \ Y], << <<x.v, Only(Y).v>> >>)
IRemoveViaRight(d, rk) ==
    LET E == ByKey(d.r, rk)
    IN  IF E = {} THEN Ret(d, <<>>)
        ELSE LET y == Only(E)
                 X == FindL(d.l, y.h, LAMBDA e : HashAndId(e, hr[rk], y.id))
             IN  IF ~One(X) THEN Bad(d)
                 ELSE Ret([d EXCEPT !.l = @ \ X, !.r = @ \ {y}], << <<Only(X).v, y.v>> >>)

IArePaired(d, lk, rk) ==
    \E x \in ByKey(d.l, lk), y \in ByKey(d.r, rk) :
        /\ (Variant = "paired_by_hash" \/ x.id = y.id)
        /\ hl[lk] = y.h /\ hr[rk] = x.h

IRemove(d, lk, rk) == IF IArePaired(d, lk, rk) THEN IRemoveViaLeft(d, lk) ELSE Ret(d, <<>>)

ToSet(o) == IF o = <<>> THEN {} ELSE {o[1]}
IInsert(d, l, r) ==
    Then(IRemoveViaLeft(d, K(l)), LAMBDA d1, r1 :
    Then(IRemoveViaRight(d1, K(r)), LAMBDA d2, r2 :
        Ret(Push(d2, l, r), OptPair(ToSet(r1), ToSet(r2)))))

ISwapLeft(d, ok, n) ==
    IF ByKey(d.l, ok) = {} THEN Ret(d, Neither)
    ELSE Then(IF ByKey(d.l, K(n)) # {} /\ (K(n) # ok \/ Variant = "swap_self")
              THEN IRemoveViaLeft(d, K(n)) ELSE Ret(d, <<>>),
         LAMBDA d1, gone :
            IF ByKey(d1.l, ok) = {} THEN Bad(d)
            ELSE LET x == Only(ByKey(d1.l, ok))
                     Y == FindR(d1.r, x.h, LAMBDA e : HashAndId(e, hl[ok], x.id))
                 IN  IF ~One(Y) THEN Bad(d)
                     ELSE Ret([d1 EXCEPT !.r = (@ \ Y) \cup {[Only(Y) EXCEPT
                                                   !.h = IF Variant = "swap_keeps_hash" THEN @ ELSE hl[K(n)]]},
                                         !.l = (@ \ {x}) \cup {[x EXCEPT !.v = n]}],
                              OptPair({x.v}, ToSet(gone))))
ISwapLeftChecked(d, ok, ek, n) == IF IArePaired(d, ok, ek) THEN ISwapLeft(d, ok, n) ELSE Ret(d, Neither)
\* an inserted item cannot have held the old one
MapLeft(o) == IF o[1] = "L" THEN SomeLeft(o[2][1])
              ELSE IF o[1] = "B" THEN SomeBoth(o[2][1], o[3]) ELSE o
ISwapLeftOrInsert(d, ok, n, r) ==
    IF ByKey(d.l, ok) # {} THEN ISwapLeft(d, ok, n)
    ELSE Then(IInsert(d, n, r), LAMBDA d1, o : Ret(d1, MapLeft(o)))

ISwapRight(d, ok, n) ==
    IF ByKey(d.r, ok) = {} THEN Ret(d, Neither)
    ELSE Then(IF ByKey(d.r, K(n)) # {} /\ K(n) # ok THEN IRemoveViaRight(d, K(n)) ELSE Ret(d, <<>>),
         LAMBDA d1, gone :
            LET y == Only(ByKey(d1.r, ok))
                X == FindL(d1.l, y.h, LAMBDA e : HashAndId(e, hr[ok], y.id))
            IN  IF ~One(X) THEN Bad(d)
                ELSE Ret([d1 EXCEPT !.l = (@ \ X) \cup {[Only(X) EXCEPT !.h = hr[K(n)]]},
                                    !.r = (@ \ {y}) \cup {[y EXCEPT !.v = n]}],
                         OptPair({y.v}, ToSet(gone))))
ISwapRightChecked(d, ok, ek, n) == IF IArePaired(d, ek, ok) THEN ISwapRight(d, ok, n) ELSE Ret(d, Neither)
ISwapRightOrInsert(d, ok, n, l) ==
    IF ByKey(d.r, ok) # {} THEN ISwapRight(d, ok, n)
    ELSE Then(IInsert(d, l, n), LAMBDA d1, o :
            Ret(d1, CASE o[1] = "N" -> Neither
                      [] o[1] \in {"L", "R"} -> SomeRight(o[2])
                      [] OTHER -> SomeBoth(o[3][2], o[2])))

\* the pairs an iterator over the left table shows
IIter(d) == {<<x.v, y.v>> : <<x, y>> \in {z \in d.l \X d.r :
                FindR(d.r, z[1].h, LAMBDA e : HashAndId(e, hl[K(z[1].v)], z[1].id)) = {z[2]}}}
KP(x) == <<K(x[1]), K(x[2])>>

\* take the entries for which Drop holds out of both tables, one after another
RECURSIVE DropAll(_, _)
DropAll(d, T) ==
    IF T = {} THEN Ret(d, {})
    ELSE LET t == CHOOSE t \in T : TRUE
             X == FindL(d.l, hl[t[1]], LAMBDA e : e.id = t[3] /\ e.h = hr[t[2]])
             Y == FindR(d.r, hr[t[2]], LAMBDA e : HashAndId(e, hl[t[1]], t[3]))
         IN  IF ~One(X) \/ ~One(Y) THEN Bad(d)
             ELSE DropAll([d EXCEPT !.l = @ \ X, !.r = @ \ Y], T \ {t})
Ticket(d, p) == <<K(p[1]), K(p[2]), Only(ByKey(d.l, K(p[1]))).id>>
IRetain(d, S) ==
    Then(DropAll(d, {Ticket(d, p) : p \in {q \in IIter(d) : KP(q) \notin S}}),
         LAMBDA d1, o : Ret(d1, IIter(d)))
IDrainFilterAll(d, S) ==
    Then(DropAll(d, {Ticket(d, p) : p \in {q \in IIter(d) : KP(q) \in S}}),
         LAMBDA d1, o : Ret(d1, <<{q \in IIter(d) : KP(q) \in S}, IIter(d)>>))
IDrainAll(d) == Ret([Start EXCEPT !.r = IF Variant = "drain_left_only" THEN d.r ELSE {}], IIter(d))
IClear(d) == Ret([d EXCEPT !.l = {}, !.r = {}], Unit)

Run(d, op, a) ==
    CASE op = "insert" -> IInsert(d, a[1], a[2])
      [] op = "remove" -> IRemove(d, a[1], a[2])
      [] op = "remove_via_left" -> IRemoveViaLeft(d, a[1])
      [] op = "remove_via_right" -> IRemoveViaRight(d, a[1])
      [] op = "swap_left" -> ISwapLeft(d, a[1], a[2])
      [] op = "swap_left_checked" -> ISwapLeftChecked(d, a[1], a[2], a[3])
      [] op = "swap_left_or_insert" -> ISwapLeftOrInsert(d, a[1], a[2], a[3])
      [] op = "swap_right" -> ISwapRight(d, a[1], a[2])
      [] op = "swap_right_checked" -> ISwapRightChecked(d, a[1], a[2], a[3])
      [] op = "swap_right_or_insert" -> ISwapRightOrInsert(d, a[1], a[2], a[3])
      [] op = "retain" -> IRetain(d, a[1])
      [] op = "drain_filter" -> IDrainFilterAll(d, a[1])
      [] op = "drain" -> IDrainAll(d)
      [] op = "clear" -> IClear(d)

(***************************************************************************)
(* What the two tables mean, and what the observers read from them         *)
(***************************************************************************)
Partners(d) == {z \in d.l \X d.r : z[1].id = z[2].id /\ z[1].h = hr[K(z[2].v)] /\ z[2].h = hl[K(z[1].v)]}
Abs(d) == [p |-> {<<z[1].v, z[2].v>> : z \in Partners(d)}, ul |-> {}, ur |-> {}]

IGetRight(d, lk) ==
    LET E == ByKey(d.l, lk)
    IN  IF E = {} THEN <<>>
        ELSE LET x == Only(E)
                 Y == FindR(d.r, x.h, LAMBDA e : HashAndId(e, hl[lk], x.id))
             IN  IF Y = {} THEN <<>> ELSE IF One(Y) THEN <<Only(Y).v>> ELSE << <<0, 0>> >>
IGetLeft(d, rk) ==
    LET E == ByKey(d.r, rk)
    IN  IF E = {} THEN <<>>
        ELSE LET y == Only(E)
                 X == FindL(d.l, y.h, LAMBDA e : HashAndId(e, hr[rk], y.id))
             IN  IF X = {} THEN <<>> ELSE IF One(X) THEN <<Only(X).v>> ELSE << <<0, 0>> >>
IObs(d, LK, RK) ==
    [cl |-> [k \in LK |-> ByKey(d.l, k) # {}],
     cr |-> [k \in RK |-> ByKey(d.r, k) # {}],
     gr |-> [k \in LK |-> IGetRight(d, k)],
     gl |-> [k \in RK |-> IGetLeft(d, k)],
     ap |-> [i \in LK |-> [j \in RK |-> IArePaired(d, i, j)]],
     len |-> Cardinality(d.l),
     empty |-> Cardinality(d.l) = 0,
     iter |-> IIter(d), il |-> {x.v : x \in d.l}, ir |-> {y.v : y \in d.r}]

(***************************************************************************)
(* The representation invariant: every entry has exactly one partner.      *)
(***************************************************************************)
Represents(d) ==
    /\ IdsUnique(d.l) /\ IdsUnique(d.r) /\ KeysUnique(d.l) /\ KeysUnique(d.r)
    /\ Cardinality(Partners(d)) = Cardinality(d.l)
    /\ Cardinality(d.l) = Cardinality(d.r)
    /\ \A e \in d.l \cup d.r : e.id < d.n

\* the design state is determined, up to the choice of identifiers, by what it means
Built(mm) ==
    [l |-> {Entry(x[1], hr[K(x[2])], K(x[1])) : x \in mm.p},
     r |-> {Entry(x[2], hl[K(x[1])], K(x[1])) : x \in mm.p}]
\* identifiers renamed to the key of the left entry that has them
Canon(d) == [l |-> {[e EXCEPT !.id = K(e.v)] : e \in d.l},
             r |-> {[e EXCEPT !.id = K(Only({x \in d.l : x.id = e.id}).v)] : e \in d.r}]
NoHiddenState(d) == Canon(d) = Built(Abs(d))
=============================================================================
