------------------------- MODULE PartialCycleMapImpl -------------------------
(***************************************************************************)
(* The design of PartialCycleMap: entries [v |-> item, h |-> hash of the   *)
(* partner or NoHash, id].  Paired entries have the same id; an unpaired   *)
(* entry keeps whatever id it has, which must then be its own.             *)
(***************************************************************************)
EXTENDS TwoTables

CONSTANT Variant

Entry(v, h, id) == [v |-> v, h |-> h, id |-> id]
Start == [l |-> {}, r |-> {}, n |-> 0]
HashAndId(e, hash, id) == e.id = id /\ e.h = hash
JustId(e, id) == e.id = id

IRemoveViaLeft(d, lk) ==
    LET E == ByKey(d.l, lk)
    IN  IF E = {} THEN Ret(d, Neither)
        ELSE LET x == Only(E)
             IN  IF x.h = NoHash THEN Ret([d EXCEPT !.l = @ \ {x}], SomeLeft(x.v))
                 ELSE LET Y == FindR(d.r, x.h, LAMBDA e : HashAndId(e, hl[lk], x.id))
                      IN  IF ~One(Y) THEN Bad(d)
                          ELSE Ret([d EXCEPT !.l = @ \ {x}, !.r = @ \ Y], SomeBoth(x.v, Only(Y).v))
IRemoveViaRight(d, rk) ==
    LET E == ByKey(d.r, rk)
    IN  IF E = {} THEN Ret(d, Neither)
        ELSE LET y == Only(E)
             IN  IF y.h = NoHash THEN Ret([d EXCEPT !.r = @ \ {y}], SomeRight(y.v))
                 ELSE LET X == FindL(d.l, y.h, LAMBDA e : HashAndId(e, hr[rk], y.id))
                      IN  IF ~One(X) THEN Bad(d)
                          ELSE Ret([d EXCEPT !.l = @ \ X, !.r = @ \ {y}], SomeBoth(Only(X).v, y.v))

IArePaired(d, lk, rk) ==
    \E x \in ByKey(d.l, lk), y \in ByKey(d.r, rk) : x.id = y.id /\ hl[lk] = y.h /\ hr[rk] = x.h
IRemove(d, lk, rk) ==
    IF IArePaired(d, lk, rk)
    THEN Then(IRemoveViaLeft(d, lk), LAMBDA d1, o : Ret(d1, << <<o[2], o[3]>> >>))
    ELSE Ret(d, <<>>)

\* only the named item is taken; its partner stays
IRemoveLeft(d, lk) ==
    LET E == ByKey(d.l, lk)
    IN  IF E = {} THEN Ret(d, <<>>)
        ELSE LET x  == Only(E)
                 d1 == [d EXCEPT !.l = @ \ {x}]
                 Y  == FindR(d.r, x.h, LAMBDA e : JustId(e, x.id))
             IN  IF x.h = NoHash THEN Ret(d1, <<x.v>>)
                 ELSE IF ~One(Y) THEN Bad(d)
                 ELSE Ret([d1 EXCEPT !.r = (@ \ Y) \cup {[Only(Y) EXCEPT !.h = NoHash]}], <<x.v>>)
IRemoveRight(d, rk) ==
    LET E == ByKey(d.r, rk)
    IN  IF E = {} THEN Ret(d, <<>>)
        ELSE LET y  == Only(E)
                 d1 == [d EXCEPT !.r = @ \ {y}]
                 X  == FindL(d.l, y.h, LAMBDA e : JustId(e, y.id))
             IN  IF y.h = NoHash THEN Ret(d1, <<y.v>>)
                 ELSE IF ~One(X) THEN Bad(d)
                 ELSE Ret([d1 EXCEPT !.l = (@ \ X) \cup {[Only(X) EXCEPT !.h = NoHash]}], <<y.v>>)

(***************************************************************************)
(* Insertion                                                               *)
(***************************************************************************)
IInsert(d, l, r) ==
    Then(IRemoveViaLeft(d, K(l)), LAMBDA d1, r1 :
    Then(IRemoveViaRight(d1, K(r)), LAMBDA d2, r2 :
        Ret([l |-> d2.l \cup {Entry(l, hr[K(r)], d2.n)},
             r |-> d2.r \cup {Entry(r, hl[K(l)], d2.n)}, n |-> d2.n + 1], <<r1, r2>>)))
IInsertLeft(d, l) ==
    Then(IRemoveViaLeft(d, K(l)), LAMBDA d1, r1 :
        Ret([d1 EXCEPT !.l = @ \cup {Entry(l, NoHash, d1.n)},
                       !.n = IF Variant = "insert_left_no_id" THEN @ ELSE @ + 1], r1))
IInsertRight(d, r) ==
    Then(IRemoveViaRight(d, K(r)), LAMBDA d1, r1 :
        Ret([d1 EXCEPT !.r = @ \cup {Entry(r, NoHash, d1.n)}, !.n = @ + 1], r1))

(***************************************************************************)
(* Pairing                                                                 *)
(***************************************************************************)
\* x and y become partners with identifier id
Linked(d, x, y, id) ==
    [d EXCEPT !.l = (@ \ {x}) \cup {[x EXCEPT !.h = hr[K(y.v)], !.id = id]},
              !.r = (@ \ {y}) \cup {[y EXCEPT !.h = hl[K(x.v)], !.id = id]}]

IPair(d, lk, rk) ==
    LET X == ByKey(d.l, lk)  Y == ByKey(d.r, rk)
    IN  IF X # {} /\ Y # {} /\ Only(X).h = NoHash /\ Only(Y).h = NoHash
        THEN Ret(Linked(d, Only(X), Only(Y), Only(X).id), TRUE)
        ELSE Ret(d, FALSE)

IUnpair(d, lk, rk) ==
    LET X == ByKey(d.l, lk)  Y == ByKey(d.r, rk)
        apart(x, y) == [l |-> (d.l \ {x}) \cup {[x EXCEPT !.h = NoHash]},
                        r |-> (d.r \ {y}) \cup {[y EXCEPT !.h = NoHash,
                                  !.id = IF Variant = "unpair_keeps_id" THEN @ ELSE d.n]},
                        n |-> d.n + 1]
    IN  IF X = {} \/ Y = {} THEN Ret(d, FALSE)
        ELSE LET x == Only(X)  y == Only(Y)
             IN  IF x.h = hr[rk] /\ y.h = hl[lk] /\ (x.id = y.id \/ Variant = "unpair_by_hash")
                 THEN Ret(apart(x, y), TRUE) ELSE Ret(d, FALSE)

\* Which identifier the new pair gets: one that none of the former partners keeps.
ForcedId(d, x, y) ==
    CASE Variant = "forced_keeps_id" -> x.id
      [] x.h = NoHash -> x.id
      [] y.h = NoHash -> y.id
      [] OTHER -> d.n
Forced(d, lk, rk, Settle(_, _, _)) ==
    IF IArePaired(d, lk, rk) \/ ByKey(d.l, lk) = {} \/ ByKey(d.r, rk) = {} THEN Ret(d, Neither)
    ELSE LET x == Only(ByKey(d.l, lk))
             y == Only(ByKey(d.r, rk))
             \* the new pair is linked first; then the former partners are looked up
             d1 == [Linked(d, x, y, ForcedId(d, x, y)) EXCEPT !.n = @ + 1]
         IN  Settle(d1, x, y)

IPairForced(d, lk, rk) == Forced(d, lk, rk, LAMBDA d1, x, y :
    LET Y == FindR(d1.r, x.h, LAMBDA e : HashAndId(e, hl[lk], x.id))
        X == FindL(d1.l, y.h, LAMBDA e : HashAndId(e, hr[rk], y.id))
        hadR == x.h # NoHash
        hadL == y.h # NoHash
    IN  IF (hadR /\ ~One(Y)) \/ (hadL /\ ~One(X)) THEN Bad(d)
        ELSE LET oldL == IF hadL THEN X ELSE {}
                 oldR == IF hadR THEN Y ELSE {}
                 freeL == {[e EXCEPT !.h = NoHash] : e \in oldL}
                 freeR == {[e EXCEPT !.h = NoHash] : e \in oldR}
                 d2 == [d1 EXCEPT !.l = (@ \ oldL) \cup freeL, !.r = (@ \ oldR) \cup freeR]
                 \* what is returned is looked up again, by identifier alone
                 seenR == FindR(d2.r, x.h, LAMBDA e : JustId(e, x.id))
                 seenL == FindL(d2.l, y.h, LAMBDA e : JustId(e, y.id))
             IN  IF (hadR /\ ~One(seenR)) \/ (hadL /\ ~One(seenL)) THEN Bad(d)
                 ELSE Ret(d2, OptPair(IF hadL THEN {Only(seenL).v} ELSE {},
                                      IF hadR THEN {Only(seenR).v} ELSE {})))

IPairForcedRemove(d, lk, rk) == Forced(d, lk, rk, LAMBDA d1, x, y :
    LET Y == FindR(d1.r, x.h, LAMBDA e : JustId(e, x.id))
        X == IF x.h = NoHash THEN FindL(d1.l, y.h, LAMBDA e : HashAndId(e, hr[rk], y.id))
             ELSE FindL(d1.l, y.h, LAMBDA e : JustId(e, y.id))
        hadR == x.h # NoHash
        hadL == y.h # NoHash
    IN  IF (hadR /\ ~One(Y)) \/ (hadL /\ ~One(X)) THEN Bad(d)
        ELSE LET oldL == IF hadL THEN X ELSE {}
                 oldR == IF hadR THEN Y ELSE {}
             IN  Ret([d1 EXCEPT !.l = @ \ oldL, !.r = @ \ oldR],
                     OptPair({e.v : e \in oldL}, {e.v : e \in oldR})))

(***************************************************************************)
(* Swaps                                                                   *)
(***************************************************************************)
ISwapRes(v, gone) == IF gone = Neither THEN SomeLeft(v) ELSE SomeBoth(v, gone)

ISwapLeft(d, ok, n) ==
    IF ByKey(d.l, ok) = {} THEN Ret(d, Neither)
    ELSE Then(IF ByKey(d.l, K(n)) # {} /\ K(n) # ok THEN IRemoveViaLeft(d, K(n)) ELSE Ret(d, Neither),
         LAMBDA d1, gone :
            LET x  == Only(ByKey(d1.l, ok))
                Y  == FindR(d1.r, x.h, LAMBDA e : HashAndId(e, hl[ok], x.id))
                d2 == [d1 EXCEPT !.l = (@ \ {x}) \cup {[x EXCEPT !.v = n]}]
            IN  IF x.h = NoHash THEN Ret(d2, ISwapRes(x.v, gone))
                ELSE IF ~One(Y) THEN Bad(d)
                ELSE Ret([d2 EXCEPT !.r = (@ \ Y) \cup {[Only(Y) EXCEPT
                                 !.h = IF Variant = "swap_keeps_hash" THEN @ ELSE hl[K(n)]]}],
                         ISwapRes(x.v, gone)))
ISwapLeftChecked(d, ok, ek, n) == IF IArePaired(d, ok, ek) THEN ISwapLeft(d, ok, n) ELSE Ret(d, Neither)
ISwapLeftOrInsert(d, ok, n, r) ==
    IF ByKey(d.l, ok) # {} THEN ISwapLeft(d, ok, n)
    ELSE Then(IInsert(d, n, r), LAMBDA d1, o :
            Ret(d1, CASE o[1] = Neither /\ o[2] = Neither -> Neither
                      [] o[1] = Neither -> SomeRight(o[2])
                      [] o[2] = Neither -> SomeRight(o[1])
                      [] OTHER -> SomeBoth(o[1][2], o[2])))

ISwapRight(d, ok, n) ==
    IF ByKey(d.r, ok) = {} THEN Ret(d, Neither)
    ELSE Then(IF ByKey(d.r, K(n)) # {} /\ K(n) # ok THEN IRemoveViaRight(d, K(n)) ELSE Ret(d, Neither),
         LAMBDA d1, gone :
            LET y  == Only(ByKey(d1.r, ok))
                X  == FindL(d1.l, y.h, LAMBDA e : HashAndId(e, hr[ok], y.id))
                d2 == [d1 EXCEPT !.r = (@ \ {y}) \cup {[y EXCEPT !.v = n]}]
            IN  IF y.h = NoHash THEN Ret(d2, ISwapRes(y.v, gone))
                ELSE IF ~One(X) THEN Bad(d)
                ELSE Ret([d2 EXCEPT !.l = (@ \ X) \cup {[Only(X) EXCEPT !.h = hr[K(n)]]}],
                         ISwapRes(y.v, gone)))
ISwapRightChecked(d, ok, ek, n) == IF IArePaired(d, ek, ok) THEN ISwapRight(d, ok, n) ELSE Ret(d, Neither)
LeftItem(o)  == o[2]
RightItem(o) == IF o[1] = "B" THEN o[3] ELSE o[2]
ISwapRightOrInsert(d, ok, n, l) ==
    IF ByKey(d.r, ok) # {} THEN ISwapRight(d, ok, n)
    ELSE Then(IInsert(d, l, n), LAMBDA d1, o :
            Ret(d1, CASE o[1] = Neither /\ o[2] = Neither -> Neither
                      [] o[1] = Neither -> SomeRight(o[2])
                      [] o[2] = Neither -> SomeRight(o[1])
                      [] OTHER -> SomeBoth(RightItem(o[2]), o[1])))

(***************************************************************************)
(* Bulk operations                                                         *)
(***************************************************************************)
\* the entry a left entry shows, found by hash and identifier
LeftShows(d, x) ==
    IF x.h = NoHash THEN SomeLeft(x.v)
    ELSE LET Y == FindR(d.r, x.h, LAMBDA e : HashAndId(e, hl[K(x.v)], x.id))
         IN  IF Y = {} THEN SomeLeft(x.v) ELSE IF One(Y) THEN SomeBoth(x.v, Only(Y).v) ELSE Neither
IIter(d) == {LeftShows(d, x) : x \in d.l} \cup {SomeRight(y.v) : y \in {e \in d.r : e.h = NoHash}}
IPaired(d) == {e \in IIter(d) : e[1] = "B"}
IUnpaired(d) == {SomeLeft(x.v) : x \in {e \in d.l : e.h = NoHash}}
           \cup {SomeRight(y.v) : y \in {e \in d.r : e.h = NoHash}}
KE(e) == IF e[1] = "B" THEN <<"B", K(e[2]), K(e[3])>> ELSE <<e[1], K(e[2])>>

\* removal of remembered entries: [e |-> keyed entry, id |-> identifier]
Ticket(d, e) == [e |-> KE(e), id |-> IF e[1] = "R" THEN Only(ByKey(d.r, K(e[2]))).id
                                     ELSE Only(ByKey(d.l, K(e[2]))).id]
RECURSIVE DropAll(_, _)
DropAll(d, T) ==
    IF T = {} THEN Ret(d, {})
    ELSE LET t == CHOOSE t \in T : TRUE
             k == t.e
             X == CASE k[1] = "B" -> FindL(d.l, hl[k[2]], LAMBDA e : HashAndId(e, hr[k[3]], t.id))
                    [] k[1] = "L" -> FindL(d.l, hl[k[2]], LAMBDA e : JustId(e, t.id))
                    [] OTHER -> {}
             Y == CASE k[1] = "B" -> FindR(d.r, hr[k[3]], LAMBDA e : HashAndId(e, hl[k[2]], t.id))
                    [] k[1] = "R" -> FindR(d.r, hr[k[2]], LAMBDA e : JustId(e, t.id))
                    [] OTHER -> {}
         IN  IF (k[1] # "R" /\ ~One(X)) \/ (k[1] # "L" /\ ~One(Y)) THEN Bad(d)
             ELSE DropAll([d EXCEPT !.l = @ \ X, !.r = @ \ Y], T \ {t})
DropThen(d, E, S, res) ==
    Then(DropAll(d, {Ticket(d, e) : e \in {f \in E : KE(f) \in S}}), LAMBDA d1, o : Ret(d1, res))
RetainE(d) == {e \in IIter(d) : e[1] # "R"}
IRetain(d, S) == DropThen(d, RetainE(d), S, RetainE(d))
IRetainPaired(d, S) == DropThen(d, IPaired(d), S, {<<e[2], e[3]>> : e \in IPaired(d)})
IRetainUnpaired(d, S) == DropThen(d, IUnpaired(d), S, IUnpaired(d))

\* drain_filter finds the partner by identifier alone
FilterShows(d, x) ==
    IF x.h = NoHash THEN SomeLeft(x.v)
    ELSE LET Y == FindR(d.r, x.h, LAMBDA e : JustId(e, x.id))
         IN  IF One(Y) THEN SomeBoth(x.v, Only(Y).v) ELSE Neither
FilterE(d) == {FilterShows(d, x) : x \in d.l} \cup {SomeRight(y.v) : y \in {e \in d.r : e.h = NoHash}}
IDrainFilterAll(d, S) == DropThen(d, FilterE(d), S, <<{e \in FilterE(d) : KE(e) \in S}, FilterE(d)>>)

\* drain empties the left table and finds each partner in the right one
DrainShows(d, x) ==
    IF x.h = NoHash THEN SomeLeft(x.v)
    ELSE LET Y == FindR(d.r, x.h, LAMBDA e : JustId(e, x.id))
         IN  IF One(Y) THEN SomeBoth(x.v, Only(Y).v) ELSE Neither
IDrainAll(d) ==
    LET shown == {DrainShows(d, x) : x \in d.l}
        taken == {e[3] : e \in {f \in shown : f[1] = "B"}}
    IN  Ret([d EXCEPT !.l = {}, !.r = {}],
            shown \cup {SomeRight(y.v) : y \in {e \in d.r : e.v \notin taken}})
IClear(d) == Ret([d EXCEPT !.l = {}, !.r = {}], Unit)

Run(d, op, a) ==
    CASE op = "insert" -> IInsert(d, a[1], a[2])
      [] op = "insert_left" -> IInsertLeft(d, a[1])
      [] op = "insert_right" -> IInsertRight(d, a[1])
      [] op = "pair" -> IPair(d, a[1], a[2])
      [] op = "unpair" -> IUnpair(d, a[1], a[2])
      [] op = "pair_forced" -> IPairForced(d, a[1], a[2])
      [] op = "pair_forced_remove" -> IPairForcedRemove(d, a[1], a[2])
      [] op = "remove" -> IRemove(d, a[1], a[2])
      [] op = "remove_left" -> IRemoveLeft(d, a[1])
      [] op = "remove_right" -> IRemoveRight(d, a[1])
      [] op = "remove_via_left" -> IRemoveViaLeft(d, a[1])
      [] op = "remove_via_right" -> IRemoveViaRight(d, a[1])
      [] op = "swap_left" -> ISwapLeft(d, a[1], a[2])
      [] op = "swap_left_checked" -> ISwapLeftChecked(d, a[1], a[2], a[3])
      [] op = "swap_left_or_insert" -> ISwapLeftOrInsert(d, a[1], a[2], a[3])
      [] op = "swap_right" -> ISwapRight(d, a[1], a[2])
      [] op = "swap_right_checked" -> ISwapRightChecked(d, a[1], a[2], a[3])
      [] op = "swap_right_or_insert" -> ISwapRightOrInsert(d, a[1], a[2], a[3])
      [] op = "retain" -> IRetain(d, a[1])
      [] op = "retain_paired" -> IRetainPaired(d, a[1])
      [] op = "retain_unpaired" -> IRetainUnpaired(d, a[1])
      [] op = "drain_filter" -> IDrainFilterAll(d, a[1])
      [] op = "drain" -> IDrainAll(d)
      [] op = "clear" -> IClear(d)

(***************************************************************************)
(* Meaning and observers                                                   *)
(***************************************************************************)
Partners(d) == {z \in d.l \X d.r : z[1].id = z[2].id /\ z[1].h = hr[K(z[2].v)] /\ z[2].h = hl[K(z[1].v)]}
Abs(d) == [p |-> {<<z[1].v, z[2].v>> : z \in Partners(d)},
           ul |-> {e.v : e \in {x \in d.l : x.h = NoHash}},
           ur |-> {e.v : e \in {y \in d.r : y.h = NoHash}}]

IGetRight(d, lk) ==
    LET E == ByKey(d.l, lk)
    IN  IF E = {} THEN <<>>
        ELSE LET x == Only(E)
                 Y == FindR(d.r, x.h, LAMBDA e : HashAndId(e, hl[lk], x.id))
             IN  IF x.h = NoHash \/ Y = {} THEN <<>>
                 ELSE IF One(Y) THEN <<Only(Y).v>> ELSE << <<0, 0>> >>
IGetLeft(d, rk) ==
    LET E == ByKey(d.r, rk)
    IN  IF E = {} THEN <<>>
        ELSE LET y == Only(E)
                 X == FindL(d.l, y.h, LAMBDA e : HashAndId(e, hr[rk], y.id))
             IN  IF y.h = NoHash \/ X = {} THEN <<>>
                 ELSE IF One(X) THEN <<Only(X).v>> ELSE << <<0, 0>> >>
IObs(d, LK, RK) ==
    [cl |-> [k \in LK |-> ByKey(d.l, k) # {}],
     cr |-> [k \in RK |-> ByKey(d.r, k) # {}],
     lp |-> [k \in LK |-> \E x \in ByKey(d.l, k) : x.h # NoHash],
     rp |-> [k \in RK |-> \E y \in ByKey(d.r, k) : y.h # NoHash],
     gr |-> [k \in LK |-> IGetRight(d, k)],
     gl |-> [k \in RK |-> IGetLeft(d, k)],
     ap |-> [i \in LK |-> [j \in RK |-> IArePaired(d, i, j)]],
     lenl |-> Cardinality(d.l), lenr |-> Cardinality(d.r),
     empty |-> Cardinality(d.l) + Cardinality(d.r) = 0,
     iter |-> IIter(d), ip |-> {<<e[2], e[3]>> : e \in IPaired(d)}, iu |-> IUnpaired(d),
     il |-> {x.v : x \in d.l}, ir |-> {y.v : y \in d.r}]

(***************************************************************************)
(* The representation invariant: identifiers are unique on each side, and  *)
(* an unpaired entry shares its identifier with nobody.                    *)
(***************************************************************************)
Represents(d) ==
    /\ IdsUnique(d.l) /\ IdsUnique(d.r) /\ KeysUnique(d.l) /\ KeysUnique(d.r)
    /\ Cardinality(Partners(d)) = Cardinality({x \in d.l : x.h # NoHash})
    /\ Cardinality(Partners(d)) = Cardinality({y \in d.r : y.h # NoHash})
    /\ \A e \in d.l \cup d.r : e.id < d.n
NothingShared(d) ==
    \A x \in d.l, y \in d.r : x.id = y.id => x.h # NoHash /\ y.h # NoHash

\* identifiers by the left key, or by the right key where no left entry has it
Canon(d, off) ==
    [l |-> {[e EXCEPT !.id = K(e.v)] : e \in d.l},
     r |-> {LET X == {x \in d.l : x.id = e.id}
            IN  [e EXCEPT !.id = IF X = {} THEN off + K(e.v) ELSE K(Only(X).v)] : e \in d.r}]
Built(mm, off) ==
    [l |-> {Entry(x[1], hr[K(x[2])], K(x[1])) : x \in mm.p} \cup {Entry(x, NoHash, K(x)) : x \in mm.ul},
     r |-> {Entry(x[2], hl[K(x[1])], K(x[1])) : x \in mm.p} \cup {Entry(y, NoHash, off + K(y)) : y \in mm.ur}]
NoHiddenState(d, off) == Canon(d, off) = Built(Abs(d), off)
=============================================================================
