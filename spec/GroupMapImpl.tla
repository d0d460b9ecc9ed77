---------------------------- MODULE GroupMapImpl -----------------------------
(***************************************************************************)
(* The design of GroupMap.  A left entry refers to its right item by hash  *)
(* h and identifier rid; a right entry refers to its members by a set ps   *)
(* of <<hash, identifier>>.  Each side has identifiers of its own.         *)
(***************************************************************************)
EXTENDS TwoTables

CONSTANT Variant

LEntry(v, h, rid, id) == [v |-> v, h |-> h, rid |-> rid, id |-> id]
REntry(v, ps, id) == [v |-> v, ps |-> ps, id |-> id]
Start == [l |-> {}, r |-> {}, ln |-> 0, rn |-> 0]

WithPair(e, pair) == pair \in e.ps
RightId(e, id) == e.id = id
LeftId(e, id) == e.id = id

SetL(d, x, x2) == [d EXCEPT !.l = (@ \ {x}) \cup {x2}]
SetR(d, y, y2) == [d EXCEPT !.r = (@ \ {y}) \cup {y2}]
Fresh(d, l, rhash, rid) == LEntry(l, rhash, rid, d.ln)

(***************************************************************************)
(* Removal                                                                 *)
(***************************************************************************)
IRemoveLeft(d, lk) ==
    LET E == ByKey(d.l, lk)
    IN  IF E = {} THEN Ret(d, <<>>)
        ELSE LET x == Only(E)
                 pair == <<hl[lk], x.id>>
                 Y == FindR(d.r, x.h, LAMBDA e : WithPair(e, pair))
             IN  IF ~One(Y) THEN Bad(d)
                 ELSE Ret(SetR([d EXCEPT !.l = @ \ {x}], Only(Y), [Only(Y) EXCEPT !.ps = @ \ {pair}]),
                          <<x.v>>)

\* the left entries a set of <<hash, id>> refers to; all must be found
MemberOf(d, pair) == FindL(d.l, pair[1], LAMBDA e : LeftId(e, pair[2]))
AllFound(d, ps) == \A pair \in ps : One(MemberOf(d, pair))
MembersOf(d, ps) == UNION {MemberOf(d, pair) : pair \in ps}

IRemoveRight(d, rk) ==
    LET E == ByKey(d.r, rk)
    IN  IF E = {} THEN Ret(d, <<>>)
        ELSE LET y == Only(E)
             IN  IF ~AllFound(d, y.ps) THEN Bad(d)
                 ELSE Ret([d EXCEPT !.l = @ \ MembersOf(d, y.ps), !.r = @ \ {y}],
                          <<{x.v : x \in MembersOf(d, y.ps)}, y.v>>)

IArePaired(d, lk, rk) ==
    \E x \in ByKey(d.l, lk), y \in ByKey(d.r, rk) :
        x.h = hr[rk] /\ (<<hl[lk], x.id>> \in y.ps \/ Variant = "paired_by_hash")
IRemove(d, lk, rk) == IF IArePaired(d, lk, rk) THEN IRemoveRight(d, rk) ELSE Ret(d, <<>>)

(***************************************************************************)
(* Insertion                                                               *)
(***************************************************************************)
IInsert(d, l, r) ==
    LET X == ByKey(d.l, K(l))
        Y == ByKey(d.r, K(r))
        lh == hl[K(l)]
        rh == hr[K(r)]
    IN  CASE X = {} /\ Y = {} ->
              Ret([l |-> d.l \cup {Fresh(d, l, rh, d.rn)},
                   r |-> d.r \cup {REntry(r, {<<lh, d.ln>>}, d.rn)},
                   ln |-> d.ln + 1, rn |-> d.rn + 1], Unit)
          [] X # {} /\ Y = {} ->
              LET x == Only(X)
                  pair == <<lh, x.id>>
                  O == FindR(d.r, x.h, LAMBDA e : WithPair(e, pair))
              IN  IF ~One(O) THEN Bad(d)
                  ELSE LET d1 == SetR(d, Only(O), [Only(O) EXCEPT !.ps = @ \ {pair}])
                           d2 == SetL(d1, x, [x EXCEPT !.h = rh, !.rid = d.rn])
                       IN  Ret([d2 EXCEPT !.r = @ \cup {REntry(r, {pair}, d.rn)}, !.rn = @ + 1], Unit)
          [] X = {} /\ Y # {} ->
              LET y == Only(Y)
              IN  Ret([SetR(d, y, [y EXCEPT !.ps = @ \cup {<<lh, d.ln>>}])
                         EXCEPT !.l = @ \cup {Fresh(d, l, rh, y.id)}, !.ln = @ + 1], Unit)
          [] OTHER ->
              LET x == Only(X)
                  y == Only(Y)
                  pair == <<lh, x.id>>
                  d1 == SetR(d, y, [y EXCEPT !.ps = @ \cup {pair}])
                  \* the old right item loses the member last, also if it is the new one
                  O == FindR(d1.r, x.h, LAMBDA e : RightId(e, x.rid))
              IN  IF ~One(O) THEN Bad(d)
                  ELSE Ret(SetL(SetR(d1, Only(O), [Only(O) EXCEPT !.ps = @ \ {pair}]),
                                x, [x EXCEPT !.h = rh, !.rid = y.id]), Unit)

IInsertRight(d, r) ==
    Then(IRemoveRight(d, K(r)), LAMBDA d1, o :
        Ret([d1 EXCEPT !.r = @ \cup {REntry(r, {}, d1.rn)}, !.rn = @ + 1], o))

IInsertLeft(d, l, rk) ==
    LET Y == ByKey(d.r, rk)
    IN  IF Y = {} THEN Ret(d, <<>>)
        ELSE LET y == Only(Y)
                 d1 == SetR(d, y, [y EXCEPT !.ps = @ \cup {<<hl[K(l)], d.ln>>}])
             IN  Then(IRemoveLeft(d1, K(l)), LAMBDA d2, o :
                     Ret([d2 EXCEPT !.l = @ \cup {Fresh(d2, l, hr[rk], y.id)}, !.ln = @ + 1], o))

IInsertRemove(d, l, r) ==
    Then(IRemoveLeft(d, K(l)), LAMBDA d1, o1 :
    Then(IRemoveRight(d1, K(r)), LAMBDA d2, o2 :
        Ret([l |-> d2.l \cup {Fresh(d2, l, hr[K(r)], d2.rn)},
             r |-> d2.r \cup {REntry(r, {<<hl[K(l)], d2.ln>>}, d2.rn)},
             ln |-> d2.ln + 1, rn |-> d2.rn + 1], <<o1, o2>>)))

(***************************************************************************)
(* Re-pairing                                                              *)
(***************************************************************************)
IPair(d, lk, rk) ==
    LET X == ByKey(d.l, lk)
        Y == ByKey(d.r, rk)
    IN  IF X = {} \/ Y = {} THEN Ret(d, FALSE)
        ELSE LET x == Only(X)
                 pair == <<hl[lk], x.id>>
                 O == FindR(d.r, x.h, LAMBDA e : RightId(e, x.rid))
             IN  IF ~One(O) THEN Bad(d)
                 ELSE LET d1 == SetR(d, Only(O), [Only(O) EXCEPT !.ps = @ \ {pair}])
                          \* the new right item is looked up only now: it may be the old one
                          y  == Only(ByKey(d1.r, rk))
                          d2 == SetR(d1, y, [y EXCEPT !.ps = @ \cup {pair}])
                      IN  Ret(SetL(d2, x, [x EXCEPT !.h = hr[rk], !.rid = y.id]), TRUE)

\* the members in ps now belong to a new entry for item n
MovedTo(d, ps, n) ==
    [l |-> (d.l \ MembersOf(d, ps))
             \cup {IF Variant = "swap_one_way" THEN x ELSE [x EXCEPT !.h = hr[K(n)], !.rid = d.rn]
                     : x \in MembersOf(d, ps)},
     r |-> d.r \cup {REntry(n, ps, d.rn)}, ln |-> d.ln, rn |-> d.rn + 1]

ISwapRight(d, ok, n) ==
    IF K(n) = ok /\ ByKey(d.r, ok) # {} THEN Ret(d, Unit)
    ELSE Then(IRemoveRight(d, K(n)), LAMBDA d1, o :
        LET Y == ByKey(d1.r, ok)
        IN  IF Y = {} THEN Then(IInsertRight(d1, n), LAMBDA d2, o2 : Ret(d2, Unit))
            ELSE LET y == Only(Y)
                 IN  IF ~AllFound(d1, y.ps) THEN Bad(d)
                     ELSE Ret(MovedTo(SetR(d1, y, [y EXCEPT !.ps = {}]), y.ps, n), Unit))

ISwapRightRemove(d, ok, n) ==
    LET Y == ByKey(d.r, ok)
    IN  IF Y = {} THEN Then(IInsertRight(d, n), LAMBDA d2, o2 : Ret(d2, <<>>))
        ELSE LET y == Only(Y)
             IN  Then(IRemoveRight([d EXCEPT !.r = @ \ {y}], K(n)), LAMBDA d1, o :
                     IF ~AllFound(d1, y.ps) THEN Bad(d)
                     ELSE Ret(MovedTo(d1, y.ps, n), <<y.v>>))

(***************************************************************************)
(* Bulk operations                                                         *)
(***************************************************************************)
\* what a left entry shows, found by hash and identifier
RightOf(d, x) == FindR(d.r, x.h, LAMBDA e : RightId(e, x.rid))
IPaired(d) == UNION {{<<x.v, y.v>> : y \in RightOf(d, x)} : x \in d.l}
IUnpaired(d) == {y.v : y \in {e \in d.r : e.ps = {}}}
KP(p) == <<K(p[1]), K(p[2])>>

RECURSIVE DropLefts(_, _)
DropLefts(d, T) ==
    IF T = {} THEN Ret(d, {})
    ELSE LET t == CHOOSE t \in T : TRUE
             X == MemberOf(d, t)
         IN  IF ~One(X) THEN Bad(d)
             ELSE LET d1 == [d EXCEPT !.l = @ \ X]
                      Y == RightOf(d1, Only(X))
                  IN  IF ~One(Y) THEN Bad(d)
                      ELSE DropLefts(IF Variant = "retain_left_only" THEN d1
                                     ELSE SetR(d1, Only(Y), [Only(Y) EXCEPT !.ps = @ \ {t}]), T \ {t})
IRetainPaired(d, S) ==
    Then(DropLefts(d, {<<hl[K(p[1])], Only(ByKey(d.l, K(p[1]))).id>> : p \in {q \in IPaired(d) : KP(q) \in S}}),
         LAMBDA d1, o : Ret(d1, IPaired(d)))
IRetainUnpaired(d, S) ==
    LET Y == {y \in d.r : y.ps = {} /\ K(y.v) \in S}
        F(y) == FindR(d.r, hr[K(y.v)], LAMBDA e : RightId(e, y.id))
    IN  IF \E y \in Y : ~One(F(y)) THEN Bad(d)
        ELSE Ret([d EXCEPT !.r = @ \ UNION {F(y) : y \in Y}], IUnpaired(d))
IClear(d) == Ret([d EXCEPT !.l = {}, !.r = {}], Unit)

Run(d, op, a) ==
    CASE op = "insert" -> IInsert(d, a[1], a[2])
      [] op = "insert_left" -> IInsertLeft(d, a[1], a[2])
      [] op = "insert_right" -> IInsertRight(d, a[1])
      [] op = "insert_remove" -> IInsertRemove(d, a[1], a[2])
      [] op = "pair" -> IPair(d, a[1], a[2])
      [] op = "swap_right" -> ISwapRight(d, a[1], a[2])
      [] op = "swap_right_remove" -> ISwapRightRemove(d, a[1], a[2])
      [] op = "remove" -> IRemove(d, a[1], a[2])
      [] op = "remove_left" -> IRemoveLeft(d, a[1])
      [] op = "remove_right" -> IRemoveRight(d, a[1])
      [] op = "retain_paired" -> IRetainPaired(d, a[1])
      [] op = "retain_unpaired" -> IRetainUnpaired(d, a[1])
      [] op = "clear" -> IClear(d)

(***************************************************************************)
(* Meaning and observers                                                   *)
(***************************************************************************)
Refers(x, y) == x.rid = y.id /\ x.h = hr[K(y.v)]
Lists(x, y) == <<hl[K(x.v)], x.id>> \in y.ps
Grouped(d) == {z \in d.l \X d.r : Refers(z[1], z[2]) /\ Lists(z[1], z[2])}
Abs(d) == [p |-> {<<z[1].v, z[2].v>> : z \in Grouped(d)}, ul |-> {},
           ur |-> {y.v : y \in {e \in d.r : e.ps = {}}}]

IGetRight(d, lk) ==
    LET E == ByKey(d.l, lk)
    IN  IF E = {} THEN <<>>
        ELSE LET Y == RightOf(d, Only(E))
             IN  IF Y = {} THEN <<>> ELSE IF One(Y) THEN <<Only(Y).v>> ELSE << <<0, 0>> >>
IMembers(d, rk) ==
    LET E == ByKey(d.r, rk)
    IN  IF E = {} THEN <<>>
        ELSE IF ~AllFound(d, Only(E).ps) THEN << {<<0, 0>>} >>
        ELSE << {x.v : x \in MembersOf(d, Only(E).ps)} >>
IIter(d) == UNION {IF y.ps = {} THEN {<< <<>>, y.v>>}
                   ELSE {<< <<x.v>>, y.v>> : x \in MembersOf(d, y.ps)} : y \in d.r}
IObs(d, LK, RK) ==
    [cl |-> [k \in LK |-> ByKey(d.l, k) # {}],
     cr |-> [k \in RK |-> ByKey(d.r, k) # {}],
     rp |-> [k \in RK |-> \E y \in ByKey(d.r, k) : y.ps # {}],
     gr |-> [k \in LK |-> IGetRight(d, k)],
     gli |-> [k \in RK |-> IMembers(d, k)],
     ap |-> [i \in LK |-> [j \in RK |-> IArePaired(d, i, j)]],
     lenl |-> Cardinality(d.l), lenr |-> Cardinality(d.r),
     empty |-> Cardinality(d.l) + Cardinality(d.r) = 0,
     iter |-> IIter(d), ip |-> IPaired(d), iu |-> IUnpaired(d),
     il |-> {x.v : x \in d.l}, ir |-> {y.v : y \in d.r}]

(***************************************************************************)
(* The representation invariant: both directions say the same.             *)
(***************************************************************************)
Represents(d) ==
    /\ IdsUnique(d.l) /\ IdsUnique(d.r) /\ KeysUnique(d.l) /\ KeysUnique(d.r)
    /\ \A x \in d.l : Cardinality({y \in d.r : Refers(x, y)}) = 1
    /\ \A y \in d.r : y.ps = {<<hl[K(x.v)], x.id>> : x \in {e \in d.l : e.rid = y.id}}
    /\ \A x \in d.l : x.id < d.ln
    /\ \A y \in d.r : y.id < d.rn

\* every identifier renamed to the key of the item that has it
Canon(d) ==
    [l |-> {[e EXCEPT !.id = K(e.v), !.rid = K(Only({y \in d.r : y.id = e.rid}).v)] : e \in d.l},
     r |-> {[e EXCEPT !.id = K(e.v),
                      !.ps = {<<p[1], K(Only({x \in d.l : x.id = p[2]}).v)>> : p \in e.ps}] : e \in d.r}]
Built(mm) ==
    [l |-> {LEntry(x[1], hr[K(x[2])], K(x[2]), K(x[1])) : x \in mm.p},
     r |-> {REntry(y, {<<hl[K(x[1])], K(x[1])>> : x \in {z \in mm.p : z[2] = y}}, K(y))
              : y \in {x[2] : x \in mm.p} \cup mm.ur}]
NoHiddenState(d) == Canon(d) = Built(Abs(d))
=============================================================================
