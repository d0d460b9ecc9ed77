------------------------------ MODULE GroupMap -------------------------------
(***************************************************************************)
(* GroupMap: every left item is paired with one right item, a right item   *)
(* with any number of left items (its members).                            *)
(***************************************************************************)
EXTENDS MapCommon

\* contents from the grouping and the set of all right items
GM(ps, rs) == [p |-> ps, ul |-> {}, ur |-> rs \ Norm({x[2] : x \in ps})]

Members(m, rk) == {x[1] : x \in PairsR(m, rk)}

\* a removed group, as returned: its members and its right item
Group(m, R) == IF R = {} THEN <<>> ELSE <<Members(m, K(Only(R))), Only(R)>>

DropRight(m, rk) == GM(m.p \ PairsR(m, rk), Rights(m) \ RightAt(m, rk))
DropLeft(m, lk)  == GM(m.p \ PairsL(m, lk), Rights(m))

(***************************************************************************)
(* Insertion                                                               *)
(***************************************************************************)
\* insert(l, r) keeps already stored equal items
InsertSt(m, l, r) ==
    LET sl == IF LeftAt(m, K(l)) = {}  THEN l ELSE Only(LeftAt(m, K(l)))
        sr == IF RightAt(m, K(r)) = {} THEN r ELSE Only(RightAt(m, K(r)))
    IN  GM((m.p \ PairsL(m, K(l))) \cup {<<sl, sr>>}, Rights(m) \cup {sr})
Insert(m, l, r) == Same(InsertSt(m, l, r), Unit)

InsertLeft(m, l, rk) ==
    IF RightAt(m, rk) = {} THEN Same(m, <<>>)
    ELSE Same(GM((m.p \ PairsL(m, K(l))) \cup {<<l, Only(RightAt(m, rk))>>}, Rights(m)),
              Opt(LeftAt(m, K(l))))

InsertRightSt(m, r) ==
    GM(m.p \ PairsR(m, K(r)), (Rights(m) \ RightAt(m, K(r))) \cup {r})
InsertRight(m, r) == Same(InsertRightSt(m, r), Group(m, RightAt(m, K(r))))

InsertRemove(m, l, r) ==
    LET m1 == DropLeft(m, K(l))
        m2 == DropRight(m1, K(r))
    IN  Same(GM(m2.p \cup {<<l, r>>}, Rights(m2) \cup {r}),
             <<Opt(LeftAt(m, K(l))), Group(m1, RightAt(m1, K(r)))>>)

(***************************************************************************)
(* Re-pairing                                                              *)
(***************************************************************************)
Pair(m, lk, rk) ==
    IF LeftAt(m, lk) = {} \/ RightAt(m, rk) = {} THEN Same(m, FALSE)
    ELSE Same(GM((m.p \ PairsL(m, lk)) \cup {<<Only(LeftAt(m, lk)), Only(RightAt(m, rk))>>},
                 Rights(m)), TRUE)

\* members of the right item with key ok, moved under item n
Moved(m, ok, n) == {<<l, n>> : l \in Members(m, ok)}

SwapRight(m, ok, n) ==
    IF RightAt(m, ok) = {} THEN Same(InsertRightSt(m, n), Unit)
    ELSE IF K(n) = ok THEN Same(m, Unit)
    ELSE LET m1 == DropRight(m, K(n))
         IN  Same(GM((m1.p \ PairsR(m1, ok)) \cup Moved(m1, ok, n), Rights(m1) \cup {n}), Unit)

SwapRightRemove(m, ok, n) ==
    IF RightAt(m, ok) = {} THEN Same(InsertRightSt(m, n), <<>>)
    ELSE LET m1 == IF K(n) = ok THEN m ELSE DropRight(m, K(n))
             m2 == DropRight(m1, ok)
         IN  Same(GM(m2.p \cup Moved(m1, ok, n), Rights(m2) \cup {n}), Opt(RightAt(m, ok)))

(***************************************************************************)
(* Removal                                                                 *)
(***************************************************************************)
RemoveLeft(m, lk)  == Same(DropLeft(m, lk), Opt(LeftAt(m, lk)))
RemoveRight(m, rk) == Same(DropRight(m, rk), Group(m, RightAt(m, rk)))
Remove(m, lk, rk)  == IF ArePaired(m, lk, rk) THEN RemoveRight(m, rk) ELSE Same(m, <<>>)

(***************************************************************************)
(* Bulk operations: the closures answer true on S (pairs of keys, or keys) *)
(***************************************************************************)
KP(x) == <<K(x[1]), K(x[2])>>
Clear(m) == Same(Empty, Unit)
RetainPaired(m, S) ==
    Same(GM({x \in m.p : KP(x) \notin S}, Rights(m)), m.p)
RetainUnpaired(m, S) ==
    Same(GM(m.p, Rights(m) \ {x \in m.ur : K(x) \in S}), m.ur)
RetainPairedPanic(m, S, x) ==
    {Outcome(GM(m.p \ D, Rights(m)), Panicked) :
        D \in SUBSET {y \in m.p : KP(y) \in S /\ KP(y) # x}}
RetainUnpairedPanic(m, S, x) ==
    {Outcome(GM(m.p, Rights(m) \ D), Panicked) :
        D \in SUBSET {y \in m.ur : K(y) \in S /\ K(y) # x}}

(***************************************************************************)
(* Sequences: of pairs <<l, r>>, and of <<optional l, r>>                  *)
(***************************************************************************)
InsertPair(m, x) == InsertSt(m, x[1], x[2])
InsertOpt(m, x) == IF x[1] = <<>> THEN InsertRightSt(m, x[2]) ELSE InsertSt(m, x[1][1], x[2])
\* left items that are new, and right items that are stored: the left items join them
\* (checked: see Shortcuts in the SM module)
AllJoin(m, s) ==
    LET lk == Norm({K(s[j][1]) : j \in DOMAIN s})
        rk == Norm({K(x) : x \in Rights(m)})
    IN  /\ Cardinality(lk) = Len(s) /\ \A j \in DOMAIN s : K(s[j][2]) \in rk
        /\ \A x \in Lefts(m) : K(x) \notin lk
JoinAll(m, s) ==
    LET q == Sorted(Rights(m))
    IN  GM(m.p \cup {<<s[j][1], Seek(q, K(s[j][2]), 1, Len(q))>> : j \in DOMAIN s}, Rights(m))
InsertPairs(m, s) == IF AllJoin(m, s) THEN JoinAll(m, s) ELSE FoldPairs(InsertPair, m, s)
\* right items alone, all new
AllRights(m, s) ==
    LET rk == Norm({K(s[j][2]) : j \in DOMAIN s})
    IN  /\ Cardinality(rk) = Len(s) /\ \A j \in DOMAIN s : s[j][1] = <<>>
        /\ \A x \in Rights(m) : K(x) \notin rk
AddRights(m, s) == [m EXCEPT !.ur = @ \cup {s[j][2] : j \in DOMAIN s}]
FoldOpts(m, s) == IF AllRights(m, s) THEN AddRights(m, s) ELSE FoldOps(InsertOpt, m, s)
Extend(m, s)      == Same(InsertPairs(m, s), Unit)
ExtendOpt(m, s)   == Same(FoldOpts(m, s), Unit)
ExtendPanic(m, s) == Same(FoldOpts(m, s), Panicked)
Collect(m, s)     == Same(FoldPairs(InsertPair, Empty, s), Unit)
CollectOpt(m, s)  == Same(FoldOpts(Empty, s), Unit)

Clone(m) == Same(m, Unit)
Touch(m) == Same(m, <<"ok">>)

(***************************************************************************)
(* The same operations as predicates, by name (see CycleMap)               *)
(***************************************************************************)
Outs(m, op, a) ==
    CASE op = "insert" -> Insert(m, a[1], a[2])
      [] op = "insert_left" -> InsertLeft(m, a[1], a[2])
      [] op = "insert_right" -> InsertRight(m, a[1])
      [] op = "insert_remove" -> InsertRemove(m, a[1], a[2])
      [] op = "pair" -> Pair(m, a[1], a[2])
      [] op = "swap_right" -> SwapRight(m, a[1], a[2])
      [] op = "swap_right_remove" -> SwapRightRemove(m, a[1], a[2])
      [] op = "remove" -> Remove(m, a[1], a[2])
      [] op = "remove_left" -> RemoveLeft(m, a[1])
      [] op = "remove_right" -> RemoveRight(m, a[1])
      [] op = "clear" -> Clear(m)
      [] op = "retain_paired" -> RetainPaired(m, a[1])
      [] op = "retain_unpaired" -> RetainUnpaired(m, a[1])
      [] op = "extend" -> Extend(m, a[1])
      [] op = "extend_opt" -> ExtendOpt(m, a[1])
      [] op = "extend_panic" -> ExtendPanic(m, a[1])
      [] op = "collect" -> Collect(m, a[1])
      [] op = "collect_opt" -> CollectOpt(m, a[1])
      [] op = "clone" -> Clone(m)

Bulk == {"retain_paired_panic", "retain_unpaired_panic"}

AllowedM(m, op, a, m2) ==
    CASE op = "retain_paired_panic" ->
            /\ m2.p \subseteq m.p /\ m2 = GM(m2.p, Rights(m))
            /\ \A y \in m.p \ m2.p : KP(y) \in a[1] /\ KP(y) # a[2]
      [] op = "retain_unpaired_panic" ->
            /\ m2.p = m.p /\ m2.ul = {} /\ m2.ur \subseteq m.ur
            /\ \A y \in m.ur \ m2.ur : K(y) \in a[1] /\ K(y) # a[2]
      [] OTHER -> \E o \in Outs(m, op, a) : o.m = m2

Allowed(m, op, a, r, m2) ==
    IF op \in Bulk THEN AllowedM(m, op, a, m2) /\ r = Panicked
    ELSE Outcome(m2, r) \in Outs(m, op, a)

Expected(m, op, a) == IF op \in Bulk THEN {} ELSE {o.m : o \in Outs(m, op, a)}

(***************************************************************************)
(* KNOWN FINDING (G01, G02, X07): insert(l, r) of items already paired with*)
(* each other breaks the pairing (see known_findings.txt).  The specified  *)
(* behaviour is the one above; the operators below identify the inputs     *)
(* that reach the defect, and what the defective map shows afterwards.     *)
(***************************************************************************)
Reinserts(m, x) == ArePaired(m, K(x[1]), K(x[2]))

RECURSIVE SeqReinserts(_, _)
SeqReinserts(m, s) ==
    IF s = <<>> \/ AllJoin(m, s) \/ AllNew(m, s) THEN FALSE
    ELSE Reinserts(m, Head(s)) \/ SeqReinserts(InsertPair(m, Head(s)), Tail(s))
RECURSIVE SeqOptReinserts(_, _)
SeqOptReinserts(m, s) ==
    IF s = <<>> \/ AllRights(m, s) THEN FALSE
    ELSE (Head(s)[1] # <<>> /\ Reinserts(m, <<Head(s)[1][1], Head(s)[2]>>))
         \/ SeqOptReinserts(InsertOpt(m, Head(s)), Tail(s))

(***************************************************************************)
(* Observers                                                               *)
(***************************************************************************)
ContainsLeft(m, lk)  == LeftAt(m, lk) # {}
ContainsRight(m, rk) == RightAt(m, rk) # {}
IsRightPaired(m, rk) == PairsR(m, rk) # {}
GetRight(m, lk)    == Opt({x[2] : x \in PairsL(m, lk)})
GetLeftIter(m, rk) == IF RightAt(m, rk) = {} THEN <<>> ELSE <<Members(m, rk)>>
LenLeft(m)  == Cardinality(m.p)
LenRight(m) == Cardinality(Rights(m))
IsEmpty(m) == m = Empty
Iter(m) == Norm({<< <<x[1]>>, x[2]>> : x \in m.p}) \cup {<< <<>>, x>> : x \in m.ur}
MapEq(a, b) == Contents(a) = Contents(b)

Obs(m, LK, RK) ==
    [cl |-> [k \in LK |-> ContainsLeft(m, k)],
     cr |-> [k \in RK |-> ContainsRight(m, k)],
     rp |-> [k \in RK |-> IsRightPaired(m, k)],
     gr |-> [k \in LK |-> GetRight(m, k)],
     gli |-> [k \in RK |-> GetLeftIter(m, k)],
     ap |-> [i \in LK |-> [j \in RK |-> ArePaired(m, i, j)]],
     lenl |-> LenLeft(m), lenr |-> LenRight(m),
     empty |-> IsEmpty(m),
     iter |-> Iter(m), ip |-> m.p, iu |-> m.ur, il |-> Lefts(m), ir |-> Rights(m)]

\* What a map shows after insert(l, r) of an existing pair: the left item still refers to
\* its right item, but the right item no longer lists it.
DefectObs(m, lk, LK, RK) ==
    LET x    == Only(PairsL(m, lk))
        side == GM(m.p \ {x}, Rights(m))         \* as seen from the right items
    IN  [Obs(m, LK, RK) EXCEPT
           !.rp   = [k \in RK |-> IsRightPaired(side, k)],
           !.gli  = [k \in RK |-> GetLeftIter(side, k)],
           !.ap   = [i \in LK |-> [j \in RK |-> ArePaired(side, i, j)]],
           !.iter = Iter(side),
           !.iu   = side.ur]

Legal(m) ==
    /\ m.ul = {}
    /\ Injective(KeyOfLeft, m.p)
    /\ Injective(K, Rights(m))
    /\ m.ur \cap Norm({x[2] : x \in m.p}) = {}
=============================================================================
