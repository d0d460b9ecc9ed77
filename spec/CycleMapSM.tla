----------------------------- MODULE CycleMapSM ------------------------------
(***************************************************************************)
(* The state machine of a CycleMap: every public mutating operation, with  *)
(* every argument over finite item universes, and the properties it is     *)
(* meant to satisfy, written independently of the operation definitions.   *)
(*                                                                         *)
(* m is the contents; ev records the last call, its arguments and result   *)
(* (hidden from the state space by a VIEW).                                *)
(***************************************************************************)
EXTENDS CycleMap

CONSTANTS NL, NR,     \* number of left / right keys
          NT,         \* number of tags (copies) per key
          SeqLen      \* maximal length of the sequences given to extend etc.

VARIABLES m, ev

LK == 1..NL
RK == 1..NR
Tags == 0..(NT - 1)
LI == LK \X Tags
RI == RK \X Tags
PairSeqs == SeqsUpTo(LI \X RI, SeqLen)
KPs == {KP(x) : x \in m.p}

Do(op, a, outs) == \E o \in outs : m' = o.m /\ ev' = [op |-> op, a |-> a, r |-> o.r]

ActInsert == \E l \in LI, r \in RI : Do("insert", <<l, r>>, Insert(m, l, r))
ActRemove == \E l \in LK, r \in RK : Do("remove", <<l, r>>, Remove(m, l, r))
ActRemoveViaLeft  == \E l \in LK : Do("remove_via_left", <<l>>, RemoveViaLeft(m, l))
ActRemoveViaRight == \E r \in RK : Do("remove_via_right", <<r>>, RemoveViaRight(m, r))
ActSwapLeft == \E o \in LK, n \in LI : Do("swap_left", <<o, n>>, SwapLeft(m, o, n))
ActSwapLeftChecked == \E o \in LK, e \in RK, n \in LI :
    Do("swap_left_checked", <<o, e, n>>, SwapLeftChecked(m, o, e, n))
ActSwapLeftOrInsert == \E o \in LK, n \in LI, r \in RI :
    Do("swap_left_or_insert", <<o, n, r>>, SwapLeftOrInsert(m, o, n, r))
ActSwapRight == \E o \in RK, n \in RI : Do("swap_right", <<o, n>>, SwapRight(m, o, n))
ActSwapRightChecked == \E o \in RK, e \in LK, n \in RI :
    Do("swap_right_checked", <<o, e, n>>, SwapRightChecked(m, o, e, n))
ActSwapRightOrInsert == \E o \in RK, n \in RI, l \in LI :
    Do("swap_right_or_insert", <<o, n, l>>, SwapRightOrInsert(m, o, n, l))
ActClear == Do("clear", <<>>, Clear(m))
ActDrain == \E n \in 0..(Cardinality(m.p) + 1) : Do("drain", <<n>>, Drain(m, n))
ActDrainFilter == \E S \in SUBSET KPs : \E n \in 0..(Cardinality(S) + 1) :
    Do("drain_filter", <<S, n>>, DrainFilter(m, S, n))
ActDrainFilterForget == \E S \in SUBSET KPs : \E n \in 0..(Cardinality(S) + 1) :
    Do("drain_filter_forget", <<S, n>>, DrainFilterForget(m, S, n))
ActRetain == \E S \in SUBSET KPs : Do("retain", <<S>>, Retain(m, S))
ActRetainPanic == \E x \in KPs : \E S \in SUBSET (KPs \ {x}) :
    Do("retain_panic", <<S, x>>, RetainPanic(m, S, x))
ActDrainFilterPanic == \E x \in KPs : \E S \in SUBSET (KPs \ {x}) :
    Do("drain_filter_panic", <<S, x>>, DrainFilterPanic(m, S, x))
ActExtend == \E s \in PairSeqs : Do("extend", <<s>>, Extend(m, s))
ActExtendPanic == \E s \in PairSeqs : Do("extend_panic", <<s>>, ExtendPanic(m, s))
ActCollect == \E s \in PairSeqs : Do("collect", <<s>>, Collect(m, s))
ActDeserialize == \E s \in PairSeqs : Do("deserialize", <<s>>, FromSerde(m, s))
ActDeserializeBad == \E i \in 0..7 : Do("deserialize_bad", <<i>>, FromBadSerde(m, i))
ActRoundTrip == Do("round_trip", <<>>, RoundTrip(m))
ActClone == Do("clone", <<>>, Clone(m))
ActReserve == \E n \in {0, 1, 5, 40} : Do("reserve", <<n>>, Touch(m))
ActTryReserve == \E n \in {0, 1, 40} : Do("try_reserve", <<n>>, Touch(m))
ActTryReserveHuge == Do("try_reserve_huge", <<>>, Touch(m))
ActShrinkTo == \E n \in {0, 1, 4, 20} : Do("shrink_to", <<n>>, Touch(m))
ActShrinkToFit == Do("shrink_to_fit", <<>>, Touch(m))

Init == m = Empty /\ ev = [op |-> "new", a |-> <<>>, r |-> <<>>]

Next ==
    \/ ActInsert \/ ActRemove \/ ActRemoveViaLeft \/ ActRemoveViaRight
    \/ ActSwapLeft \/ ActSwapLeftChecked \/ ActSwapLeftOrInsert
    \/ ActSwapRight \/ ActSwapRightChecked \/ ActSwapRightOrInsert
    \/ ActClear \/ ActDrain \/ ActDrainFilter \/ ActDrainFilterForget \/ ActRetain
    \/ ActRetainPanic \/ ActDrainFilterPanic
    \/ ActExtend \/ ActExtendPanic \/ ActCollect
    \/ ActDeserialize \/ ActDeserializeBad \/ ActRoundTrip
    \/ ActClone \/ ActReserve \/ ActTryReserve \/ ActTryReserveHuge
    \/ ActShrinkTo \/ ActShrinkToFit

vars == <<m, ev>>
Spec == Init /\ [][Next]_vars
View == m

(***************************************************************************)
(* C01                                                                     *)
(***************************************************************************)
OneToOne ==
    /\ \A x, y \in m.p : (K(x[1]) = K(y[1])) <=> (x = y)
    /\ \A x, y \in m.p : (K(x[2]) = K(y[2])) <=> (x = y)
    /\ m.ul = {} /\ m.ur = {}
LookupsAgree ==
    /\ \A l \in LK, r \in RK :
         /\ ArePaired(m, l, r) <=> (GetRight(m, l) # <<>> /\ K(GetRight(m, l)[1]) = r)
         /\ ArePaired(m, l, r) <=> (GetLeft(m, r) # <<>> /\ K(GetLeft(m, r)[1]) = l)
    /\ \A l \in LK : ContainsLeft(m, l) <=> GetRight(m, l) # <<>>
    /\ \A r \in RK : ContainsRight(m, r) <=> GetLeft(m, r) # <<>>
    /\ \A l \in LK : ContainsLeft(m, l) <=> \E x \in IterLeft(m) : K(x) = l
    /\ \A r \in RK : ContainsRight(m, r) <=> \E x \in IterRight(m) : K(x) = r
    /\ Len1(m) = Cardinality(Iter(m))
    /\ Len1(m) = Cardinality(IterLeft(m)) /\ Len1(m) = Cardinality(IterRight(m))
    /\ IsEmpty(m) <=> Len1(m) = 0

(***************************************************************************)
(* Vocabulary for action properties                                        *)
(***************************************************************************)
Gone == m.p \ m'.p
Came == m'.p \ m.p
\* the frame: pairs with none of the given keys are untouched
Frame(Ls, Rs) ==
    /\ \A x \in Gone : K(x[1]) \in Ls \/ K(x[2]) \in Rs
    /\ \A x \in Came : K(x[1]) \in Ls \/ K(x[2]) \in Rs
Is(op) == ev'.op = op
A(i) == ev'.a[i]
R == ev'.r
Conflicts(l, r) == {x \in m.p : K(x[1]) = K(l) \/ K(x[2]) = K(r)}
\* elements of an OptionalPair result, by position
LeftOf(op)  == IF op[1] \in {"L", "B"} THEN {op[2]} ELSE {}
RightOf(op) == IF op[1] = "B" THEN {op[3]} ELSE IF op[1] = "R" THEN {op[2]} ELSE {}

C02 ==
    Is("insert") =>
       /\ <<A(1), A(2)>> \in m'.p
       /\ Frame({K(A(1))}, {K(A(2))})
       /\ Cardinality(m'.p) = 1 + Cardinality(m.p) - Cardinality(Conflicts(A(1), A(2)))
       /\ LeftOf(R) \cup RightOf(R) = Conflicts(A(1), A(2))
       /\ \A x \in LeftOf(R) : K(x[1]) = K(A(1))
       /\ \A x \in RightOf(R) : K(x[2]) = K(A(2)) /\ K(x[1]) # K(A(1))

C03 ==
    /\ Is("remove_via_left") =>
         /\ Frame({A(1)}, {}) /\ Came = {}
         /\ ~\E x \in m'.p : K(x[1]) = A(1)
         /\ R = Opt(Gone)
    /\ Is("remove_via_right") =>
         /\ Frame({}, {A(1)}) /\ Came = {}
         /\ ~\E x \in m'.p : K(x[2]) = A(1)
         /\ R = Opt(Gone)
    /\ Is("remove") =>
         /\ Came = {} /\ \A x \in Gone : K(x[1]) = A(1) /\ K(x[2]) = A(2)
         /\ ~ArePaired(m', A(1), A(2))
         /\ R = Opt(Gone)

\* what a successful swap does: old leaves, new takes its place at the same partner
SwappedLeft(ok, n) ==
    /\ Frame({ok, K(n)}, {})
    /\ \E x \in m.p : K(x[1]) = ok /\ <<n, x[2]>> \in m'.p /\ LeftOf(R) = {x[1]}
    /\ RightOf(R) = {x \in m.p : K(x[1]) = K(n) /\ K(x[1]) # ok}
    /\ Cardinality(m'.p) = Cardinality(m.p) - Cardinality(RightOf(R))
    /\ K(n) # ok => ~ContainsLeft(m', ok)
SwappedRight(ok, n) ==
    /\ Frame({}, {ok, K(n)})
    /\ \E x \in m.p : K(x[2]) = ok /\ <<x[1], n>> \in m'.p /\ LeftOf(R) = {x[2]}
    /\ RightOf(R) = {x \in m.p : K(x[2]) = K(n) /\ K(x[2]) # ok}
    /\ Cardinality(m'.p) = Cardinality(m.p) - Cardinality(RightOf(R))
    /\ K(n) # ok => ~ContainsRight(m', ok)
Nothing(res) == m' = m /\ R = res

C04 ==
    /\ Is("swap_left") =>
         IF ContainsLeft(m, A(1)) THEN SwappedLeft(A(1), A(2)) ELSE Nothing(Neither)
    /\ Is("swap_right") =>
         IF ContainsRight(m, A(1)) THEN SwappedRight(A(1), A(2)) ELSE Nothing(Neither)
    /\ Is("swap_left_checked") =>
         IF ArePaired(m, A(1), A(2)) THEN SwappedLeft(A(1), A(3)) ELSE Nothing(Neither)
    /\ Is("swap_right_checked") =>
         IF ArePaired(m, A(2), A(1)) THEN SwappedRight(A(1), A(3)) ELSE Nothing(Neither)
    /\ Is("swap_left_or_insert") =>
         IF ContainsLeft(m, A(1)) THEN SwappedLeft(A(1), A(2))
         ELSE /\ \E o \in Insert(m, A(2), A(3)) : m' = o.m
              /\ LeftOf(R) = {x[1] : x \in PairsL(m, K(A(2)))}
              /\ RightOf(R) = {x \in PairsR(m, K(A(3))) : K(x[1]) # K(A(2))}
    /\ Is("swap_right_or_insert") =>
         IF ContainsRight(m, A(1)) THEN SwappedRight(A(1), A(2))
         ELSE LET c == Conflicts(A(3), A(2))
              IN  /\ \E o \in Insert(m, A(3), A(2)) : m' = o.m
                  /\ Cardinality(c) = 0 => R = Neither
                  /\ Cardinality(c) = 1 => R = SomeRight(Only(c))
                  /\ Cardinality(c) = 2 => /\ LeftOf(R) = {x[2] : x \in PairsR(m, K(A(2)))}
                                           /\ RightOf(R) = PairsL(m, K(A(3)))

\* swap_left and swap_right are mirror images
MirrorResult(r) ==
    IF r[1] = "R" THEN <<"R", MirrorPair(r[2])>>
    ELSE IF r[1] = "B" THEN <<"B", r[2], MirrorPair(r[3])>> ELSE r
C04Mirror ==
    /\ Is("swap_left") =>
         \E o \in SwapRight(Mirror(m), A(1), A(2)) :
            Mirror(m') = o.m /\ MirrorResult(R) = o.r
    /\ Is("swap_left_checked") =>
         \E o \in SwapRightChecked(Mirror(m), A(1), A(2), A(3)) :
            Mirror(m') = o.m /\ MirrorResult(R) = o.r
    /\ Is("swap_left_or_insert") =>
         \E o \in SwapRightOrInsert(Mirror(m), A(1), A(2), A(3)) : Mirror(m') = o.m

C05 ==
    /\ Is("drain") => m' = Empty /\ R \subseteq m.p /\ (A(1) >= Cardinality(m.p) => R = m.p)
    /\ Is("drain_filter") =>
         /\ Came = {} /\ \A x \in m.p : (x \in Gone) <=> (KP(x) \in A(1))
         /\ R[1] \subseteq Gone /\ R[2] = m.p
         /\ A(2) >= Cardinality(Gone) => R[1] = Gone
    /\ Is("retain") => Came = {} /\ R = m.p /\ \A x \in m.p : (x \in m'.p) <=> (KP(x) \in A(1))
    /\ Is("clear") => m'.p = {}

C06 == \* X06
    /\ Is("round_trip") => m' = m /\ R = m.p
    /\ Is("deserialize_bad") => m' = m

\* X08: after a panicking callback only accepted entries may be gone; a forgotten
\* drain_filter has removed exactly what it yielded
X08 ==
    /\ Is("retain_panic") => Came = {} /\ \A x \in Gone : KP(x) \notin A(1) /\ KP(x) # A(2)
    /\ Is("drain_filter_panic") => Came = {} /\ \A x \in Gone : KP(x) \in A(1) /\ KP(x) # A(2)
    /\ Is("drain_filter_forget") => Came = {} /\ Gone = R /\ \A x \in Gone : KP(x) \in A(1)

X05 == Is("clone") => m' = m
X09 == ev'.op \in {"reserve", "try_reserve", "try_reserve_huge", "shrink_to", "shrink_to_fit"} => m' = m

(***************************************************************************)
(* X04: no operation duplicates an item, and only the operations that are  *)
(* documented to do so discard any.  Items are counted on both sides       *)
(* together, stored + returned against stored + passed in.                 *)
(***************************************************************************)
N(b) == IF b THEN 1 ELSE 0
CountIn(mm, i) == N(i \in Lefts(mm)) + N(i \in Rights(mm))
InPair(x, i) == N(x[1] = i) + N(x[2] = i)
RECURSIVE CountSet(_, _)
CountSet(S, i) == IF S = {} THEN 0
                ELSE LET x == CHOOSE x \in S : TRUE IN InPair(x, i) + CountSet(S \ {x}, i)
RECURSIVE CountSeq(_, _)
CountSeq(s, i) == IF s = <<>> THEN 0 ELSE InPair(Head(s), i) + CountSeq(Tail(s), i)
\* items passed by value
Passed(i) ==
    CASE Is("insert") -> InPair(<<A(1), A(2)>>, i)
      [] ev'.op \in {"swap_left", "swap_right"} -> N(A(2) = i)
      [] ev'.op \in {"swap_left_checked", "swap_right_checked"} -> N(A(3) = i)
      [] ev'.op \in {"swap_left_or_insert", "swap_right_or_insert"} -> N(A(2) = i) + N(A(3) = i)
      [] ev'.op \in {"extend", "extend_panic", "collect", "deserialize"} -> CountSeq(A(1), i)
      [] OTHER -> 0
\* items returned by value
Returned(i) ==
    CASE Is("insert") -> CountSet(LeftOf(R) \cup RightOf(R), i)
      [] ev'.op \in {"remove", "remove_via_left", "remove_via_right"} -> CountSeq(R, i)
      [] ev'.op \in {"swap_left", "swap_right", "swap_left_checked", "swap_right_checked",
                     "swap_left_or_insert", "swap_right_or_insert"} ->
            CountSet(RightOf(R), i) + N(LeftOf(R) = {i})
      [] ev'.op \in {"drain", "drain_filter_forget"} -> CountSet(R, i)
      [] Is("drain_filter") -> CountSet(R[1], i)
      [] OTHER -> 0
Items == LI \cup RI
Before(i) == CountIn(m, i) + Passed(i)
After(i)  == CountIn(m', i) + Returned(i)
NoDuplication == \A i \in Items : After(i) <= Before(i)
\* operations after which every item is either stored or returned, or still the caller's
Lossless == {"insert", "remove", "remove_via_left", "remove_via_right",
             "swap_left", "swap_right", "swap_left_checked", "swap_right_checked",
             "drain_filter_forget", "round_trip", "clone", "reserve", "try_reserve",
             "try_reserve_huge", "shrink_to", "shrink_to_fit"}
\* a refused swap drops the item it was given
Refused == ev'.op \in {"swap_left", "swap_right", "swap_left_checked", "swap_right_checked"}
           /\ R = Neither
X04 == /\ NoDuplication
       /\ (ev'.op \in Lossless /\ ~Refused) => \A i \in Items : After(i) = Before(i)

(***************************************************************************)
\* the ways around folding agree with it
Shortcuts ==
    /\ \A s \in PairSeqs : AllNew(m, s) => AddAll(m, s) = FoldOps(InsertPair, m, s)

Inv == OneToOne /\ LookupsAgree /\ Legal(m) /\ Shortcuts
PropC02 == [][C02]_vars
PropC03 == [][C03]_vars
PropC04 == [][C04 /\ C04Mirror]_vars
PropC05 == [][C05]_vars
PropX04 == [][X04]_vars
PropX05 == [][X05]_vars
PropX06 == [][C06]_vars
PropX08 == [][X08]_vars
PropX09 == [][X09]_vars
\* the predicates used by trace validation accept every step of the machine
PropAllowed == [][/\ Allowed(m, ev'.op, ev'.a, ev'.r, m')
                  /\ AllowedM(m, ev'.op, ev'.a, m')
                  /\ Expected(m, ev'.op, ev'.a) \in {{}, {m'}}]_vars
=============================================================================
