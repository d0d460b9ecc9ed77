-------------------------- MODULE PartialCycleMapSM --------------------------
(***************************************************************************)
(* The state machine of a PartialCycleMap and its properties.  See         *)
(* CycleMapSM for the conventions.                                         *)
(***************************************************************************)
EXTENDS PartialCycleMap

CONSTANTS NL, NR, NT, SeqLen

VARIABLES m, ev

LK == 1..NL
RK == 1..NR
Tags == 0..(NT - 1)
LI == LK \X Tags
RI == RK \X Tags
PairSeqs == SeqsUpTo(LI \X RI, SeqLen)
OptEntries == {Neither} \cup {SomeLeft(l) : l \in LI} \cup {SomeRight(r) : r \in RI}
              \cup {SomeBoth(l, r) : l \in LI, r \in RI}
OptSeqs == SeqsUpTo(OptEntries, SeqLen)
KEs(E) == {KE(e) : e \in E}

Do(op, a, outs) == \E o \in outs : m' = o.m /\ ev' = [op |-> op, a |-> a, r |-> o.r]

ActInsert == \E l \in LI, r \in RI : Do("insert", <<l, r>>, Insert(m, l, r))
ActInsertLeft  == \E l \in LI : Do("insert_left", <<l>>, InsertLeft(m, l))
ActInsertRight == \E r \in RI : Do("insert_right", <<r>>, InsertRight(m, r))
ActPair == \E l \in LK, r \in RK : Do("pair", <<l, r>>, Pair(m, l, r))
ActUnpair == \E l \in LK, r \in RK : Do("unpair", <<l, r>>, Unpair(m, l, r))
ActPairForced == \E l \in LK, r \in RK : Do("pair_forced", <<l, r>>, PairForced(m, l, r))
ActPairForcedRemove == \E l \in LK, r \in RK :
    Do("pair_forced_remove", <<l, r>>, PairForcedRemove(m, l, r))
ActRemove == \E l \in LK, r \in RK : Do("remove", <<l, r>>, Remove(m, l, r))
ActRemoveLeft  == \E l \in LK : Do("remove_left", <<l>>, RemoveLeft(m, l))
ActRemoveRight == \E r \in RK : Do("remove_right", <<r>>, RemoveRight(m, r))
ActRemoveViaLeft  == \E l \in LK : Do("remove_via_left", <<l>>, RemoveViaLeft(m, l))
ActRemoveViaRight == \E r \in RK : Do("remove_via_right", <<r>>, RemoveViaRight(m, r))
ActSwapLeft == \E o \in LK, n \in LI : Do("swap_left", <<o, n>>, SwapLeft(m, o, n))
ActSwapLeftChecked == \E o \in LK, e \in RK, n \in LI :
    Do("swap_left_checked", <<o, e, n>>, SwapLeftChecked(m, o, e, n))
ActSwapLeftOrInsert == \E o \in LK, n \in LI, r \in RI :
    Do("swap_left_or_insert", <<o, n, r>>, SwapLeftOrInsert(m, o, n, r))
ActSwapRight == \E o \in RK, n \in RI : Do("swap_right", <<o, n>>, SwapRight(m, o, n))
ActSwapRightChecked == \E o \in RK, e \in LK, n \in RI :
    Do("swap_right_checked", <<o, e, n>>, SwapRightChecked(m, o, e, n))
ActSwapRightOrInsert == \E o \in RK, n \in RI, l \in LI :
    Do("swap_right_or_insert", <<o, n, l>>, SwapRightOrInsert(m, o, n, l))
ActClear == Do("clear", <<>>, Clear(m))
ActDrain == \E n \in 0..(Cardinality(Entries(m)) + 1) : Do("drain", <<n>>, Drain(m, n))
ActDrainFilter == \E S \in SUBSET KEs(Entries(m)) : \E n \in 0..(Cardinality(S) + 1) :
    Do("drain_filter", <<S, n>>, DrainFilter(m, S, n))
ActDrainFilterForget == \E S \in SUBSET KEs(Entries(m)) : \E n \in 0..(Cardinality(S) + 1) :
    Do("drain_filter_forget", <<S, n>>, DrainFilterForget(m, S, n))
ActRetain == \E S \in SUBSET KEs(RetainE(m)) : Do("retain", <<S>>, Retain(m, S))
ActRetainPaired == \E S \in SUBSET KEs(PairedE(m)) :
    Do("retain_paired", <<S>>, RetainPaired(m, S))
ActRetainUnpaired == \E S \in SUBSET KEs(UnpairedE(m)) :
    Do("retain_unpaired", <<S>>, RetainUnpaired(m, S))
ActRetainPanic == \E x \in KEs(RetainE(m)) : \E S \in SUBSET (KEs(RetainE(m)) \ {x}) :
    Do("retain_panic", <<S, x>>, RetainPanic(m, S, x))
ActRetainPairedPanic == \E x \in KEs(PairedE(m)) : \E S \in SUBSET (KEs(PairedE(m)) \ {x}) :
    Do("retain_paired_panic", <<S, x>>, RetainPairedPanic(m, S, x))
ActRetainUnpairedPanic == \E x \in KEs(UnpairedE(m)) : \E S \in SUBSET (KEs(UnpairedE(m)) \ {x}) :
    Do("retain_unpaired_panic", <<S, x>>, RetainUnpairedPanic(m, S, x))
ActDrainFilterPanic == \E x \in KEs(Entries(m)) : \E S \in SUBSET (KEs(Entries(m)) \ {x}) :
    Do("drain_filter_panic", <<S, x>>, DrainFilterPanic(m, S, x))
ActExtend == \E s \in PairSeqs : Do("extend", <<s>>, Extend(m, s))
ActExtendOpt == \E s \in OptSeqs : Do("extend_opt", <<s>>, ExtendOpt(m, s))
ActExtendPanic == \E s \in OptSeqs : Do("extend_panic", <<s>>, ExtendPanic(m, s))
ActCollect == \E s \in PairSeqs : Do("collect", <<s>>, Collect(m, s))
ActCollectOpt == \E s \in OptSeqs : Do("collect_opt", <<s>>, CollectOpt(m, s))
ActClone == Do("clone", <<>>, Clone(m))
Sizes == {0, 1, 5, 40}
ActReserveLeft  == \E n \in Sizes : Do("reserve_left", <<n>>, Touch(m))
ActReserveRight == \E n \in Sizes : Do("reserve_right", <<n>>, Touch(m))
ActTryReserveLeft  == \E n \in Sizes : Do("try_reserve_left", <<n>>, Touch(m))
ActTryReserveRight == \E n \in Sizes : Do("try_reserve_right", <<n>>, Touch(m))
ActTryReserveHuge == Do("try_reserve_huge", <<>>, Touch(m))
ActShrinkToLeft  == \E n \in Sizes : Do("shrink_to_left", <<n>>, Touch(m))
ActShrinkToRight == \E n \in Sizes : Do("shrink_to_right", <<n>>, Touch(m))
ActShrinkToFit == Do("shrink_to_fit", <<>>, Touch(m))

Init == m = Empty /\ ev = [op |-> "new", a |-> <<>>, r |-> <<>>]

Next ==
    \/ ActInsert \/ ActInsertLeft \/ ActInsertRight
    \/ ActPair \/ ActUnpair \/ ActPairForced \/ ActPairForcedRemove
    \/ ActRemove \/ ActRemoveLeft \/ ActRemoveRight \/ ActRemoveViaLeft \/ ActRemoveViaRight
    \/ ActSwapLeft \/ ActSwapLeftChecked \/ ActSwapLeftOrInsert
    \/ ActSwapRight \/ ActSwapRightChecked \/ ActSwapRightOrInsert
    \/ ActClear \/ ActDrain \/ ActDrainFilter \/ ActDrainFilterForget
    \/ ActRetain \/ ActRetainPaired \/ ActRetainUnpaired
    \/ ActRetainPanic \/ ActRetainPairedPanic \/ ActRetainUnpairedPanic \/ ActDrainFilterPanic
    \/ ActExtend \/ ActExtendOpt \/ ActExtendPanic \/ ActCollect \/ ActCollectOpt
    \/ ActClone \/ ActReserveLeft \/ ActReserveRight \/ ActTryReserveLeft \/ ActTryReserveRight
    \/ ActTryReserveHuge \/ ActShrinkToLeft \/ ActShrinkToRight \/ ActShrinkToFit

vars == <<m, ev>>
Spec == Init /\ [][Next]_vars
View == m

(***************************************************************************)
(* P01                                                                     *)
(***************************************************************************)
ExclusivePairs ==
    /\ \A x, y \in m.p : (K(x[1]) = K(y[1]) \/ K(x[2]) = K(y[2])) => x = y
    /\ \A x \in m.p : ~\E y \in m.ul : K(y) = K(x[1])
    /\ \A x \in m.p : ~\E y \in m.ur : K(y) = K(x[2])
    /\ \A x, y \in m.ul : K(x) = K(y) => x = y
    /\ \A x, y \in m.ur : K(x) = K(y) => x = y
LookupsAgree ==
    /\ \A l \in LK, r \in RK :
         /\ ArePaired(m, l, r) <=> (GetRight(m, l) # <<>> /\ K(GetRight(m, l)[1]) = r)
         /\ ArePaired(m, l, r) <=> (GetLeft(m, r) # <<>> /\ K(GetLeft(m, r)[1]) = l)
    /\ \A l \in LK : IsLeftPaired(m, l) <=> GetRight(m, l) # <<>>
    /\ \A r \in RK : IsRightPaired(m, r) <=> GetLeft(m, r) # <<>>
    /\ \A l \in LK : IsLeftPaired(m, l) => ContainsLeft(m, l)
    /\ \A r \in RK : IsRightPaired(m, r) => ContainsRight(m, r)
    /\ \A l \in LK : ContainsLeft(m, l) /\ ~IsLeftPaired(m, l)
                        <=> \E e \in UnpairedE(m) : e[1] = "L" /\ K(e[2]) = l
    /\ \A r \in RK : ContainsRight(m, r) /\ ~IsRightPaired(m, r)
                        <=> \E e \in UnpairedE(m) : e[1] = "R" /\ K(e[2]) = r
    /\ LenLeft(m) = Cardinality(Lefts(m)) /\ LenRight(m) = Cardinality(Rights(m))
    /\ Cardinality(Entries(m)) = Cardinality(m.p) + Cardinality(UnpairedE(m))
    /\ IsEmpty(m) <=> (LenLeft(m) = 0 /\ LenRight(m) = 0)
    /\ FromEntries(Entries(m)) = m
    /\ MapEq(m, m) /\ CodeEq(m, m)

(***************************************************************************)
(* Vocabulary for action properties                                        *)
(***************************************************************************)
E0 == Entries(m)
E1 == Entries(m')
Gone == E0 \ E1
Came == E1 \ E0
LKey(e) == {K(x) : x \in EL(e)}
RKey(e) == {K(x) : x \in ER(e)}
\* entries touching none of the given keys are the same before and after
Frame(Ls, Rs) ==
    \A e \in Gone \cup Came : LKey(e) \cap Ls # {} \/ RKey(e) \cap Rs # {}
Is(op) == ev'.op = op
A(i) == ev'.a[i]
R == ev'.r
Nothing(res) == m' = m /\ R = res
LeftOf(op)  == IF op[1] \in {"L", "B"} THEN {op[2]} ELSE {}
RightOf(op) == IF op[1] = "B" THEN {op[3]} ELSE IF op[1] = "R" THEN {op[2]} ELSE {}
\* an OptionalPair read as an optional entry
AsSet(op) == IF op = Neither THEN {} ELSE {op}
HoldL(k) == {e \in E0 : k \in LKey(e)}
HoldR(k) == {e \in E0 : k \in RKey(e)}

P02 ==
    /\ Is("insert") =>
         /\ SomeBoth(A(1), A(2)) \in E1
         /\ Frame({K(A(1))}, {K(A(2))})
         /\ AsSet(R[1]) = HoldL(K(A(1)))
         /\ AsSet(R[2]) = HoldR(K(A(2))) \ HoldL(K(A(1)))
         /\ Cardinality(E1) = 1 + Cardinality(E0 \ (HoldL(K(A(1))) \cup HoldR(K(A(2)))))
    /\ Is("insert_left") =>
         /\ SomeLeft(A(1)) \in E1 /\ Frame({K(A(1))}, {}) /\ AsSet(R) = HoldL(K(A(1)))
         /\ Cardinality(E1) = 1 + Cardinality(E0 \ HoldL(K(A(1))))
    /\ Is("insert_right") =>
         /\ SomeRight(A(1)) \in E1 /\ Frame({}, {K(A(1))}) /\ AsSet(R) = HoldR(K(A(1)))
         /\ Cardinality(E1) = 1 + Cardinality(E0 \ HoldR(K(A(1))))

SameItems == Lefts(m') = Lefts(m) /\ Rights(m') = Rights(m)
OtherPairs(l, r) == {x \in m.p : K(x[1]) # l /\ K(x[2]) # r}
P03 ==
    /\ Is("pair") =>
         /\ SameItems
         /\ R <=> (\E x \in m.ul : K(x) = A(1)) /\ (\E y \in m.ur : K(y) = A(2))
         /\ IF R THEN ArePaired(m', A(1), A(2)) /\ m'.p \ m.p = PairsL(m', A(1)) /\ m.p \subseteq m'.p
            ELSE m' = m
    /\ Is("unpair") =>
         /\ SameItems
         /\ R <=> ArePaired(m, A(1), A(2))
         /\ IF R THEN m.p \ m'.p = PairsL(m, A(1)) /\ m'.p \subseteq m.p
                      /\ ~IsLeftPaired(m', A(1)) /\ ~IsRightPaired(m', A(2))
            ELSE m' = m
    /\ Is("pair_forced") =>
         IF ArePaired(m, A(1), A(2)) \/ ~ContainsLeft(m, A(1)) \/ ~ContainsRight(m, A(2))
         THEN Nothing(Neither)
         ELSE /\ SameItems /\ ArePaired(m', A(1), A(2))
              /\ m'.p \ PairsL(m', A(1)) = OtherPairs(A(1), A(2))
              /\ LeftOf(R) = {x[1] : x \in PairsR(m, A(2))}
              /\ RightOf(R) = {x[2] : x \in PairsL(m, A(1))}
              /\ LeftOf(R) \subseteq m'.ul /\ RightOf(R) \subseteq m'.ur
    /\ Is("pair_forced_remove") =>
         IF ArePaired(m, A(1), A(2)) \/ ~ContainsLeft(m, A(1)) \/ ~ContainsRight(m, A(2))
         THEN Nothing(Neither)
         ELSE /\ ArePaired(m', A(1), A(2))
              /\ m'.p \ PairsL(m', A(1)) = OtherPairs(A(1), A(2))
              /\ LeftOf(R) = {x[1] : x \in PairsR(m, A(2))}
              /\ RightOf(R) = {x[2] : x \in PairsL(m, A(1))}
              /\ Lefts(m') = Lefts(m) \ LeftOf(R) /\ Rights(m') = Rights(m) \ RightOf(R)

P04 ==
    /\ Is("remove_left") =>
         /\ R = Opt(LeftAt(m, A(1))) /\ Lefts(m') = Lefts(m) \ LeftAt(m, A(1))
         /\ Rights(m') = Rights(m) /\ m'.p = m.p \ PairsL(m, A(1))
    /\ Is("remove_right") =>
         /\ R = Opt(RightAt(m, A(1))) /\ Rights(m') = Rights(m) \ RightAt(m, A(1))
         /\ Lefts(m') = Lefts(m) /\ m'.p = m.p \ PairsR(m, A(1))
    /\ Is("remove_via_left") => Came = {} /\ Gone = HoldL(A(1)) /\ AsSet(R) = Gone
    /\ Is("remove_via_right") => Came = {} /\ Gone = HoldR(A(1)) /\ AsSet(R) = Gone
    /\ Is("remove") =>
         /\ Came = {} /\ Gone = HoldL(A(1)) \cap HoldR(A(2))
         /\ R = Opt({<<e[2], e[3]>> : e \in Gone})

SwappedLeft(ok, n) ==
    LET e == Only(HoldL(ok))
    IN  /\ Frame({ok, K(n)}, {})
        /\ \E f \in E1 : EL(f) = {n} /\ ER(f) = ER(e)
        /\ LeftOf(R) = EL(e)
        /\ RightOf(R) = (IF K(n) = ok THEN {} ELSE HoldL(K(n)))
        /\ K(n) # ok => ~ContainsLeft(m', ok)
        /\ Cardinality(E1) = Cardinality(E0) - Cardinality(RightOf(R))
SwappedRight(ok, n) ==
    LET e == Only(HoldR(ok))
    IN  /\ Frame({}, {ok, K(n)})
        /\ \E f \in E1 : ER(f) = {n} /\ EL(f) = EL(e)
        /\ LeftOf(R) = ER(e)
        /\ RightOf(R) = (IF K(n) = ok THEN {} ELSE HoldR(K(n)))
        /\ K(n) # ok => ~ContainsRight(m', ok)
        /\ Cardinality(E1) = Cardinality(E0) - Cardinality(RightOf(R))
P05 ==
    /\ Is("swap_left") =>
         IF ContainsLeft(m, A(1)) THEN SwappedLeft(A(1), A(2)) ELSE Nothing(Neither)
    /\ Is("swap_right") =>
         IF ContainsRight(m, A(1)) THEN SwappedRight(A(1), A(2)) ELSE Nothing(Neither)
    /\ Is("swap_left_checked") =>
         IF ArePaired(m, A(1), A(2)) THEN SwappedLeft(A(1), A(3)) ELSE Nothing(Neither)
    /\ Is("swap_right_checked") =>
         IF ArePaired(m, A(2), A(1)) THEN SwappedRight(A(1), A(3)) ELSE Nothing(Neither)
    /\ Is("swap_left_or_insert") =>
         IF ContainsLeft(m, A(1)) THEN SwappedLeft(A(1), A(2))
         ELSE LET c == HoldL(K(A(2))) \cup HoldR(K(A(3)))
              IN  /\ \E o \in Insert(m, A(2), A(3)) : m' = o.m
                  /\ c = {} => R = Neither
                  /\ Cardinality(c) = 1 => R = SomeRight(Only(c))
                  /\ Cardinality(c) = 2 => LeftOf(R) = LeftAt(m, K(A(2))) /\ RightOf(R) = HoldR(K(A(3)))
    /\ Is("swap_right_or_insert") =>
         IF ContainsRight(m, A(1)) THEN SwappedRight(A(1), A(2))
         ELSE LET c == HoldL(K(A(3))) \cup HoldR(K(A(2)))
              IN  /\ \E o \in Insert(m, A(3), A(2)) : m' = o.m
                  /\ c = {} => R = Neither
                  /\ Cardinality(c) = 1 => R = SomeRight(Only(c))
                  /\ Cardinality(c) = 2 => LeftOf(R) = RightAt(m, K(A(2))) /\ RightOf(R) = HoldL(K(A(3)))

\* left and right operations are mirror images of each other
MirrorEntry(e) == CASE e[1] = "B" -> <<"B", e[3], e[2]>>
                    [] e[1] = "L" -> <<"R", e[2]>>
                    [] e[1] = "R" -> <<"L", e[2]>>
                    [] OTHER -> e
MirrorSwapResult(r) ==
    IF r[1] = "R" THEN <<"R", MirrorEntry(r[2])>>
    ELSE IF r[1] = "B" THEN <<"B", r[2], MirrorEntry(r[3])>> ELSE r
MirrorStep(outs, f(_)) == \E o \in outs : Mirror(m') = o.m /\ f(R) = o.r
MirrorLaw ==
    /\ Is("swap_left") => MirrorStep(SwapRight(Mirror(m), A(1), A(2)), MirrorSwapResult)
    /\ Is("swap_left_checked") =>
         MirrorStep(SwapRightChecked(Mirror(m), A(1), A(2), A(3)), MirrorSwapResult)
    /\ Is("swap_left_or_insert") =>
         MirrorStep(SwapRightOrInsert(Mirror(m), A(1), A(2), A(3)), MirrorSwapResult)
    /\ Is("insert_left") => MirrorStep(InsertRight(Mirror(m), A(1)), MirrorEntry)
    /\ Is("remove_via_left") => MirrorStep(RemoveViaRight(Mirror(m), A(1)), MirrorEntry)
    /\ Is("remove_left") => MirrorStep(RemoveRight(Mirror(m), A(1)), LAMBDA r : r)
    /\ Is("pair_forced") => MirrorStep(PairForced(Mirror(m), A(2), A(1)), MirrorEntry)
    /\ Is("pair_forced_remove") => MirrorStep(PairForcedRemove(Mirror(m), A(2), A(1)), MirrorEntry)
    /\ Is("unpair") => MirrorStep(Unpair(Mirror(m), A(2), A(1)), LAMBDA r : r)
    /\ Is("pair") => MirrorStep(Pair(Mirror(m), A(2), A(1)), LAMBDA r : r)

Visit == {e \in E0 : e[1] # "R"}
P06 ==
    /\ Is("drain") => m' = Empty /\ R \subseteq E0 /\ (A(1) >= Cardinality(E0) => R = E0)
    /\ Is("drain_filter") =>
         /\ Came = {} /\ \A e \in E0 : (e \in Gone) <=> (KE(e) \in A(1))
         /\ R[1] \subseteq Gone /\ R[2] = E0
         /\ A(2) >= Cardinality(Gone) => R[1] = Gone
    /\ Is("retain") => Came = {} /\ R = Visit /\ Gone = {e \in Visit : KE(e) \in A(1)}
    /\ Is("retain_paired") =>
         /\ Came = {} /\ R = m.p /\ Gone = {e \in E0 : e[1] = "B" /\ KE(e) \in A(1)}
    /\ Is("retain_unpaired") =>
         /\ Came = {} /\ R = {e \in E0 : e[1] # "B"}
         /\ Gone = {e \in E0 : e[1] # "B" /\ KE(e) \in A(1)}
    /\ Is("clear") => m' = Empty

X08 ==
    /\ ev'.op \in {"retain_panic", "retain_paired_panic", "retain_unpaired_panic",
                   "drain_filter_panic"} =>
         Came = {} /\ \A e \in Gone : KE(e) \in A(1) /\ KE(e) # A(2)
    /\ Is("retain_paired_panic") => \A e \in Gone : e[1] = "B"
    /\ Is("retain_unpaired_panic") => \A e \in Gone : e[1] # "B"
    /\ Is("drain_filter_forget") => Came = {} /\ Gone = R /\ \A e \in Gone : KE(e) \in A(1)

X05 == Is("clone") => m' = m
CapacityOps == {"reserve_left", "reserve_right", "try_reserve_left", "try_reserve_right",
    "try_reserve_huge", "shrink_to_left", "shrink_to_right", "shrink_to_fit"}
X09 == ev'.op \in CapacityOps => m' = m

(***************************************************************************)
(* X02 on the states of the model: == is an equivalence that separates     *)
(* different contents.  CodeEq is the known finding; it is at least        *)
(* reflexive and accepts equal contents.                                   *)
(***************************************************************************)

(***************************************************************************)
(* X04                                                                     *)
(***************************************************************************)
N(b) == IF b THEN 1 ELSE 0
CountIn(mm, i) == N(i \in Lefts(mm)) + N(i \in Rights(mm))
InEnt(e, i) == CASE e[1] = "B" -> N(e[2] = i) + N(e[3] = i)
                 [] e[1] = "N" -> 0
                 [] OTHER -> N(e[2] = i)
RECURSIVE CountSet(_, _)
CountSet(S, i) == IF S = {} THEN 0
                  ELSE LET x == CHOOSE x \in S : TRUE IN InEnt(x, i) + CountSet(S \ {x}, i)
RECURSIVE CountSeq(_, _)
CountSeq(s, i) == IF s = <<>> THEN 0 ELSE InEnt(Head(s), i) + CountSeq(Tail(s), i)
RECURSIVE CountPairSeq(_, _)
CountPairSeq(s, i) ==
    IF s = <<>> THEN 0 ELSE N(Head(s)[1] = i) + N(Head(s)[2] = i) + CountPairSeq(Tail(s), i)
Passed(i) ==
    CASE Is("insert") -> N(A(1) = i) + N(A(2) = i)
      [] ev'.op \in {"insert_left", "insert_right"} -> N(A(1) = i)
      [] ev'.op \in {"swap_left", "swap_right"} -> N(A(2) = i)
      [] ev'.op \in {"swap_left_checked", "swap_right_checked"} -> N(A(3) = i)
      [] ev'.op \in {"swap_left_or_insert", "swap_right_or_insert"} -> N(A(2) = i) + N(A(3) = i)
      [] ev'.op \in {"extend", "collect"} -> CountPairSeq(A(1), i)
      [] ev'.op \in {"extend_opt", "extend_panic", "collect_opt"} -> CountSeq(A(1), i)
      [] OTHER -> 0
Swaps == {"swap_left", "swap_right", "swap_left_checked", "swap_right_checked"}
Returned(i) ==
    CASE Is("insert") -> InEnt(R[1], i) + InEnt(R[2], i)
      [] ev'.op \in {"insert_left", "insert_right", "remove_via_left", "remove_via_right",
                     "pair_forced_remove"} -> InEnt(R, i)
      [] ev'.op \in {"remove_left", "remove_right"} -> N(R = <<i>>)
      [] Is("remove") -> CountPairSeq(R, i)
      [] ev'.op \in Swaps \cup {"swap_left_or_insert", "swap_right_or_insert"} ->
            CountSet(RightOf(R), i) + N(LeftOf(R) = {i})
      [] ev'.op \in {"drain", "drain_filter_forget"} -> CountSet(R, i)
      [] Is("drain_filter") -> CountSet(R[1], i)
      [] OTHER -> 0
Items == LI \cup RI
Before(i) == CountIn(m, i) + Passed(i)
After(i)  == CountIn(m', i) + Returned(i)
NoDuplication == \A i \in Items : After(i) <= Before(i)
Lossless == {"insert", "insert_left", "insert_right", "remove", "remove_left", "remove_right",
             "remove_via_left", "remove_via_right", "pair", "unpair", "pair_forced",
             "pair_forced_remove", "drain_filter_forget", "clone"} \cup CapacityOps \cup Swaps
Refused == ev'.op \in Swaps /\ R = Neither
X04 == /\ NoDuplication
       /\ (ev'.op \in Lossless /\ ~Refused) => \A i \in Items : After(i) = Before(i)

\* the ways around folding agree with it
Shortcuts ==
    /\ \A s \in PairSeqs : AllNew(m, s) => AddAll(m, s) = FoldOps(InsertPair, m, s)
    /\ \A s \in OptSeqs : AllNewEntries(m, s) => AddEntries(m, s) = FoldOps(InsertOpt, m, s)

Inv == ExclusivePairs /\ LookupsAgree /\ Legal(m) /\ Shortcuts
PropP02 == [][P02]_vars
PropP03 == [][P03]_vars
PropP04 == [][P04]_vars
PropP05 == [][P05 /\ MirrorLaw]_vars
PropP06 == [][P06]_vars
PropX04 == [][X04]_vars
PropX05 == [][X05]_vars
PropX08 == [][X08]_vars
PropX09 == [][X09]_vars
\* the predicates used by trace validation accept every step of the machine
PropAllowed == [][/\ Allowed(m, ev'.op, ev'.a, ev'.r, m')
                  /\ AllowedM(m, ev'.op, ev'.a, m')
                  /\ Expected(m, ev'.op, ev'.a) \in {{}, {m'}}]_vars
=============================================================================
