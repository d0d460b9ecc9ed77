----------------------------- MODULE GroupMapSM ------------------------------
(***************************************************************************)
(* The state machine of a GroupMap and its properties.  See CycleMapSM for *)
(* the conventions.                                                        *)
(***************************************************************************)
EXTENDS GroupMap

CONSTANTS NL, NR, NT, SeqLen

VARIABLES m, ev

LK == 1..NL
RK == 1..NR
Tags == 0..(NT - 1)
LI == LK \X Tags
RI == RK \X Tags
PairSeqs == SeqsUpTo(LI \X RI, SeqLen)
OptPairs == {<< <<>>, r>> : r \in RI} \cup {<< <<l>>, r>> : l \in LI, r \in RI}
OptSeqs == SeqsUpTo(OptPairs, SeqLen)
KPs == {KP(x) : x \in m.p}
KUr == {K(x) : x \in m.ur}

Do(op, a, outs) == \E o \in outs : m' = o.m /\ ev' = [op |-> op, a |-> a, r |-> o.r]

ActInsert == \E l \in LI, r \in RI : Do("insert", <<l, r>>, Insert(m, l, r))
ActInsertLeft == \E l \in LI, r \in RK : Do("insert_left", <<l, r>>, InsertLeft(m, l, r))
ActInsertRight == \E r \in RI : Do("insert_right", <<r>>, InsertRight(m, r))
ActInsertRemove == \E l \in LI, r \in RI : Do("insert_remove", <<l, r>>, InsertRemove(m, l, r))
ActPair == \E l \in LK, r \in RK : Do("pair", <<l, r>>, Pair(m, l, r))
ActSwapRight == \E o \in RK, n \in RI : Do("swap_right", <<o, n>>, SwapRight(m, o, n))
ActSwapRightRemove == \E o \in RK, n \in RI :
    Do("swap_right_remove", <<o, n>>, SwapRightRemove(m, o, n))
ActRemove == \E l \in LK, r \in RK : Do("remove", <<l, r>>, Remove(m, l, r))
ActRemoveLeft  == \E l \in LK : Do("remove_left", <<l>>, RemoveLeft(m, l))
ActRemoveRight == \E r \in RK : Do("remove_right", <<r>>, RemoveRight(m, r))
ActClear == Do("clear", <<>>, Clear(m))
ActRetainPaired == \E S \in SUBSET KPs : Do("retain_paired", <<S>>, RetainPaired(m, S))
ActRetainUnpaired == \E S \in SUBSET KUr : Do("retain_unpaired", <<S>>, RetainUnpaired(m, S))
ActRetainPairedPanic == \E x \in KPs : \E S \in SUBSET (KPs \ {x}) :
    Do("retain_paired_panic", <<S, x>>, RetainPairedPanic(m, S, x))
ActRetainUnpairedPanic == \E x \in KUr : \E S \in SUBSET (KUr \ {x}) :
    Do("retain_unpaired_panic", <<S, x>>, RetainUnpairedPanic(m, S, x))
ActExtend == \E s \in PairSeqs : Do("extend", <<s>>, Extend(m, s))
ActExtendOpt == \E s \in OptSeqs : Do("extend_opt", <<s>>, ExtendOpt(m, s))
ActExtendPanic == \E s \in OptSeqs : Do("extend_panic", <<s>>, ExtendPanic(m, s))
ActCollect == \E s \in PairSeqs : Do("collect", <<s>>, Collect(m, s))
ActCollectOpt == \E s \in OptSeqs : Do("collect_opt", <<s>>, CollectOpt(m, s))
ActClone == Do("clone", <<>>, Clone(m))

Init == m = Empty /\ ev = [op |-> "new", a |-> <<>>, r |-> <<>>]

Next ==
    \/ ActInsert \/ ActInsertLeft \/ ActInsertRight \/ ActInsertRemove
    \/ ActPair \/ ActSwapRight \/ ActSwapRightRemove
    \/ ActRemove \/ ActRemoveLeft \/ ActRemoveRight \/ ActClear
    \/ ActRetainPaired \/ ActRetainUnpaired \/ ActRetainPairedPanic \/ ActRetainUnpairedPanic
    \/ ActExtend \/ ActExtendOpt \/ ActExtendPanic \/ ActCollect \/ ActCollectOpt
    \/ ActClone

vars == <<m, ev>>
Spec == Init /\ [][Next]_vars
View == m

\* Does a step go through the known defect of insert?  (Marked in the exported table.)
KnownFinding(op, a) ==
    CASE op = "insert" -> Reinserts(m, <<a[1], a[2]>>)
      [] op = "extend" -> SeqReinserts(m, a[1])
      [] op = "collect" -> SeqReinserts(Empty, a[1])
      [] op \in {"extend_opt", "extend_panic"} -> SeqOptReinserts(m, a[1])
      [] op = "collect_opt" -> SeqOptReinserts(Empty, a[1])
      [] OTHER -> FALSE

(***************************************************************************)
(* G01                                                                     *)
(***************************************************************************)
Grouping ==
    /\ \A x, y \in m.p : K(x[1]) = K(y[1]) => x = y
    /\ \A x, y \in Rights(m) : K(x) = K(y) => x = y
    /\ m.ul = {}
LookupsAgree ==
    /\ \A l \in LK, r \in RK :
         /\ ArePaired(m, l, r) <=> (GetRight(m, l) # <<>> /\ K(GetRight(m, l)[1]) = r)
         /\ ArePaired(m, l, r) <=> (GetLeftIter(m, r) # <<>> /\ \E x \in GetLeftIter(m, r)[1] : K(x) = l)
    /\ \A l \in LK : ContainsLeft(m, l) <=> GetRight(m, l) # <<>>
    /\ \A r \in RK : ContainsRight(m, r) <=> GetLeftIter(m, r) # <<>>
    /\ \A r \in RK : IsRightPaired(m, r) <=> (GetLeftIter(m, r) # <<>> /\ GetLeftIter(m, r)[1] # {})
    /\ LenLeft(m) = Cardinality(Lefts(m)) /\ LenRight(m) = Cardinality(Rights(m))
    /\ Cardinality(Iter(m)) = Cardinality(m.p) + Cardinality(m.ur)
    /\ IsEmpty(m) <=> (LenLeft(m) = 0 /\ LenRight(m) = 0)

(***************************************************************************)
(* Action properties                                                       *)
(***************************************************************************)
Is(op) == ev'.op = op
A(i) == ev'.a[i]
R == ev'.r
Nothing(res) == m' = m /\ R = res
\* who is grouped under a right key, by key
Mem(mm, r) == {K(x) : x \in Members(mm, r)}
\* groups of all other right items are unchanged, except that members in Ls may leave or join
FrameR(Rs, Ls) ==
    /\ \A r \in RK \ Rs : RightAt(m', r) = RightAt(m, r)
    /\ \A r \in RK \ Rs : {x \in Members(m', r) : K(x) \notin Ls} = {x \in Members(m, r) : K(x) \notin Ls}

G02 ==
    /\ Is("insert") =>
         /\ ArePaired(m', K(A(1)), K(A(2)))
         /\ FrameR({K(A(2))}, {K(A(1))})
         /\ RightAt(m', K(A(2))) = IF ContainsRight(m, K(A(2))) THEN RightAt(m, K(A(2))) ELSE {A(2)}
         /\ LeftAt(m', K(A(1))) = IF ContainsLeft(m, K(A(1))) THEN LeftAt(m, K(A(1))) ELSE {A(1)}
         /\ Mem(m', K(A(2))) = Mem(m, K(A(2))) \cup {K(A(1))}
    /\ Is("insert_left") =>
         IF ~ContainsRight(m, A(2)) THEN Nothing(<<>>)
         ELSE /\ Rights(m') = Rights(m) /\ R = Opt(LeftAt(m, K(A(1))))
              /\ LeftAt(m', K(A(1))) = {A(1)} /\ ArePaired(m', K(A(1)), A(2))
              /\ {x \in m'.p : K(x[1]) # K(A(1))} = {x \in m.p : K(x[1]) # K(A(1))}
    /\ Is("insert_right") =>
         /\ RightAt(m', K(A(1))) = {A(1)} /\ ~IsRightPaired(m', K(A(1)))
         /\ FrameR({K(A(1))}, {}) /\ Lefts(m') = Lefts(m) \ Members(m, K(A(1)))
         /\ R = Group(m, RightAt(m, K(A(1))))
    /\ Is("insert_remove") =>
         /\ RightAt(m', K(A(2))) = {A(2)} /\ Members(m', K(A(2))) = {A(1)}
         /\ FrameR({K(A(2))}, {K(A(1))})
         /\ R[1] = Opt(LeftAt(m, K(A(1))))
         /\ IF ContainsRight(m, K(A(2)))
            THEN /\ {R[2][2]} = RightAt(m, K(A(2)))
                 /\ R[2][1] = {x \in Members(m, K(A(2))) : K(x) # K(A(1))}
            ELSE R[2] = <<>>

G03 ==
    /\ Is("pair") =>
         /\ R <=> (ContainsLeft(m, A(1)) /\ ContainsRight(m, A(2)))
         /\ Lefts(m') = Lefts(m) /\ Rights(m') = Rights(m)
         /\ IF R THEN /\ ArePaired(m', A(1), A(2))
                      /\ {x \in m'.p : K(x[1]) # A(1)} = {x \in m.p : K(x[1]) # A(1)}
            ELSE m' = m
    /\ ev'.op \in {"swap_right", "swap_right_remove"} /\ ~ContainsRight(m, A(1)) =>
         /\ \E o \in InsertRight(m, A(2)) : m' = o.m
         /\ R = <<>>
    /\ Is("swap_right") /\ ContainsRight(m, A(1)) =>
         IF K(A(2)) = A(1) THEN m' = m
         ELSE /\ Members(m', K(A(2))) = Members(m, A(1)) /\ RightAt(m', K(A(2))) = {A(2)}
              /\ RightAt(m', A(1)) = RightAt(m, A(1)) /\ ~IsRightPaired(m', A(1))
              /\ FrameR({A(1), K(A(2))}, {})
              /\ Lefts(m') = Lefts(m) \ Members(m, K(A(2)))
    /\ Is("swap_right_remove") /\ ContainsRight(m, A(1)) =>
         /\ R = Opt(RightAt(m, A(1)))
         /\ Members(m', K(A(2))) = Members(m, A(1)) /\ RightAt(m', K(A(2))) = {A(2)}
         /\ K(A(2)) # A(1) => ~ContainsRight(m', A(1))
         /\ FrameR({A(1), K(A(2))}, {})
         /\ Lefts(m') = Lefts(m) \ (IF K(A(2)) = A(1) THEN {} ELSE Members(m, K(A(2))))

G04 ==
    /\ Is("remove_left") =>
         /\ R = Opt(LeftAt(m, A(1))) /\ Rights(m') = Rights(m)
         /\ m'.p = {x \in m.p : K(x[1]) # A(1)}
    /\ Is("remove_right") =>
         /\ R = Group(m, RightAt(m, A(1))) /\ FrameR({A(1)}, {}) /\ ~ContainsRight(m', A(1))
         /\ Lefts(m') = Lefts(m) \ Members(m, A(1))
    /\ Is("remove") =>
         IF ArePaired(m, A(1), A(2))
         THEN /\ R = Group(m, RightAt(m, A(2))) /\ FrameR({A(2)}, {}) /\ ~ContainsRight(m', A(2))
              /\ Lefts(m') = Lefts(m) \ Members(m, A(2))
         ELSE Nothing(<<>>)

G05 ==
    /\ Is("retain_paired") =>
         /\ R = m.p /\ Rights(m') = Rights(m) /\ m'.p = {x \in m.p : KP(x) \notin A(1)}
    /\ Is("retain_unpaired") =>
         /\ R = m.ur /\ m'.p = m.p /\ m'.ur = {x \in m.ur : K(x) \notin A(1)}
    /\ Is("clear") => m' = Empty

X08 ==
    /\ Is("retain_paired_panic") =>
         /\ Rights(m') = Rights(m) /\ m'.p \subseteq m.p
         /\ \A x \in m.p \ m'.p : KP(x) \in A(1) /\ KP(x) # A(2)
    /\ Is("retain_unpaired_panic") =>
         /\ m'.p = m.p /\ m'.ur \subseteq m.ur
         /\ \A x \in m.ur \ m'.ur : K(x) \in A(1) /\ K(x) # A(2)

X05 == Is("clone") => m' = m

(***************************************************************************)
(* X04                                                                     *)
(***************************************************************************)
N(b) == IF b THEN 1 ELSE 0
CountIn(mm, i) == N(i \in Lefts(mm)) + N(i \in Rights(mm))
RECURSIVE CountPairSeq(_, _)
CountPairSeq(s, i) ==
    IF s = <<>> THEN 0 ELSE N(Head(s)[1] = i) + N(Head(s)[2] = i) + CountPairSeq(Tail(s), i)
RECURSIVE CountOptSeq(_, _)
CountOptSeq(s, i) ==
    IF s = <<>> THEN 0 ELSE N(Head(s)[1] = <<i>>) + N(Head(s)[2] = i) + CountOptSeq(Tail(s), i)
InGroup(g, i) == IF g = <<>> THEN 0 ELSE N(i \in g[1]) + N(g[2] = i)
Passed(i) ==
    CASE ev'.op \in {"insert", "insert_remove"} -> N(A(1) = i) + N(A(2) = i)
      [] ev'.op \in {"insert_left", "insert_right"} -> N(A(1) = i)
      [] ev'.op \in {"swap_right", "swap_right_remove"} -> N(A(2) = i)
      [] ev'.op \in {"extend", "collect"} -> CountPairSeq(A(1), i)
      [] ev'.op \in {"extend_opt", "extend_panic", "collect_opt"} -> CountOptSeq(A(1), i)
      [] OTHER -> 0
Returned(i) ==
    CASE ev'.op \in {"insert_left", "remove_left", "swap_right_remove"} -> N(R = <<i>>)
      [] ev'.op \in {"insert_right", "remove", "remove_right"} -> InGroup(R, i)
      [] Is("insert_remove") -> N(R[1] = <<i>>) + InGroup(R[2], i)
      [] OTHER -> 0
Items == LI \cup RI
Before(i) == CountIn(m, i) + Passed(i)
After(i)  == CountIn(m', i) + Returned(i)
NoDuplication == \A i \in Items : After(i) <= Before(i)
Lossless == {"insert_right", "insert_remove", "pair", "remove", "remove_left", "remove_right", "clone"}
X04 == /\ NoDuplication
       /\ ev'.op \in Lossless => \A i \in Items : After(i) = Before(i)

\* the ways around folding agree with it
Shortcuts ==
    /\ \A s \in PairSeqs : AllNew(m, s) => AddAll(m, s) = FoldOps(InsertPair, m, s)
    /\ \A s \in PairSeqs : AllJoin(m, s) =>
         JoinAll(m, s) = FoldOps(InsertPair, m, s) /\ \A j \in DOMAIN s : ~ContainsLeft(m, K(s[j][1]))
    /\ \A s \in OptSeqs : AllRights(m, s) => AddRights(m, s) = FoldOps(InsertOpt, m, s)

Inv == Grouping /\ LookupsAgree /\ Legal(m) /\ Shortcuts
PropG02 == [][G02]_vars
PropG03 == [][G03]_vars
PropG04 == [][G04]_vars
PropG05 == [][G05]_vars
PropX04 == [][X04]_vars
PropX05 == [][X05]_vars
PropX08 == [][X08]_vars
\* the predicates used by trace validation accept every step of the machine
PropAllowed == [][/\ Allowed(m, ev'.op, ev'.a, ev'.r, m')
                  /\ AllowedM(m, ev'.op, ev'.a, m')
                  /\ Expected(m, ev'.op, ev'.a) \in {{}, {m'}}]_vars
=============================================================================
