---------------------------- MODULE HashTableSM ------------------------------
(***************************************************************************)
(* Two such tables, the sides of a map, under all calls that concern their *)
(* sizes.  Shows that the rules of Capacity.tla can be kept: they hold for *)
(* either side by itself (PartialCycleMap, GroupMap), and, where both      *)
(* sides are always called alike, for the smaller of the two capacities    *)
(* (CycleMap), whatever the hash functions are.                            *)
(***************************************************************************)
EXTENDS HashTable, Capacity

CONSTANTS MaxLen, Amounts

VARIABLES l, r,      \* the sides
          paired,    \* are they always called alike?
          ev         \* the last call: its rules, and per side fresh and moved

vars == <<l, r, paired, ev>>

Ev(rl, rr, ml, mr) == [rules |-> <<rl, rr>>, moved |-> <<ml, mr>>]
Both(rule, x, y) == l' = x[1] /\ r' = y[1] /\ ev' = Ev(rule, rule, x[2], y[2])
Left(rule, x)  == l' = x[1] /\ r' = r /\ ev' = Ev(rule, <<"same">>, x[2], FALSE)
Right(rule, x) == r' = x[1] /\ l' = l /\ ev' = Ev(<<"same">>, rule, FALSE, x[2])

Init == /\ paired \in BOOLEAN
        /\ \E c \in Amounts : l = With(c) /\ r = With(c)
        /\ ev = Ev(<<"any">>, <<"any">>, FALSE, FALSE)

\* one item on each side, that was not there
Put == /\ l.n < MaxLen /\ r.n < MaxLen
       /\ \E x \in Insert(l), y \in Insert(r) : Both(<<"insert", 1>>, x, y)
PutLeft  == ~paired /\ l.n < MaxLen /\ \E x \in Insert(l) : Left(<<"insert", 1>>, x)
PutRight == ~paired /\ r.n < MaxLen /\ \E x \in Insert(r) : Right(<<"insert", 1>>, x)
\* an item that replaces another
Exchange == \E x \in Remove(l) : \E x2 \in Insert(x[1]) : \E y \in Remove(r) : \E y2 \in Insert(y[1]) :
                Both(<<"insert", 1>>, x2, y2)
Swap == \E x \in Remove(l) : \E x2 \in Insert(x[1]) :
            /\ l' = x2[1] /\ r' = r /\ ev' = Ev(<<"any">>, <<"any">>, x2[2], FALSE)
SwapRight == \E x \in Remove(r) : \E x2 \in Insert(x[1]) :
            /\ r' = x2[1] /\ l' = l /\ ev' = Ev(<<"any">>, <<"any">>, FALSE, x2[2])
Take == \E x \in Remove(l), y \in Remove(r) : Both(<<"any">>, x, y)
TakeLeft  == ~paired /\ \E x \in Remove(l) : Left(<<"any">>, x)
TakeRight == ~paired /\ \E x \in Remove(r) : Right(<<"any">>, x)
ReserveBoth == \E k \in Amounts : Both(<<"reserve", k>>, Reserve(l, k), Reserve(r, k))
ReserveLeft == ~paired /\ \E k \in Amounts : Left(<<"reserve", k>>, Reserve(l, k))
ShrinkBoth == \E k \in Amounts : Both(<<"shrink", k>>, Shrink(l, k), Shrink(r, k))
ShrinkRight == ~paired /\ \E k \in Amounts : Right(<<"shrink", k>>, Shrink(r, k))
ClearBoth == Both(<<"keep">>, Clear(l), Clear(r))

Next == (Put \/ PutLeft \/ PutRight \/ Exchange \/ Swap \/ SwapRight \/ Take \/ TakeLeft \/ TakeRight
         \/ ReserveBoth \/ ReserveLeft \/ ShrinkBoth \/ ShrinkRight \/ ClearBoth) /\ UNCHANGED paired
Spec == Init /\ [][Next]_vars

Small == l.b <= 64 /\ r.b <= 64
SizesLegal == Legal(l) /\ Legal(r) /\ (paired => l.n = r.n)
LOCAL Smaller(a, b) == IF a < b THEN a ELSE b
Fresh(rule, n) == IF rule[1] = "shrink" THEN Cap(With(ShrinkTo(rule[2], n))) ELSE 0
Sides == [][
    /\ RuleOK(ev'.rules[1], Cap(l), l.n, Cap(l'), l'.n, Fresh(ev'.rules[1], l.n), ev'.moved[1])
    /\ RuleOK(ev'.rules[2], Cap(r), r.n, Cap(r'), r'.n, Fresh(ev'.rules[2], r.n), ev'.moved[2])]_vars
Smallest == [][paired =>
    RuleOK(ev'.rules[1], Smaller(Cap(l), Cap(r)), l.n, Smaller(Cap(l'), Cap(r')), l'.n,
           Fresh(ev'.rules[1], l.n), ev'.moved[1] \/ ev'.moved[2])]_vars
\* what CycleMap::capacity once told: the left side's capacity, as if it were both's.  This does
\* not hold (spec/mc/HashTableLeft.cfg shows it)
LeftForBoth == [][paired =>
    RuleOK(ev'.rules[1], Cap(l), l.n, Cap(l'), l'.n, Fresh(ev'.rules[1], l.n), ev'.moved[1] \/ ev'.moved[2])]_vars
=============================================================================
