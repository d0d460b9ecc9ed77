----------------------------- MODULE OptionalPair ----------------------------
(***************************************************************************)
(* OptionalPair<L, R> is a pair of Options.  The abstract value of an      *)
(* OptionalPair is [l |-> option, r |-> option] with options as tuples     *)
(* <<>> or <<x>>; the four variants are only a way of writing it down.     *)
(* The state machine applies the value-to-value operations in any order    *)
(* (all their compositions); the observers are functions of the state.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT NV                      \* number of values a side can have
VARIABLES v, ev

Vals == 1..NV
Opts == {<<>>} \cup {<<x>> : x \in Vals}
Values == [l : Opts, r : Opts]

F(x) == (x % NV) + 1             \* the closure given for the left side
G(x) == ((x + 1) % NV) + 1       \* the closure given for the right side
Lift(f(_), o) == IF o = <<>> THEN <<>> ELSE <<f(o[1])>>

\* value-to-value operations: new value, and how often each closure was called
Map(x)      == [v |-> [l |-> Lift(F, x.l), r |-> Lift(G, x.r)], c |-> <<Len(x.l), Len(x.r)>>]
MapLeft(x)  == [v |-> [x EXCEPT !.l = Lift(F, @)], c |-> <<Len(x.l), 0>>]
MapRight(x) == [v |-> [x EXCEPT !.r = Lift(G, @)], c |-> <<0, Len(x.r)>>]
Unchanged(x) == [v |-> x, c |-> <<0, 0>>]

Do(op, o) == v' = o.v /\ ev' = [op |-> op, c |-> o.c]
Init == v \in Values /\ ev = [op |-> "new", c |-> <<0, 0>>]
Next ==
    \/ Do("map", Map(v)) \/ Do("map_left", MapLeft(v)) \/ Do("map_right", MapRight(v))
    \/ Do("convert", Unchanged(v))             \* into other types with the same value
    \/ Do("clone", Unchanged(v))
    \/ Do("cloned", Unchanged(v))              \* from a pair of references
    \/ Do("via_pair", Unchanged(v))            \* into (Option, Option) and back
    \/ Do("via_option_pair", Unchanged(v))     \* into Option<(Option, Option)> and back

vars == <<v, ev>>
Spec == Init /\ [][Next]_vars
View == v

IsNone(x) == x.l = <<>> /\ x.r = <<>>
Variant(x) ==
    CASE x.l = <<>> /\ x.r = <<>> -> <<"N">>
      [] x.l # <<>> /\ x.r = <<>> -> <<"L", x.l[1]>>
      [] x.l = <<>> /\ x.r # <<>> -> <<"R", x.r[1]>>
      [] OTHER -> <<"B", x.l[1], x.r[1]>>
\* into Option<(Option, Option)>: None only when both sides are absent
OptionPair(x) == IF IsNone(x) THEN <<>> ELSE <<<<x.l, x.r>>>>
\* from Option<(Option, Option)>
FromOptionPair(o) == IF o = <<>> THEN [l |-> <<>>, r |-> <<>>] ELSE [l |-> o[1][1], r |-> o[1][2]]

Obs(x) == [gl |-> x.l, gr |-> x.r, none |-> IsNone(x), op |-> OptionPair(x),
           pair |-> <<x.l, x.r>>, some |-> ~IsNone(x), variant |-> Variant(x)]

(***************************************************************************)
(* X10, independently of the operators above                               *)
(***************************************************************************)
Is(op) == ev'.op = op
SameSide(a, b) == Len(a) = Len(b)
X10 ==
    /\ SameSide(v.l, v'.l) /\ SameSide(v.r, v'.r)       \* no side appears or is lost
    /\ Is("map_left") => v'.r = v.r /\ ev'.c[2] = 0
    /\ Is("map_right") => v'.l = v.l /\ ev'.c[1] = 0
    /\ ev'.op \in {"map", "map_left"} =>
         /\ ev'.c[1] = Len(v.l)
         /\ v.l # <<>> => v'.l[1] = F(v.l[1])
    /\ ev'.op \in {"map", "map_right"} =>
         /\ ev'.c[2] = Len(v.r)
         /\ v.r # <<>> => v'.r[1] = G(v.r[1])
    /\ ev'.op \notin {"map", "map_left", "map_right"} => v' = v /\ ev'.c = <<0, 0>>
Conversions ==
    /\ FromOptionPair(OptionPair(v)) = v
    /\ \A a, b \in Values : (Variant(a) = Variant(b)) <=> (a = b)
PropX10 == [][X10]_vars
=============================================================================
