---------------------------- MODULE CycleMapTrace ----------------------------
(* Trace validation for CycleMap: see TraceCommon. *)
EXTENDS CycleMap, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Set(s) == Norm({s[j] : j \in DOMAIN s})
Twice(s) == Len(s) # Cardinality(Set(s))

MFrom(c) == WithPairs(Set(c))

SetArg == {"retain", "retain_panic", "drain_filter", "drain_filter_forget", "drain_filter_panic"}
ArgsOf(op, a) == IF op \in SetArg THEN [a EXCEPT ![1] = Set(@)] ELSE a
ResultOf(op, r) ==
    CASE op \in {"drain", "drain_filter_forget", "round_trip", "retain"} -> Set(r)
      [] op = "drain_filter" -> <<Set(r[1]), Set(r[2])>>
      [] OTHER -> r
Duplicates(op, r) ==
    CASE op \in {"drain", "drain_filter_forget", "round_trip", "retain"} -> Twice(r)
      [] op = "drain_filter" -> Twice(r[1]) \/ Twice(r[2])
      [] OTHER -> FALSE

Covered(m, op, a) ==
    IF op \in {"retain_panic", "drain_filter_panic"}
    THEN a[2] \notin a[1] /\ \E x \in m.p : KP(x) = a[2]
    ELSE TRUE

SizesOK(m, s) == s = <<Len1(m), IsEmpty(m)>>
\* [lk, rk, contains_left, contains_right, get_right, get_left, are_paired]
LookupOK(m, q) == q = <<q[1], q[2], ContainsLeft(m, q[1]), ContainsRight(m, q[2]),
                        GetRight(m, q[1]), GetLeft(m, q[2]), ArePaired(m, q[1], q[2])>>
\* [iter_left, iter_right]
OthersOK(m, x) == /\ ~Twice(x[1]) /\ Set(x[1]) = IterLeft(m)
                  /\ ~Twice(x[2]) /\ Set(x[2]) = IterRight(m)
CodeEq(a, b) == MapEq(a, b)

Opens(m, kind, key) == TRUE
Listed(m, kind, key) == CASE kind \in {"map", "iter"} -> m.p
                          [] kind = "il" -> IterLeft(m)
                          [] kind = "ir" -> IterRight(m)
Accepted(m, S) == {x \in m.p : KP(x) \in S}

CapRules(op, a) ==
    LET both(x) == <<x, x>>
    IN  CASE op \in {"reserve", "try_reserve"} -> both(<<"reserve", a[1]>>)
          [] op = "try_reserve_huge" -> both(<<"same">>)
          [] op = "shrink_to" -> both(<<"shrink", a[1]>>)
          [] op = "shrink_to_fit" -> both(<<"shrink", 0>>)
          [] op \in {"clear", "drain"} -> both(<<"keep">>)
          [] op = "insert" -> both(<<"insert", 1>>)
          [] op = "extend" -> both(<<"insert", Len(a[1])>>)
          [] OTHER -> both(<<"any">>)

VARIABLES i, ms
T == INSTANCE TraceCommon
Spec == T!Spec
Consumed == T!Consumed
AlwaysLegal == T!AlwaysLegal
=============================================================================
