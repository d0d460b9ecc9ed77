------------------------ MODULE PartialCycleMapTrace -------------------------
(* Trace validation for PartialCycleMap: see TraceCommon. *)
EXTENDS PartialCycleMap, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Set(s) == Norm({s[j] : j \in DOMAIN s})
Twice(s) == Len(s) # Cardinality(Set(s))

MFrom(c) == FromEntries(Set(c))

Selecting == {"retain", "retain_paired", "retain_unpaired"}
SetArg == Selecting \cup FaultyOps \cup {"drain_filter", "drain_filter_forget"}
ArgsOf(op, a) == IF op \in SetArg THEN [a EXCEPT ![1] = Set(@)] ELSE a
ResultOf(op, r) ==
    CASE op \in Selecting \cup {"drain", "drain_filter_forget"} -> Set(r)
      [] op = "drain_filter" -> <<Set(r[1]), Set(r[2])>>
      [] OTHER -> r
Duplicates(op, r) ==
    CASE op \in Selecting \cup {"drain", "drain_filter_forget"} -> Twice(r)
      [] op = "drain_filter" -> Twice(r[1]) \/ Twice(r[2])
      [] OTHER -> FALSE

Covered(m, op, a) ==
    IF op \in FaultyOps THEN a[2] \notin a[1] /\ \E e \in FaultyE(m, op) : KE(e) = a[2]
    ELSE TRUE

SizesOK(m, s) == s = <<LenLeft(m), LenRight(m), IsEmpty(m)>>
\* [lk, rk, contains_left, contains_right, get_right, get_left, are_paired, is_left_paired, is_right_paired]
LookupOK(m, q) == q = <<q[1], q[2], ContainsLeft(m, q[1]), ContainsRight(m, q[2]),
                        GetRight(m, q[1]), GetLeft(m, q[2]), ArePaired(m, q[1], q[2]),
                        IsLeftPaired(m, q[1]), IsRightPaired(m, q[2])>>
\* [iter_left, iter_paired, iter_right, iter_unpaired]
OthersOK(m, x) == /\ ~Twice(x[1]) /\ Set(x[1]) = Lefts(m)
                  /\ ~Twice(x[2]) /\ Set(x[2]) = m.p
                  /\ ~Twice(x[3]) /\ Set(x[3]) = Rights(m)
                  /\ ~Twice(x[4]) /\ Set(x[4]) = UnpairedE(m)

Opens(m, kind, key) == TRUE
Listed(m, kind, key) == CASE kind \in {"map", "iter"} -> Entries(m)
                          [] kind = "ip" -> m.p
                          [] kind = "iu" -> UnpairedE(m)
                          [] kind = "il" -> Lefts(m)
                          [] kind = "ir" -> Rights(m)
Accepted(m, S) == SelE(Entries(m), S)

CapRules(op, a) ==
    LET any == <<"any">>  same == <<"same">>
        Count(kinds) == Cardinality({j \in DOMAIN a[1] : a[1][j][1] \in kinds})
    IN  CASE op \in {"reserve_left", "try_reserve_left"} -> << <<"reserve", a[1]>>, same>>
          [] op \in {"reserve_right", "try_reserve_right"} -> <<same, <<"reserve", a[1]>> >>
          [] op = "try_reserve_huge" -> <<same, same>>
          [] op = "shrink_to_left" -> << <<"shrink", a[1]>>, same>>
          [] op = "shrink_to_right" -> <<same, <<"shrink", a[1]>> >>
          [] op = "shrink_to_fit" -> << <<"shrink", 0>>, <<"shrink", 0>> >>
          [] op \in {"clear", "drain"} -> << <<"keep">>, <<"keep">> >>
          [] op = "insert" -> << <<"insert", 1>>, <<"insert", 1>> >>
          [] op = "insert_left" -> << <<"insert", 1>>, any>>
          [] op = "insert_right" -> <<any, <<"insert", 1>> >>
          [] op = "extend" -> << <<"insert", Len(a[1])>>, <<"insert", Len(a[1])>> >>
          [] op = "extend_opt" -> << <<"insert", Count({"B", "L"})>>, <<"insert", Count({"B", "R"})>> >>
          [] OTHER -> <<any, any>>

VARIABLES i, ms
T == INSTANCE TraceCommon
Spec == T!Spec
Consumed == T!Consumed
AlwaysLegal == T!AlwaysLegal
=============================================================================
