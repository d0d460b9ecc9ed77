---------------------------- MODULE GroupMapTrace ----------------------------
(* Trace validation for GroupMap: see TraceCommon. *)
EXTENDS GroupMap, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Set(s) == Norm({s[j] : j \in DOMAIN s})
Twice(s) == Len(s) # Cardinality(Set(s))

\* iter() shows <<left>> or <<>>, and the right item
MFrom(c) == LET paired == Norm({x \in Set(c) : x[1] # <<>>})
                alone  == Set(c) \ paired
            IN  [p |-> Norm({<<x[1][1], x[2]>> : x \in paired}), ul |-> {}, ur |-> Norm({x[2] : x \in alone})]

SetArg == {"retain_paired", "retain_unpaired", "retain_paired_panic", "retain_unpaired_panic"}
ArgsOf(op, a) == IF op \in SetArg THEN [a EXCEPT ![1] = Set(@)] ELSE a
\* a removed group
Members2(g) == IF g = <<>> THEN <<>> ELSE <<Set(g[1]), g[2]>>
ResultOf(op, r) ==
    CASE op \in {"retain_paired", "retain_unpaired"} -> Set(r)
      [] op \in {"insert_right", "remove", "remove_right"} -> Members2(r)
      [] op = "insert_remove" -> <<r[1], Members2(r[2])>>
      [] OTHER -> r
TwiceG(g) == g # <<>> /\ Twice(g[1])
Duplicates(op, r) ==
    CASE op \in {"retain_paired", "retain_unpaired"} -> Twice(r)
      [] op \in {"insert_right", "remove", "remove_right"} -> TwiceG(r)
      [] op = "insert_remove" -> TwiceG(r[2])
      [] OTHER -> FALSE

\* histories do not go through the known finding of insert
Covered(m, op, a) ==
    CASE op = "insert" -> ~Reinserts(m, <<a[1], a[2]>>)
      [] op = "extend" -> ~SeqReinserts(m, a[1])
      [] op = "collect" -> ~SeqReinserts(Empty, a[1])
      [] op \in {"extend_opt", "extend_panic"} -> ~SeqOptReinserts(m, a[1])
      [] op = "collect_opt" -> ~SeqOptReinserts(Empty, a[1])
      [] op = "retain_paired_panic" -> a[2] \notin a[1] /\ \E x \in m.p : KP(x) = a[2]
      [] op = "retain_unpaired_panic" -> a[2] \notin a[1] /\ \E x \in m.ur : K(x) = a[2]
      [] OTHER -> TRUE

SizesOK(m, s) == s = <<LenLeft(m), LenRight(m), IsEmpty(m)>>
\* [lk, rk, contains_left, contains_right, get_right, get_left_iter, are_paired, is_right_paired]
LookupOK(m, q) ==
    /\ q[6] # <<>> => ~Twice(q[6][1])
    /\ <<q[1], q[2], q[3], q[4], q[5], IF q[6] = <<>> THEN <<>> ELSE <<Set(q[6][1])>>, q[7], q[8]>>
       = <<q[1], q[2], ContainsLeft(m, q[1]), ContainsRight(m, q[2]),
           GetRight(m, q[1]), GetLeftIter(m, q[2]), ArePaired(m, q[1], q[2]), IsRightPaired(m, q[2])>>
\* [iter_left, iter_paired, iter_right, iter_unpaired]
OthersOK(m, x) == /\ ~Twice(x[1]) /\ Set(x[1]) = Lefts(m)
                  /\ ~Twice(x[2]) /\ Set(x[2]) = m.p
                  /\ ~Twice(x[3]) /\ Set(x[3]) = Rights(m)
                  /\ ~Twice(x[4]) /\ Set(x[4]) = m.ur
CodeEq(a, b) == MapEq(a, b)

Opens(m, kind, key) == kind = "gli" => ContainsRight(m, key)
Listed(m, kind, key) == CASE kind \in {"map", "iter"} -> Iter(m)
                          [] kind = "ip" -> m.p
                          [] kind = "iu" -> m.ur
                          [] kind = "il" -> Lefts(m)
                          [] kind = "ir" -> Rights(m)
                          [] kind = "gli" -> Members(m, key)
Accepted(m, S) == {}

CapRules(op, a) ==
    LET any == <<"any">>
    IN  CASE op = "clear" -> << <<"keep">>, <<"keep">> >>
          [] op \in {"insert", "insert_remove"} -> << <<"insert", 1>>, <<"insert", 1>> >>
          [] op = "insert_left" -> << <<"insert", 1>>, any>>
          [] op = "insert_right" -> <<any, <<"insert", 1>> >>
          [] op = "extend" -> << <<"insert", Len(a[1])>>, <<"insert", Len(a[1])>> >>
          [] op = "extend_opt" -> << <<"insert", Cardinality({j \in DOMAIN a[1] : a[1][j][1] # <<>>})>>,
                                     <<"insert", Len(a[1])>> >>
          [] OTHER -> <<any, any>>

VARIABLES i, ms
T == INSTANCE TraceCommon
Spec == T!Spec
Consumed == T!Consumed
AlwaysLegal == T!AlwaysLegal
=============================================================================
