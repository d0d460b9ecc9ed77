----------------------------- MODULE TraceCommon -----------------------------
(***************************************************************************)
(* Trace validation.  The harness records what the real maps did, one JSON *)
(* line per call; this module replays the lines against the specification  *)
(* of the map.  It is instantiated by CycleTrace, PartialTrace and         *)
(* GroupTrace, which supply the operators below.                           *)
(*                                                                         *)
(* A trace is a sequence of episodes.  The line {op: "new"} starts one,    *)
(* with a single empty map, handle 0; "fork" clones a handle, "drop" drops *)
(* one, "eq" compares two; every other line is a call on handle h with     *)
(* arguments a, which returned r and left the map showing c (its           *)
(* iteration), s (its sizes), q (the answers to some lookups) and x (its   *)
(* other iterators).                                                       *)
(*                                                                         *)
(* "repeat" makes a round of calls many times; they lead back to where they *)
(* began.  "iterate" opens an iterator (opened: was there one?) and steps through  *)
(* it (steps: see Iterator.tla); "drain_steps" does so with drain and      *)
(* drain_filter.                                                           *)
(*                                                                         *)
(* Recordings for X09 also have cap, the capacities of the sides; whether  *)
(* any stored item has moved; and fresh, the capacities of a new map made  *)
(* for what a shrinking call must leave room for.  "new" tells the         *)
(* capacity asked for.                                                     *)
(*                                                                         *)
(* Odd results (of a type the specification does not know) come as text in *)
(* the field odd.  A line the specification does not allow is reported,    *)
(* and the rest of its episode is skipped for that handle; for properties  *)
(* that are not about where the calls lead (LENIENT), a map that came to   *)
(* other legal contents is followed from there.                            *)
(***************************************************************************)
EXTENDS MapCommon, Iterator, Capacity, TLC, Json, SequencesExt, IOUtils

CONSTANTS Trace,                 \* the lines
          MFrom(_),              \* contents from what iter() showed
          ArgsOf(_, _),          \* op, arguments: lists that stand for sets made into sets
          ResultOf(_, _),        \* op, result: likewise
          Duplicates(_, _),      \* op, result: does it list something twice?
          Covered(_, _, _),      \* contents, op, args: does the specification speak about it?
          Allowed(_, _, _, _, _),\* contents, op, args, result, contents after
          AllowedM(_, _, _, _),  \* the same, without looking at the result
          Expected(_, _, _),     \* set of contents the call may lead to, if easily listed
          Legal(_), SizesOK(_, _), LookupOK(_, _), OthersOK(_, _),
          MapEq(_, _), CodeEq(_, _),
          Opens(_, _, _),        \* contents, kind of iterator, key: is there one?
          Listed(_, _, _),       \* ... the entries it yields
          Accepted(_, _),        \* contents, keys: what drain_filter takes
          CapRules(_, _)         \* op, args as recorded: what it may do to the capacities

VARIABLES i, ms

E == Trace[i]

Elems(s) == {s[j] : j \in DOMAIN s}
NoDup(s) == Len(s) = Cardinality(Elems(s))

\* what the map showed is coherent: one legal contents explains all of it
Coherent(e, m2) ==
    /\ ~e.bad
    /\ NoDup(e.c)
    /\ Legal(m2)
    /\ SizesOK(m2, e.s)
    /\ \A j \in DOMAIN e.q : LookupOK(m2, e.q[j])
    /\ e.x # <<>> => OthersOK(m2, e.x)

Stored(m) == Cardinality(Lefts(m)) + Cardinality(Rights(m))

Verdict(m, e) ==
    LET a == ArgsOf(e.op, e.a)
    IN  IF ~Covered(m, e.op, a) THEN "outside"
        ELSE IF e.panic # "" THEN e.panic
        ELSE LET m2 == MFrom(e.c)
             IN IF ~Coherent(e, m2) THEN "illegal"
                ELSE IF ~AllowedM(m, e.op, a, m2) THEN "contents"
                ELSE IF e.odd # "" \/ Duplicates(e.op, e.r)
                        \/ ~Allowed(m, e.op, a, ResultOf(e.op, e.r), m2) THEN "result"
                ELSE IF e.alive >= 0 /\ e.alive # Stored(m2) THEN "live"
                ELSE "ok"

\* the other maps of a fork did not change
Lenient == IOEnv.LENIENT = "yes"
Bystanders(e) == \A j \in DOMAIN e.o :
    LET h == e.o[j][1]
    IN  ms[h].ok => /\ NoDup(e.o[j][2]) /\ MFrom(e.o[j][2]) = ms[h].m /\ SizesOK(ms[h].m, e.o[j][3])

\* contents as lists, for the reader of a report
Show(m) == <<SetToSeq(m.p), SetToSeq(m.ul), SetToSeq(m.ur)>>
ShowAll(S) == LET s == SetToSeq(S) IN [j \in DOMAIN s |-> Show(s[j])]
Report2(kind, before, after, more) == PrintT("V " \o ToJson(<<i, kind, before, after, more>>))
Report(kind, before, after) == Report2(kind, before, after, <<>>)

\* sizes and lookups are as specified, so only what the iterators list can be wrong
OnlyListing(m, e) ==
    IF e.panic # "" THEN FALSE
    ELSE \E m2 \in Expected(m, e.op, ArgsOf(e.op, e.a)) :
            /\ SizesOK(m2, e.s)
            /\ e.q # <<>>
            /\ \A j \in DOMAIN e.q : LookupOK(m2, e.q[j])

\* capacities
CapOf(e) == IF "cap" \in DOMAIN e THEN e.cap ELSE <<>>
CapsOK(c, m, m2, e) ==
    LET rules == CapRules(e.op, e.a)
        l0 == <<Cardinality(Lefts(m)), Cardinality(Rights(m))>>
        l1 == <<Cardinality(Lefts(m2)), Cardinality(Rights(m2))>>
    IN  \A s \in {1, 2} : RuleOK(rules[s], c[s], l0[s], e.cap[s], l1[s], e.fresh[s], e.moved[s])

New == /\ E.op = "new"
       /\ LET good == "cap" \in DOMAIN E =>
                        \A s \in {1, 2} : IF E.asked = 0 THEN E.cap[s] = 0 ELSE E.cap[s] >= E.asked
          IN  /\ IF good THEN TRUE ELSE Report("capacity", Show(Empty), <<>>)
              /\ ms' = (0 :> [m |-> Empty, ok |-> good, cap |-> CapOf(E)])

Skip == /\ E.op # "new" /\ ~ms[E.h].ok
        /\ ms' = CASE E.op \in {"fork", "rebuild"} -> (E.to :> ms[E.h]) @@ ms
                   [] E.op = "drop" -> [h \in DOMAIN ms \ {E.h} |-> ms[h]]
                   [] OTHER -> ms

Fork == /\ E.op = "fork" /\ ms[E.h].ok
        /\ LET good == /\ E.panic = "" /\ NoDup(E.c) /\ MFrom(E.c) = ms[E.h].m
                       /\ SizesOK(ms[E.h].m, E.s) /\ ~E.bad
                       /\ E.r = <<TRUE, FALSE, TRUE, FALSE>>
                       /\ \A j \in DOMAIN E.q : LookupOK(ms[E.h].m, E.q[j])
                       /\ E.x # <<>> => OthersOK(ms[E.h].m, E.x)
           IN  /\ IF good THEN TRUE ELSE Report("clone", Show(ms[E.h].m), <<Show(ms[E.h].m)>>)
               /\ ms' = (E.to :> [m |-> ms[E.h].m, ok |-> good, cap |-> <<>>]) @@ ms

\* the same contents put into a new map by insertions: whether they got there is not at
\* issue here, but if so, == must hold
Rebuild == /\ E.op = "rebuild" /\ ms[E.h].ok
           /\ LET a == ms[E.h].m
                  there == E.panic = "" /\ ~E.bad /\ NoDup(E.c) /\ MFrom(E.c) = a /\ SizesOK(a, E.s)
              IN  /\ IF ~there \/ E.r = <<TRUE, FALSE, TRUE, FALSE>> THEN TRUE
                     ELSE Report("eq", <<Show(a), Show(a)>>, <<>>)
                  /\ ms' = (E.to :> [m |-> a, ok |-> there, cap |-> <<>>]) @@ ms

Drop == /\ E.op = "drop" /\ ms[E.h].ok
        /\ IF E.panic # "" THEN Report(E.panic, Show(ms[E.h].m), <<>>)
           ELSE IF E.alive > 0 /\ DOMAIN ms = {E.h} THEN Report("live", Show(ms[E.h].m), <<>>)
           ELSE IF Bystanders(E) THEN TRUE ELSE Report("bystander", Show(ms[E.h].m), <<>>)
        /\ ms' = [h \in DOMAIN ms \ {E.h} |-> ms[h]]

Eq == /\ E.op = "eq" /\ ms[E.h].ok
      /\ LET a == ms[E.h].m  b == ms[E.to].m
             t == MapEq(a, b)
             show == <<Show(a), Show(b)>>
         IN  IF ~ms[E.to].ok THEN TRUE
             ELSE IF E.panic # "" THEN Report("eq-panic", show, <<>>)
             ELSE IF E.r = <<t, ~t, t, ~t>> THEN TRUE
             ELSE Report(IF E.r = <<CodeEq(a, b), ~CodeEq(a, b), CodeEq(b, a), ~CodeEq(b, a)>>
                         THEN "known-eq" ELSE "eq", show, <<>>)
      /\ UNCHANGED ms

\* an iterator was opened, and stepped through
Iterate ==
    /\ E.op = "iterate" /\ ms[E.h].ok
    /\ LET m    == ms[E.h].m
           good == /\ E.opened = Opens(m, E.a[1], E.a[2])
                   /\ E.opened => FirstBad(Listed(m, E.a[1], E.a[2]), E.steps) = 0
           bad  == IF E.panic # "" THEN "iterator-panic" ELSE IF good THEN "ok" ELSE "iterator"
       IN  /\ IF bad = "ok" THEN TRUE
              ELSE Report2(bad, Show(m), <<>>, <<IF E.panic # "" \/ ~E.opened THEN 0
                                                ELSE FirstBad(Listed(m, E.a[1], E.a[2]), E.steps)>>)
           /\ ms' = IF bad = "ok" THEN ms ELSE [ms EXCEPT ![E.h].ok = FALSE]

\* drain, or drain_filter with the given keys, stepped through to the end
Drain ==
    /\ E.op = "drain_steps" /\ ms[E.h].ok
    /\ LET m    == ms[E.h].m
           all  == Listed(m, "iter", 0)
           S    == IF E.a = <<>> THEN all ELSE Accepted(m, Elems(E.a[1]))
           m2   == MFrom(E.c)
           bad  == IF E.panic # "" THEN E.panic
                   ELSE IF FirstBad(S, E.steps) # 0 THEN "iterator"
                   ELSE IF ~Coherent(E, m2) THEN "illegal"
                   ELSE IF E.odd # "" \/ Listed(m2, "iter", 0) # all \ S THEN "contents"
                   ELSE "ok"
       IN  /\ IF bad = "ok" THEN TRUE
              ELSE Report2(bad, Show(m), <<>>, IF E.panic = "" THEN <<FirstBad(S, E.steps)>> ELSE <<>>)
           /\ ms' = [ms EXCEPT ![E.h] = IF bad = "ok" THEN [m |-> m2, ok |-> TRUE, cap |-> CapOf(E)] ELSE [@ EXCEPT !.ok = FALSE]]

\* a round of calls that leads back to where it began, made many times: the results are
\* those of the specification every time, and the map is where it was
RECURSIVE Round(_, _)
Round(m, calls) ==
    IF calls = <<>> THEN m
    ELSE Round(CHOOSE m2 \in Expected(m, calls[1][1], calls[1][2]) : TRUE, Tail(calls))
RECURSIVE RoundOK(_, _, _)
RoundOK(m, calls, rs) ==
    IF calls = <<>> THEN TRUE
    ELSE LET m2 == CHOOSE x \in Expected(m, calls[1][1], calls[1][2]) : TRUE
         IN  Allowed(m, calls[1][1], calls[1][2], ResultOf(calls[1][1], rs[1]), m2) /\ RoundOK(m2, Tail(calls), Tail(rs))
Repeat ==
    /\ E.op = "repeat" /\ ms[E.h].ok
    /\ LET m   == ms[E.h].m
           m2  == MFrom(E.c)
           bad == IF Round(m, E.a[2]) # m THEN "outside"
                  ELSE IF E.panic # "" THEN E.panic
                  ELSE IF ~Coherent(E, m2) THEN "illegal"
                  ELSE IF m2 # m THEN "contents"
                  ELSE IF E.odd # "" \/ Len(E.r) # 1 THEN "result"
                  ELSE IF ~RoundOK(m, E.a[2], E.r[1]) THEN "result"
                  ELSE IF E.alive >= 0 /\ E.alive # Stored(m2) THEN "live"
                  ELSE IF ~Bystanders(E) THEN "bystander"
                  ELSE "ok"
       IN  /\ IF bad = "ok" THEN TRUE
              ELSE IF bad = "outside" THEN Report(bad, Show(m), <<>>)
              ELSE Report2(bad, Show(m), <<Show(m)>>, <<>>)
           /\ ms' = IF bad = "ok" THEN ms
                    ELSE [ms EXCEPT ![E.h] = IF Lenient /\ bad \in {"contents", "result", "live", "bystander"}
                                             THEN [m |-> m2, ok |-> TRUE, cap |-> <<>>] ELSE [@ EXCEPT !.ok = FALSE]]

Call == /\ E.op \notin {"new", "fork", "rebuild", "drop", "eq", "iterate", "drain_steps", "repeat"} /\ ms[E.h].ok
        /\ LET v == Verdict(ms[E.h].m, E)
               w == IF v = "ok" /\ ~Bystanders(E) THEN "bystander"
                    ELSE IF v = "ok" /\ "cap" \in DOMAIN E /\ ~CapsOK(ms[E.h].cap, ms[E.h].m, MFrom(E.c), E)
                    THEN "capacity" ELSE v
           IN  /\ IF w = "ok" THEN TRUE
                  ELSE IF w = "outside" THEN Report(w, Show(ms[E.h].m), <<>>)
                  ELSE Report2(w, Show(ms[E.h].m), ShowAll(Expected(ms[E.h].m, E.op, ArgsOf(E.op, E.a))),
                               IF w = "capacity" THEN <<ms[E.h].cap>>
                               ELSE IF w \in {"illegal", "contents"} /\ OnlyListing(ms[E.h].m, E) THEN <<"listing">> ELSE <<>>)
               /\ ms' = [ms EXCEPT ![E.h] = IF w = "ok" \/ (Lenient /\ w \in {"contents", "result", "live", "bystander"}) THEN [m |-> MFrom(E.c), ok |-> TRUE, cap |-> CapOf(E)]
                                            ELSE [@ EXCEPT !.ok = FALSE]]

Init == i = 1 /\ ms = (0 :> [m |-> Empty, ok |-> FALSE, cap |-> <<>>])
Next == /\ i <= Len(Trace)
        /\ New \/ Skip \/ Fork \/ Rebuild \/ Drop \/ Eq \/ Iterate \/ Drain \/ Repeat \/ Call
        /\ i' = i + 1
Spec == Init /\ [][Next]_<<i, ms>>

\* every line was consumed
Consumed == /\ PrintT("C " \o ToString(TLCGet("stats").diameter - 1))
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
\* in every state of every map the specification follows, the contents are legal
AlwaysLegal == \A h \in DOMAIN ms : ms[h].ok => Legal(ms[h].m)
=============================================================================
