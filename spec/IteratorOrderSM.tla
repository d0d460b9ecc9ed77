--------------------------- MODULE IteratorOrderSM ---------------------------
(***************************************************************************)
(* What real iterators are: each has the entries in some order of its own, *)
(* and a position.  A clone may use another order for what is to come.     *)
(* Checked: Iterator.tla, which knows no order, allows every step of such  *)
(* iterators (so that recorded steps of correct iterators are never        *)
(* rejected), and rejects every other answer to len, count and next at the *)
(* end.                                                                    *)
(***************************************************************************)
EXTENDS Iterator

CONSTANTS Entries, MaxIts, MaxSteps

VARIABLES real,  \* per iterator, the entries to come, in order
          its,   \* the state of Iterator.tla
          n      \* steps so far
vars == <<real, its, n>>

Elems(s) == {s[j] : j \in DOMAIN s}
Orders(S) == {f \in [1..Cardinality(S) -> S] : Elems(f) = S}
Drop(s, k) == IF k >= Len(s) THEN <<>> ELSE SubSeq(s, k + 1, Len(s))
At(s, k) == IF k > Len(s) THEN <<>> ELSE <<s[k]>>

Init == \E S \in SUBSET Entries : \E o \in Orders(S) :
            real = <<o>> /\ its = Open(S) /\ n = 0

\* the steps iterator j can do, and what it then has left
Steps(j) ==
    LET r == real[j]
        Same(what, v) == [s |-> <<what, j, v>>, r |-> r]
    IN  {[s |-> <<"next", j, At(r, 1)>>, r |-> Drop(r, 1)],
         Same("len", Len(r)), Same("count", Len(r)), Same("hint", <<Len(r), <<Len(r)>> >>),
         Same("last", At(r, Len(r) + (IF r = <<>> THEN 1 ELSE 0)))}
        \cup {Same("bound", <<k, b>>) : k \in 0..Len(r), b \in {<<>>} \cup {<<m>> : m \in Len(r)..Cardinality(Entries)}}
        \cup {Same("list", <<o>>) : o \in Orders(Elems(r))}
        \cup {[s |-> <<"nth", j, <<k, At(r, k + 1)>> >>, r |-> Drop(r, k + 1)] : k \in 0..Cardinality(Entries) + 1}
        \cup {[s |-> <<"visit", j, <<SubSeq(r, 1, k), TRUE>> >>, r |-> Drop(r, k)] : k \in 1..Len(r)}
        \cup {[s |-> <<"visit", j, <<r, FALSE>> >>, r |-> <<>>]}

Next == /\ n < MaxSteps
        /\ n' = n + 1
        /\ \E j \in DOMAIN real :
             \/ \E x \in Steps(j) : /\ real' = [real EXCEPT ![j] = x.r]
                                    /\ its' = After(its, x.s)
             \/ /\ Len(real) < MaxIts
                /\ \E o \in Orders(Elems(real[j])) : real' = Append(real, o)
                /\ its' = After(its, <<"dup", j, <<>> >>)
Spec == Init /\ [][Next]_vars

\* no step of a real iterator is rejected
NeverRejected == \A j \in DOMAIN real : \A x \in Steps(j) : StepOK(its, x.s)
\* the abstract state bounds the real one
Simulates == \A j \in DOMAIN real : Elems(real[j]) \subseteq its[j].left /\ Len(real[j]) = ToCome(its[j])
\* sizes and ends that are not the real ones are rejected
SizesDecided == \A j \in DOMAIN real :
    /\ \A k \in 0..Cardinality(Entries) + 1 : \A what \in {"len", "count"} : StepOK(its, <<what, j, k>>) <=> k = Len(real[j])
    /\ \A what \in {"next", "last"} : StepOK(its, <<what, j, <<>> >>) <=> real[j] = <<>>
    /\ \A k \in 0..Cardinality(Entries) + 1 : StepOK(its, <<"nth", j, <<k, <<>> >> >>) <=> Len(real[j]) <= k
=============================================================================
