------------------------------ MODULE Iterator -------------------------------
(***************************************************************************)
(* Iterators over a finite set of entries, in no particular order.  The    *)
(* state is a sequence of records, one per iterator; the first one was     *)
(* opened on the whole set, the others are clones.  A record has left, a   *)
(* set of entries, and gone: how many of those have been skipped unseen.   *)
(*                                                                         *)
(* A step is a tuple <<what, iterator, answer>>:                           *)
(*   next   <<>> or <<entry>>                                              *)
(*   nth    <<k, <<>> or <<entry>> >>: skip k entries, then next           *)
(*   len    a number                                                       *)
(*   hint   <<lower bound, <<upper bound>> or <<>> >>, which must be exact *)
(*   bound  the same, which must only be a bound                           *)
(*   visit  <<the entries visited, whether told to stop at the last>>:     *)
(*          a closure visits entries until it says stop (all, any, find)   *)
(*   dup    <<>>: clone it; the clone gets the next number                 *)
(*   list   <<the entries>>: Debug output, or what a clone folds over, or  *)
(*          <<>> if the output could not be understood                     *)
(*   count  a number: what a clone counts                                  *)
(*   last   <<>> or <<entry>>: the last entry of a clone                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt  \* FoldLeft, Range

Open(S) == <<[left |-> S, gone |-> 0]>>
ToCome(it) == Cardinality(it.left) - it.gone

\* entries an iterator may show in this order
LOCAL Distinct(it, s) == Len(s) = Cardinality(Range(s)) /\ Range(s) \subseteq it.left

StepOK(its, s) ==
    LET it == its[s[2]]
        n  == ToCome(it)
        v  == s[3]
    IN  CASE s[1] = "next"  -> IF v = <<>> THEN n = 0 ELSE n > 0 /\ v[1] \in it.left
          [] s[1] = "nth"   -> IF v[2] = <<>> THEN n <= v[1] ELSE n > v[1] /\ v[2][1] \in it.left
          [] s[1] \in {"len", "count"} -> v = n
          [] s[1] = "hint"  -> v[1] = n /\ v[2] = <<n>>
          [] s[1] = "bound" -> v[1] <= n /\ (v[2] # <<>> => v[2][1] >= n)
          [] s[1] = "visit" -> /\ Distinct(it, v[1])
                               /\ IF v[2] THEN Len(v[1]) \in 1..n ELSE Len(v[1]) = n
          [] s[1] = "last"  -> IF v = <<>> THEN n = 0 ELSE n > 0 /\ v[1] \in it.left
          [] s[1] = "list"  -> v # <<>> /\ Distinct(it, v[1]) /\ Len(v[1]) = n
          [] OTHER -> TRUE

After(its, s) ==
    LET it == its[s[2]]
        v  == s[3]
        Seen(x) == [it EXCEPT !.left = @ \ x]
        Over == [it EXCEPT !.gone = Cardinality(it.left)]
    IN  CASE s[1] = "next" -> [its EXCEPT ![s[2]] = Seen(Range(v))]
          [] s[1] = "nth" /\ v[2] = <<>> -> [its EXCEPT ![s[2]] = Over]
          [] s[1] = "nth" /\ v[2] # <<>> -> [its EXCEPT ![s[2]] = [Seen({v[2][1]}) EXCEPT !.gone = @ + v[1]]]
          [] s[1] = "visit" -> [its EXCEPT ![s[2]] = Seen(Range(v[1]))]
          [] s[1] = "dup" -> Append(its, it)
          [] OTHER -> its

\* the number of the first step that is not allowed, or 0
FirstBad(S, steps) ==
    LET Step(acc, s) == IF acc.bad > 0 THEN acc
                        ELSE IF StepOK(acc.its, s) THEN [its |-> After(acc.its, s), n |-> acc.n + 1, bad |-> 0]
                        ELSE [acc EXCEPT !.bad = acc.n]
    IN  FoldLeft(Step, [its |-> Open(S), n |-> 1, bad |-> 0], steps).bad
=============================================================================
