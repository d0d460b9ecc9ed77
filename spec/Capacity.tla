------------------------------ MODULE Capacity -------------------------------
(***************************************************************************)
(* What a call may do to the capacity of one side of a map.  A rule is one *)
(* of                                                                      *)
(*   <<"any">>         nothing is promised                                 *)
(*   <<"same">>        the call does not concern this side                 *)
(*   <<"keep">>        the memory is kept: clear, drain                    *)
(*   <<"reserve", k>>  room is made for k more                             *)
(*   <<"shrink", n>>   down to n, or to what is stored                     *)
(*   <<"insert", j>>   at most j items were put in                         *)
(* and a side is described by its capacity and its number of items before  *)
(* (cap0, len0) and after (cap1, len1), by fresh, the capacity of a new    *)
(* map made for the number of items a shrinking call must leave room for,  *)
(* and by whether a stored item has moved.                                 *)
(***************************************************************************)
EXTENDS Naturals

LOCAL Bigger(a, b) == IF a > b THEN a ELSE b
LOCAL Smaller(a, b) == IF a < b THEN a ELSE b

\* the number of items a shrinking call must leave room for
ShrinkTo(n, len) == Bigger(n, len)

RuleOK(rule, cap0, len0, cap1, len1, fresh, moved) ==
    /\ cap1 >= len1
    /\ CASE rule[1] = "any" -> TRUE
         [] rule[1] = "same" -> cap1 = cap0 /\ ~moved
         [] rule[1] = "keep" -> cap1 >= cap0
         [] rule[1] = "reserve" -> cap1 >= len1 + rule[2] /\ cap1 >= cap0
         [] rule[1] = "shrink" -> /\ cap1 >= Smaller(cap0, ShrinkTo(rule[2], len0))
                                  /\ cap1 <= fresh
         \* the capacity told before was a promise: while new items fill it up, nothing moves,
         \* and it is not taken back
         [] rule[1] = "insert" -> len1 = len0 + rule[2] /\ len1 <= cap0 => ~moved /\ cap1 >= cap0
=============================================================================
