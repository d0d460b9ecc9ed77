----------------------------- MODULE IteratorSM ------------------------------
(***************************************************************************)
(* The iterators of Iterator.tla as a system: any allowed step at any      *)
(* time.  Model checked for what users of the iterators rely on.           *)
(***************************************************************************)
EXTENDS Iterator

CONSTANTS Entries, MaxIts, MaxSteps

VARIABLES all,   \* what the iterators were opened on
          its,   \* the state of Iterator.tla
          got,   \* per iterator, what it yielded, clones included what their original had yielded
          missed,\* per iterator, how many it skipped, likewise
          log    \* the steps so far

vars == <<all, its, got, missed, log>>

Elems(s) == {s[j] : j \in DOMAIN s}
Lists == UNION {[1..k -> Entries] : k \in 0..Cardinality(Entries)}
Opt == {<<>>} \cup {<<e>> : e \in Entries}
Numbers == 0..Cardinality(Entries)

Answers(n) ==
    {<<"next", n, o>> : o \in Opt} \cup
    {<<"nth", n, <<k, o>> >> : k \in Numbers, o \in Opt} \cup
    {<<"visit", n, <<l, b>> >> : l \in Lists, b \in BOOLEAN} \cup
    {<<"len", n, k>> : k \in Numbers} \cup
    {<<"bound", n, <<k, <<j>> >> >> : k, j \in Numbers} \cup
    (IF Len(its) < MaxIts THEN {<<"dup", n, <<>> >>} ELSE {})

Init == \E S \in SUBSET Entries :
            all = S /\ its = Open(S) /\ got = <<  <<>> >> /\ missed = <<0>> /\ log = <<>>

Step(s) == /\ StepOK(its, s)
           /\ its' = After(its, s)
           /\ got' = CASE s[1] = "next" -> [got EXCEPT ![s[2]] = @ \o s[3]]
                       [] s[1] = "nth" -> [got EXCEPT ![s[2]] = @ \o s[3][2]]
                       [] s[1] = "visit" -> [got EXCEPT ![s[2]] = @ \o s[3][1]]
                       [] s[1] = "dup" -> Append(got, got[s[2]])
                       [] OTHER -> got
           /\ missed' = CASE s[1] = "nth" /\ s[3][2] # <<>> -> [missed EXCEPT ![s[2]] = @ + s[3][1]]
                          [] s[1] = "nth" /\ s[3][2] = <<>> -> [missed EXCEPT ![s[2]] = Cardinality(all) - Len(got[s[2]])]
                          [] s[1] = "dup" -> Append(missed, missed[s[2]])
                          [] OTHER -> missed
           /\ log' = Append(log, s)
           /\ UNCHANGED all
Next == Len(log) < MaxSteps /\ \E n \in DOMAIN its : \E s \in Answers(n) : Step(s)
Spec == Init /\ [][Next]_vars

\* nothing twice, nothing foreign, and nothing lost but what was skipped
ExactlyOnce == \A n \in DOMAIN its :
    /\ Len(got[n]) = Cardinality(Elems(got[n]))
    /\ Elems(got[n]) \subseteq all
    /\ Len(got[n]) + missed[n] + ToCome(its[n]) = Cardinality(all)
    /\ missed[n] = 0 /\ ToCome(its[n]) = 0 => Elems(got[n]) = all
\* None comes exactly when everything was yielded or skipped, and then for ever
Fused == [][log' # log =>
            LET s == log'[Len(log')]
                n == s[2]
                over == Len(got[n]) + missed[n] = Cardinality(all)
            IN  /\ s[1] = "next" => (s[3] = <<>> <=> over)
                /\ s[1] = "nth" => (s[3][2] = <<>> <=> Len(got[n]) + missed[n] + s[3][1] >= Cardinality(all))
                /\ over => got'[n] = got[n]]_vars
\* the lengths told along the way tell how much follows
LenTrue == [][log' # log =>
            LET s == log'[Len(log')]
                n == Cardinality(all) - Len(got[s[2]]) - missed[s[2]]
            IN  /\ s[1] = "len" => s[3] = n
                /\ s[1] = "bound" => s[3][1] <= n]_vars
\* steps of one iterator do not touch another
Separate == [][\A n \in DOMAIN its : its'[n] # its[n] => log'[Len(log')][2] = n]_vars
\* the checker of recorded steps agrees
Accepted == FirstBad(all, log) = 0
Rejects == \A s \in Answers(1) : FirstBad(all, Append(log, s)) = (IF StepOK(its, s) THEN 0 ELSE Len(log) + 1)
=============================================================================
