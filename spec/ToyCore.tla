------------------------------- MODULE ToyCore -------------------------------
EXTENDS Naturals, Sequences
\* The course of a study of n experiments with at most max attempts each: plan
\* says for every attempt whether it fails (attempts beyond the plan succeed).
\* used: number of attempts; good: numbers of the attempts that succeeded.
RECURSIVE ToyCourse(_, _, _, _, _)
ToyCourse(n, max, plan, used, good) ==
    IF Len(good) = n THEN [ok |-> TRUE, used |-> used, good |-> good]
    ELSE LET Fails(a) == a <= Len(plan) /\ plan[a]
             tries == {k \in 1 .. max : ~Fails(used + k)}
         IN IF tries = {} THEN [ok |-> FALSE, used |-> used + max, good |-> good]
            ELSE LET k == CHOOSE k \in tries : \A j \in tries : k <= j
                 IN ToyCourse(n, max, plan, used + k, Append(good, used + k))
=============================================================================
