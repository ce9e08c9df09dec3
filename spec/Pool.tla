-------------------------------- MODULE Pool --------------------------------
(* A profile scan: workers take the scan points one after the other and finish
   them in any order; the values are collected in the order of the points.
   Every behaviour is printed - the order in which the points are finished -
   and becomes a test in which the workers are delayed accordingly.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxPoints, MaxWorkers
VARIABLES points, workers, next, running, finished, results, collected
vars == <<points, workers, next, running, finished, results, collected>>
None == 0
Value(i) == 100 + i
Init == /\ points \in 2 .. MaxPoints /\ workers \in 1 .. MaxWorkers
        /\ next = 1 /\ running = {} /\ finished = <<>>
        /\ results = [i \in 1 .. points |-> None] /\ collected = <<>>
Take == /\ next <= points /\ Cardinality(running) < workers
        /\ running' = running \cup {next} /\ next' = next + 1
        /\ UNCHANGED <<points, workers, finished, results, collected>>
\* a free worker takes the next point at once
Finish(i) == /\ i \in running
             /\ next > points \/ Cardinality(running) = workers
             /\ running' = running \ {i}
             /\ finished' = Append(finished, i)
             /\ results' = [results EXCEPT ![i] = Value(i)]
             /\ UNCHANGED <<points, workers, next, collected>>
Collect == /\ Len(collected) < points
           /\ results[Len(collected) + 1] # None
           /\ collected' = Append(collected, results[Len(collected) + 1])
           /\ UNCHANGED <<points, workers, next, running, finished, results>>
Next == Take \/ (\E i \in running : Finish(i)) \/ Collect
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
TypeOk == running \cap {finished[i] : i \in 1 .. Len(finished)} = {} /\ Cardinality(running) <= workers
\* whatever the order of the workers, the values belong to their points
InOrder == \A i \in 1 .. Len(collected) : collected[i] = Value(i)
Ends == <>(Len(collected) = points)
Printed == Len(collected) = 0 /\ Len(finished) = points
           => PrintT(<<"RUN", ToJson([points |-> points, workers |-> workers, order |-> finished])>>)
=============================================================================
