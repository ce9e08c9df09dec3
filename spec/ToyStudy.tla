------------------------------ MODULE ToyStudy ------------------------------
(* A toy study, attempt by attempt.  Each experiment draws data and fits them;
   either may fail, then the experiment is repeated, at most Max times, before
   the study is given up.  Checked against the definition ToyCourse that the
   traces of the implementation are held to.  Every finished study is printed
   and becomes a test.                                                        *)
EXTENDS ToyCore, TLC, Json, FiniteSets
CONSTANTS MaxN, MaxTries
VARIABLES n, max, course, good, tries, state
vars == <<n, max, course, good, tries, state>>
Outcomes == {"ok", "gen", "fit"}
Init == /\ n \in 1 .. MaxN /\ max \in 1 .. MaxTries
        /\ course = <<>> /\ good = <<>> /\ tries = 0 /\ state = "running"
Succeed == /\ state = "running"
           /\ course' = Append(course, "ok")
           /\ good' = Append(good, Len(course) + 1)
           /\ tries' = 0
           /\ state' = IF Len(good) + 1 = n THEN "done" ELSE "running"
           /\ UNCHANGED <<n, max>>
Fail(kind) == /\ state = "running"
              /\ course' = Append(course, kind)
              /\ tries' = tries + 1
              /\ state' = IF tries + 1 = max THEN "given up" ELSE "running"
              /\ UNCHANGED <<n, max, good>>
Report == state # "running" /\ state' = state /\ UNCHANGED vars
Next == Succeed \/ Fail("gen") \/ Fail("fit")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Plan == [a \in 1 .. Len(course) |-> course[a] # "ok"]
TypeOk == /\ tries \in 0 .. max /\ Len(good) \in 0 .. n /\ Len(course) <= n * max
          /\ \A i \in 1 .. Len(good) : course[good[i]] = "ok"
\* the definition agrees with the machine, and uses no attempt more or less
Agrees == LET c == ToyCourse(n, max, Plan, 0, <<>>) IN
    /\ state = "done" => c = [ok |-> TRUE, used |-> Len(course), good |-> good]
    /\ state = "given up" => c = [ok |-> FALSE, used |-> Len(course), good |-> good]
\* one attempt succeeded per experiment, none is counted twice
OnePerExperiment == /\ \A i, j \in 1 .. Len(good) : i < j => good[i] < good[j]
                    /\ state = "done" => /\ Len(good) = n
                                         /\ Cardinality({a \in 1 .. Len(course) : course[a] = "ok"}) = n
Ends == <>(state # "running")
\* printed once per finished study
Printed == state = "running" \/ PrintT(<<"RUN", ToJson([n |-> n, max |-> max, kinds |-> course])>>)
=============================================================================
