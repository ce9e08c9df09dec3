------------------------------- MODULE Trace -------------------------------
(* Conformance: every recorded call of every recorded trace has to be explained
   by the specification.  The verdict is total: a clause that fails is printed
   as JSON and the trace goes on; only after a call that was accepted or
   rejected wrongly the rest of the trace is skipped (dead).
   The file traces.json holds a sequence of traces, a trace is a sequence of
   calls.                                                                     *)
EXTENDS Expect, Json

CONSTANTS File,   \* name of the file
          Marks   \* TRUE: print the position before every call
Traces == JsonDeserialize(File)

VARIABLES tid, l, dead
tvars == <<vars, tid, l, dead>>

TraceInit == Init /\ tid \in 1 .. Len(Traces) /\ l = 1 /\ dead = FALSE

Ev == Traces[tid][l]

Report(p, clause, exp, e, v) ==
    PrintT(<<"FAIL", ToJson([t |-> tid, l |-> l, op |-> e.op, p |-> SetToSeq(p), f |-> clause, e |-> exp, v |-> v])>>)

Judge(e, cs, extra) ==
    (\A i \in 1 .. Len(cs) :
        IF Holds(cs[i], e.out.val) THEN TRUE
        ELSE Report(cs[i].p \cup extra, cs[i].f, cs[i].e, e,
                    IF cs[i].f \in DOMAIN e.out.val THEN e.out.val[cs[i].f] ELSE "?")) = TRUE

\* Properties of the past: what a call shows also tells whether earlier calls had
\* no effect.
Before(Q(_)) == \E q \in 1 .. l - 1 : Q(Traces[tid][q])
Registers == {"m_proc", "m_templ", "m_data", "m_constr", "m_setyield"}
After(e) ==
    CASE \* scans, significances and failed fits leave the settings alone
         e.op \in {"f_fit", "f_profile", "f_signif"} ->
            IF Before(LAMBDA d : d.op \in {"f_profile", "f_signif", "f_failfit"} /\ d.id = e.id) THEN {"F03"} ELSE {}
         \* a template is touched by nothing but its own calls
      [] e.op \in {"t_obs", "t_setyield", "t_setnui", "t_setparams", "t_reset"} -> {"T04"}
         \* rejected registrations leave nothing behind
      [] e.op \in {"m_obs", "n_call", "m_update", "m_templ", "m_data", "m_constr", "m_setyield"} ->
            LET m == IF e.op = "n_call" THEN N[e.id] ELSE e.id
            IN IF Before(LAMBDA d : d.op \in Registers /\ d.id = m /\ ~d.out.ok) THEN {"M01"} ELSE {}
      [] OTHER -> {}

\* accepted (rejected) although it must not be
Surprise(e) == LET a == Accept(e)
               IN \/ a = "yes" /\ ~e.out.ok
                  \/ ~e.out.ok /\ e.out.err \in {"OpTimeout", "Died"}
                  \/ a = "no" /\ e.out.ok
                  \/ a = "failure" /\ ~e.out.ok /\ e.out.err \notin {"RuntimeError", "LinAlgError"}

Step ==
    /\ l <= Len(Traces[tid])
    /\ l' = l + 1
    /\ tid' = tid
    /\ IF Marks /\ ~dead THEN PrintT(<<"AT", ToJson([t |-> tid, l |-> l, op |-> Ev.op, p |-> SetToSeq(CallProps(Ev))])>>) ELSE TRUE
    /\ LET e == Ev IN
       IF dead THEN UNCHANGED <<vars, dead>>
       ELSE IF Surprise(e) THEN
            /\ Report(CallProps(e) \cup After(e), IF e.out.ok THEN "must be rejected" ELSE "must be accepted", "", e, e.out.exc)
            /\ dead' = TRUE
            /\ UNCHANGED vars
       ELSE IF ~e.out.obs THEN
            /\ Report(CallProps(e) \cup RejectProps(e), "observable", "", e, e.out.exc)
            /\ dead' = TRUE
            /\ UNCHANGED vars
       ELSE /\ dead' = FALSE
            /\ Do(e)
            /\ IF e.out.ok THEN Judge(e, Expected(e), After(e))
               ELSE Judge(e, AfterReject(e), RejectProps(e) \cup After(e))

TraceNext == Step
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == <<tid, l>>
=============================================================================
