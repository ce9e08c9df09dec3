--------------------------------- MODULE MC ---------------------------------
(* Finite models: after the calls Setup the calls of Menu are made in any order,
   up to Depth of them.  Checked: the invariants and the laws of Props.  Every
   transition is printed as a path (indices into Menu, shortest path to the
   state, then the call), which becomes a test of the implementation; Finale are
   observations that are appended where they make sense.
   Full = TRUE: all sequences of calls are distinguished; FALSE: only states,
   together with the set of queries (calls without effect) made so far, at most
   Memory of them (an implementation may remember what it computed).          *)
EXTENDS Props, Json

CONSTANTS Setup, Menu, Finale, Depth, Full, Memory

VARIABLES k, path, asked
mvars == <<vars, k, path, asked>>

\* too short for any model: rejected
Short(x) == Len(x) = 2
\* the objects a call refers to exist, and those it makes do not
Ref(e) ==
    CASE e.op \in {"h_new", "h_binned"} -> e.id \notin DOMAIN H
      [] e.op = "h_proj" -> e.id \notin DOMAIN H /\ e.src \in DOMAIN H
      [] e.op \in {"h_fill", "h_obs"} -> e.id \in DOMAIN H
      [] e.op \in {"args", "scribble"} -> e.id \in DOMAIN H \cup DOMAIN T \cup DOMAIN LH \cup DOMAIN LT \cup DOMAIN LS
      [] e.op = "t_new" -> e.id \notin DOMAIN T /\ e.h \in DOMAIN H
      [] e.op \in {"t_obs", "t_frac", "t_addcov", "t_addvar", "t_setyield", "t_setnui", "t_setparams", "t_reset"} ->
            e.id \in DOMAIN T
      [] e.op = "m_new" -> e.id \notin DOMAIN M
      [] e.op \in {"m_chan", "m_proc", "m_constr", "m_setyield", "m_getyield", "m_index", "m_reset", "m_obs"} -> e.id \in DOMAIN M
      [] e.op = "ch_obs" -> e.m \in DOMAIN M
      [] e.op = "ch_reset" -> e.m \in DOMAIN M /\ ChanIdx(M[e.m], e.chan) # 0
      [] e.op \in {"ch_update", "ch_nll"} ->
            /\ e.m \in DOMAIN M
            /\ LET c == ChanIdx(M[e.m], e.chan) IN
               /\ c # 0
               /\ LET ch == M[e.m].chans[c] IN
                  /\ ch.ts # <<>> /\ Len(e.ys) = Len(ch.ts) /\ Len(e.th) = Len(ch.ts) * ChanBins(ch)
                  /\ e.op = "ch_nll" => ch.data # ""
      [] e.op = "m_templ" -> e.id \in DOMAIN M /\ e.t \in DOMAIN T
      [] e.op = "m_data" -> e.id \in DOMAIN M /\ \A i \in 1 .. Len(e.data) : e.data[i][2] \in DOMAIN H
      [] e.op \in {"m_update", "m_route"} -> e.id \in DOMAIN M /\ Complete(M[e.id]) /\ (Len(e.x) = NumPar(M[e.id]) \/ Short(e.x))
      [] e.op = "m_counts" -> e.id \in DOMAIN M /\ Complete(M[e.id]) /\ Len(e.x) = NumPar(M[e.id]) /\ ChanIdx(M[e.id], e.chan) # 0
      [] e.op \in {"m_asimov", "m_toy"} ->
            /\ e.id \in DOMAIN M
            /\ Len(M[e.id].chans) > 0
            /\ \A c \in 1 .. Len(M[e.id].chans) : /\ M[e.id].chans[c].ts # <<>>
                                                  /\ (e.pre \o M[e.id].chans[c].name) \notin DOMAIN H
      [] e.op = "n_new" -> e.id \notin DOMAIN N /\ e.m \in DOMAIN M
      [] e.op = "n_obs" -> e.id \in DOMAIN N /\ Complete(M[N[e.id]])
      [] e.op = "n_call" -> /\ e.id \in DOMAIN N /\ Len(e.x) = NumPar(M[N[e.id]])
                            /\ M[N[e.id]].chans # <<>>
                            /\ \A c \in 1 .. Len(M[N[e.id]].chans) : M[N[e.id]].chans[c].ts # <<>>
                            /\ NllDefined(M[N[e.id]], T, H, VNorm(e.x))
      [] e.op = "c_prop" -> e.m \in DOMAIN M /\ ChanIdx(M[e.m], e.chan) # 0 /\ Len(e.x) = NumPar(M[e.m])
      [] e.op = "p_new" -> e.id \notin DOMAIN P
      [] e.op \in {"p_setvals", "p_seterrs", "p_get", "p_obs"} -> e.id \in DOMAIN P
      [] e.op = "f_new" -> e.id \notin DOMAIN F /\ e.m \in DOMAIN M
      [] e.op \in {"f_fix", "f_bounds", "f_fixnui"} -> e.id \in DOMAIN F
      \* the start values lie within the bounds
      [] e.op \in {"f_fit", "f_failfit", "f_profile", "f_signif"} ->
            /\ e.id \in DOMAIN F /\ Complete(FModel(e))
            /\ SettingsOk(F[e.id], FNames(e)) =>
                 LET x0 == StartValues(FModel(e), T) bnd == FBound(e) fix == FFixed(e)
                     q == IF e.op = "f_profile" THEN ParIdx(FNames(e), e.par)
                          ELSE IF e.op = "f_signif" THEN ProcIdx(FModel(e), e.proc) ELSE 0
                 IN /\ \A i \in 1 .. Len(x0) : InBounds(bnd[i], x0[i], "0")
                    /\ q # 0 => ~fix[q] /\ ~HasBound(bnd[q])
      [] e.op = "f_result" -> e.id \in DOMAIN F /\ F[e.id].res # NoRes
      [] e.op = "z_new" -> e.id \notin DOMAIN Z
      [] e.op \in {"z_fix", "z_bounds", "z_release", "z_min"} -> e.id \in DOMAIN Z
      [] e.op = "y_new" -> e.id \notin DOMAIN Y /\ e.m \in DOMAIN M
      [] e.op \in {"y_run", "y_lin", "y_results", "y_pulls"} -> e.id \in DOMAIN Y
      [] e.op \in {"lh_new", "lh_binned"} -> e.id \notin DOMAIN LH
      [] e.op \in {"lh_fill", "lh_scale", "lh_obs"} -> e.id \in DOMAIN LH
      [] e.op = "lt_new" -> e.id \notin DOMAIN LT
      [] e.op \in {"lt_addcov", "lt_reset", "lt_set", "lt_obs"} -> e.id \in DOMAIN LT
      [] e.op = "ls_new" -> e.id \notin DOMAIN LS
      [] e.op = "ls_add" -> e.id \in DOMAIN LS /\ e.t \in DOMAIN LT
      [] e.op = "ls_create" -> e.id \in DOMAIN LS /\ e.t \notin DOMAIN LT
      [] e.op = "ls_update" -> e.id \in DOMAIN LS /\ LS[e.id].mem # <<>> /\ (Len(e.x) = Len(LS[e.id].mem) * (1 + LS[e.id].nb) \/ Short(e.x))
      [] e.op = "ls_reset" -> e.id \in DOMAIN LS
      [] e.op = "ls_obs" -> e.id \in DOMAIN LS
      [] e.op = "ln_call" -> e.id \in DOMAIN LS /\ LS[e.id].mem # <<>> /\ Len(e.x) = Len(LS[e.id].mem) * (1 + LS[e.id].nb)
      [] e.op = "ln_toystat" -> IF e.what = "t" THEN e.id \in DOMAIN LT ELSE e.id \in DOMAIN LS /\ LS[e.id].mem # <<>>
      [] e.op = "pl_lt" -> e.t \in DOMAIN LT
      [] e.op = "pl_ls" -> e.id \in DOMAIN LS /\ LS[e.id].mem # <<>>
      [] e.op \in {"pl_t", "pl_proj", "pl_2d"} -> e.t \in DOMAIN T
      [] e.op = "pl_stack" -> /\ e.m \in DOMAIN M /\ ChanIdx(M[e.m], e.chan) # 0
                              /\ M[e.m].chans[ChanIdx(M[e.m], e.chan)].ts # <<>>
      [] OTHER -> TRUE

Queries == {"h_obs", "t_obs", "t_frac", "m_getyield", "m_index", "m_obs", "ch_obs", "ch_nll", "m_route", "m_counts", "n_obs", "n_call", "c_prop", "p_get", "p_obs",
            "f_profile", "f_signif", "f_result", "z_min", "y_results", "y_pulls", "lh_obs", "lt_obs", "ls_obs", "ln_call",
            "pl_t", "pl_proj", "pl_2d", "pl_stack", "pl_lt", "pl_ls", "ln_toystat", "args"}
AsksFor(i) == Menu[i].op \in Queries \/ (Menu[i].op = "f_fit" /\ ~Menu[i].update)

\* the calls made so far
Made == SubSeq(Setup, 1, k) \o [q \in 1 .. Len(path) |-> Menu[path[q]]]

MCInit == Init /\ k = 0 /\ path = <<>> /\ asked = {}
Prepare == /\ k < Len(Setup)
           /\ Assert(Ref(Setup[k + 1]), Setup[k + 1])
           /\ Do(Setup[k + 1])
           /\ k' = k + 1
           /\ UNCHANGED <<path, asked>>
TailRef(j) == Ref(Finale[j])
Choose(i) == /\ k = Len(Setup)
             /\ Len(path) < Depth
             /\ Ref(Menu[i]) = TRUE           \* (a value, not an action with branches)
             /\ (AsksFor(i) /\ ~Full => (i \notin asked /\ Cardinality(asked) < Memory)) = TRUE
             /\ Do(Menu[i])
             /\ k' = k
             /\ path' = Append(path, i)
             /\ asked' = IF AsksFor(i) THEN asked \cup {i} ELSE asked
             /\ PrintT(<<"PATH", path', SelectSeq([j \in 1 .. Len(Finale) |-> j], LAMBDA j : TailRef(j)')>>)
MCNext == Prepare \/ \E i \in 1 .. Len(Menu) : Choose(i)
MCSpec == MCInit /\ [][MCNext]_mvars
MCView == IF Full THEN <<k, path, {}, vars>> ELSE <<k, <<>>, asked, vars>>

\* the calls are handed to the harness once
ASSUME PrintT(<<"CALLS", ToJson([setup |-> Setup, menu |-> Menu, tail |-> Finale])>>)

-----------------------------------------------------------------------------
(* Laws of single calls, as properties of all steps *)

CallOf == IF k' > k THEN Setup[k'] ELSE Menu[path'[Len(path')]]
\* queries and rejected calls change nothing
NoEffect == [][(CallOf.op \in Queries \/ Accept(CallOf) = "no") /\ CallOf.op # "y_run" => UNCHANGED vars]_mvars
\* what a call may change at most
Frame == [][
    /\ CallOf.op \notin {"h_new", "h_binned", "h_proj", "h_fill", "m_asimov", "m_toy", "y_run", "y_lin"} => H' = H
    /\ CallOf.op \notin {"t_new", "t_addcov", "t_addvar", "t_setyield", "t_setnui", "t_setparams", "t_reset", "m_setyield",
                         "m_update", "m_reset", "ch_update", "ch_reset", "f_fit", "y_lin"} => T' = T
    /\ CallOf.op = "f_fit" /\ ~CallOf.update => T' = T
    /\ CallOf.op \notin {"m_new", "m_chan", "m_proc", "m_templ", "m_data", "m_constr", "y_run", "y_lin"} => M' = M
    /\ DOMAIN H \subseteq DOMAIN H' /\ DOMAIN T \subseteq DOMAIN T' /\ DOMAIN M \subseteq DOMAIN M']_mvars
\* uncertainties only grow, and only by covariances and variations
CovLaw == [][\A t \in DOMAIN T : IF CallOf.op \in {"t_addcov", "t_addvar"} /\ CallOf.id = t /\ Accept(CallOf) = "yes"
                                 THEN Len(T'[t].covs) = Len(T[t].covs) + 1 /\ IsPrefix(T[t].covs, T'[t].covs)
                                 ELSE T'[t].covs = T[t].covs]_mvars
\* the shape of a template never changes
ShapeLaw == [][\A t \in DOMAIN T : T'[t].n = T[t].n /\ T'[t].edges = T[t].edges]_mvars
GeometryLaw == [][\A h \in DOMAIN H : H'[h].edges = H[h].edges /\ H'[h].shape = H[h].shape]_mvars
ResetLaw == [][CallOf.op = "t_reset" => T' = [T EXCEPT ![CallOf.id] = TReset(@)] /\ DEq(T'[CallOf.id].y, DSum(T[CallOf.id].n))]_mvars
\* after setting the yield of a process it is what was set, times the sum of efficiencies
YieldLaw == [][CallOf.op = "m_setyield" /\ Accept(CallOf) = "yes" /\ NoSharing(M[CallOf.id]) =>
                 /\ DClose(ProcYield(M[CallOf.id], T', CallOf.proc), DMul(CallOf.v, EffSum(M[CallOf.id], CallOf.proc)), "1e-28", "1e-28")
                 /\ \A p \in ToSet(M[CallOf.id].procs) \ {CallOf.proc} :
                      DEq(ProcYield(M[CallOf.id], T', p), ProcYield(M[CallOf.id], T, p))]_mvars
\* writing a vector and reading it back
UpdateLaw == [][CallOf.op = "m_update" /\ Accept(CallOf) = "yes" /\ NoSharing(M[CallOf.id]) =>
                 LET m == M[CallOf.id] s == StartValues(m, T') IN
                 \A i \in 1 .. NumPar(m) :
                    DClose(s[i], IF i <= Len(m.procs) THEN DMul(CallOf.x[i], EffSum(m, m.procs[i])) ELSE CallOf.x[i], "1e-28", "1e-28")]_mvars
\* writing a vector writes the channels, and nothing else, and resetting resets them
SliceLaw == [][CallOf.op \in {"m_update", "m_reset"} /\ Accept(CallOf) = "yes" =>
                 LET m == M[CallOf.id]
                     W(acc, c) == IF m.chans[c].ts = <<>> THEN acc
                                  ELSE IF CallOf.op = "m_update"
                                  THEN ChanUpdateT(m, c, acc, ChanYields(m, VNorm(CallOf.x), c), ChanNui(m, VNorm(CallOf.x), c))
                                  ELSE [t \in DOMAIN acc |-> IF \E q \in 1 .. Len(m.chans[c].ts) : m.chans[c].ts[q].t = t THEN TReset(acc[t]) ELSE acc[t]]
                 IN T' = FoldLeft(W, T, [c \in 1 .. Len(m.chans) |-> c])]_mvars
\* the channels and the constraints make up the likelihood
SumLaw == [][CallOf.op = "n_call" =>
                 LET m == M[N[CallOf.id]] x == VNorm(CallOf.x) IN
                 DClose(Nll(m, T, H, x),
                        DAdd(DSum([c \in 1 .. Len(m.chans) |->
                                ChNll(m, c, ChanYields(m, x, c), ChanNui(m, x, c)).v]), NllConstr(m, x)), "1e-25", "1e-25")]_mvars
\* the likelihood at given parameters does not depend on the stored ones
StoredLaw == [][CallOf.op \in {"t_setyield", "t_setnui", "t_setparams", "t_reset", "m_setyield", "m_update", "m_reset", "ch_update", "ch_reset", "m_asimov", "m_toy"} =>
                 \A m \in DOMAIN M : LET x == Probe(M[m]) IN
                    Usable(M[m], T, H, x) => DEq(Nll(M[m], T', H', x), Nll(M[m], T, H, x))]_mvars
\* a constraint adds exactly its own term
ConstraintLaw == [][CallOf.op = "m_constr" /\ Accept(CallOf) = "yes" =>
                 LET m == CallOf.id x == Probe(M[m]) IN
                    Usable(M[m], T, H, x) =>
                      DClose(NllConstr(M'[m], x),
                             DAdd(DSum(Tab(Len(M[m].constr), LAMBDA q : IF M[m].constr[q].proc = CallOf.proc THEN "0"
                                                                       ELSE ConstrTerm(M[m].constr[q], x, M[m]))),
                                  ConstrTerm([proc |-> CallOf.proc, val |-> CallOf.val, err |-> CallOf.err], x, M[m])),
                             "1e-28", "1e-28")]_mvars
Laws == NoEffect /\ Frame /\ CovLaw /\ ShapeLaw /\ GeometryLaw /\ ResetLaw /\ YieldLaw /\ UpdateLaw /\ SliceLaw /\ SumLaw /\ StoredLaw /\ ConstraintLaw

-----------------------------------------------------------------------------
(* Invariants that compare a state with the whole history *)

HistHistory == \A h \in DOMAIN H : BookedExactly(H[h], h, Made)
TmplHistory == \A t \in DOMAIN T : UncertaintiesOf(T[t], t, Made) /\ ParametersOf(t, Made)
=============================================================================
