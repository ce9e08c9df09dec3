-------------------------------- MODULE Calls --------------------------------
(* Calls of the interface, for the finite models. *)
EXTENDS MC

HNewC(id, dim, edges, cols, w) ==
    [op |-> "h_new", id |-> id, dim |-> dim, bk |-> "edges", nb |-> [a \in 1 .. dim |-> Len(edges[a]) - 1],
     rng |-> [a \in 1 .. dim |-> <<edges[a][1], edges[a][Len(edges[a])]>>], edges |-> edges, hasdata |-> TRUE,
     cols |-> cols, hasw |-> TRUE, w |-> w, junk |-> FALSE, nonfin |-> FALSE]
HFillC(id, cols, w) ==
    [op |-> "h_fill", id |-> id, hasdata |-> TRUE, cols |-> cols, hasw |-> TRUE, w |-> w, junk |-> FALSE, nonfin |-> FALSE]
\* a histogram with given contents (the weights are booked at the bin centres)
HOf(id, edges, counts) == HNewC(id, 1, <<edges>>, <<Mids(edges)>>, counts)
HBinC(id, edges, counts) ==
    [op |-> "h_binned", id |-> id, edges |-> <<edges>>, counts |-> counts, haserr |-> FALSE, errs |-> <<>>]
HObs(id) == [op |-> "h_obs", id |-> id]
TNewC(id, h, name) == [op |-> "t_new", id |-> id, h |-> h, name |-> name]
TObs(id) == [op |-> "t_obs", id |-> id]
TSetP(id, v) == [op |-> "t_setparams", id |-> id, v |-> v]
TSetN(id, v) == [op |-> "t_setnui", id |-> id, v |-> v]
TSetY(id, v) == [op |-> "t_setyield", id |-> id, v |-> <<v>>]
TCov(id, m) == [op |-> "t_addcov", id |-> id, m |-> m]
TVar(id, x, up, dn) == [op |-> "t_addvar", id |-> id, cols |-> <<x>>, up |-> up, dn |-> dn]
TResetC(id) == [op |-> "t_reset", id |-> id]

MNewC(id) == [op |-> "m_new", id |-> id]
ChanC(m, name, nb, lo, hi) == [op |-> "m_chan", id |-> m, name |-> name, bins |-> <<nb>>, rng |-> << <<lo, hi>> >>]
Chan2C(m, name, nb, rng) == [op |-> "m_chan", id |-> m, name |-> name, bins |-> nb, rng |-> rng]
ProcC(m, name) == [op |-> "m_proc", id |-> m, name |-> name]
TemplC(m, chan, proc, t, eff) == [op |-> "m_templ", id |-> m, chan |-> chan, proc |-> proc, t |-> t, eff |-> eff]
DataC(m, data) == [op |-> "m_data", id |-> m, data |-> data]
ConstrC(m, proc, val, err) == [op |-> "m_constr", id |-> m, proc |-> proc, val |-> val, err |-> err]
SetYC(m, proc, v) == [op |-> "m_setyield", id |-> m, proc |-> proc, v |-> v]
GetYC(m, proc) == [op |-> "m_getyield", id |-> m, proc |-> proc]
UpdC(m, x) == [op |-> "m_update", id |-> m, x |-> x]
ResetC(m) == [op |-> "m_reset", id |-> m]
MObs(m) == [op |-> "m_obs", id |-> m]
RouteC(m, x) == [op |-> "m_route", id |-> m, x |-> x]
CountsC(m, chan, x) == [op |-> "m_counts", id |-> m, chan |-> chan, x |-> x]
AsimovC(m, int, pre) == [op |-> "m_asimov", id |-> m, int |-> int, pre |-> pre]
ToyC(m, pre, seed) == [op |-> "m_toy", id |-> m, pre |-> pre, seed |-> seed]
ChObs(m, chan) == [op |-> "ch_obs", m |-> m, chan |-> chan]
ChUpd(m, chan, ys, th) == [op |-> "ch_update", m |-> m, chan |-> chan, ys |-> ys, th |-> th]
ChRst(m, chan) == [op |-> "ch_reset", m |-> m, chan |-> chan]
ChNllC(m, chan, ys, th) == [op |-> "ch_nll", m |-> m, chan |-> chan, ys |-> ys, th |-> th]
IndexC(m, proc) == [op |-> "m_index", id |-> m, proc |-> proc]
NNewC(n, m) == [op |-> "n_new", id |-> n, m |-> m]
NObs(n) == [op |-> "n_obs", id |-> n]
CallC(n, x, p) == [op |-> "n_call", id |-> n, x |-> x, p |-> p]
PropC(m, chan, names, x, cov) == [op |-> "c_prop", m |-> m, chan |-> chan, names |-> names, x |-> x, cov |-> cov]
PlT(t) == [op |-> "pl_t", t |-> t]
PlStack(m, chan, mode, names, x, cov, err) ==
    [op |-> "pl_stack", m |-> m, chan |-> chan, mode |-> mode, names |-> names, x |-> x, cov |-> cov, err |-> err]
=============================================================================
