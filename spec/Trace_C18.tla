------------------------------ MODULE Trace_C18 ------------------------------
(* C18: what is recorded of each iteration, the rule that ends them, and the    *)
(* functions behind what is saved.                                              *)
EXTENDS Iterate, ContModel, TraceLib
\* --- one update of the mean continuum (u: x, old, new, err, stack, std,
\* order, residual)
Filled(u) ==                \* empty bins: the mean, with ten times the error
  LET G == {i \in DOMAIN u.std : NPos(u.std[i])}
      mean(v) == NDiv(NSum([i \in DOMAIN v |-> IF i \in G THEN v[i] ELSE "0"]),
                      Cardinality(G))
      my == TLCEval(mean(u.stack))
      ms == TLCEval(NMul(10, mean(u.std))) IN
  [y |-> TLCEval([i \in DOMAIN u.std |-> IF i \in G THEN u.stack[i] ELSE my]),
   s |-> TLCEval([i \in DOMAIN u.std |-> IF i \in G THEN u.std[i] ELSE ms]),
   G |-> G]
NormOne(x, y) == NNear(Integral(x, y), 1, "1e-7")
UpdateFails(u) ==
  LET f == TLCEval(Filled(u))
      n == Len(u.new)
      div(v) == IF u.residual THEN TLCEval([i \in DOMAIN v |->
                                              NDiv(v[i], u.old[i])]) ELSE v
      basis == TLCEval(<< div(u.new) >> \o [j \in 1..u.order |->
                 div([i \in DOMAIN u.x |-> Legendre(j, u.x[i])])])
      raw == TLCEval([i \in DOMAIN u.new |-> IF u.residual
                        THEN NMul(f.y[i], u.old[i]) ELSE f.y[i]])
      m == TLCEval(NAbs(Integral(u.x, raw)))
      B == NDiv(NSum([j \in 1..u.order |-> NAbs(Component(u.x, raw, j))]), m)
      F == Fit(basis, f.y, f.s)
      k == CHOOSE i \in f.G : TRUE IN
  Cl("unit_mean", NormOne(u.x, u.new))
  \cup Cl("no_polynomial_component", \A j \in 1..u.order :
       NLe(NAbs(Component(u.x, u.new, j)),
           NAdd(NMul("0.06", B), "0.004")))
  \cup Cl("follows_the_stack",
       NLe(F.q, NMul(n, "1.05")))
  \cup Cl("errors_of_the_stack", \A i \in f.G :
       NNear(NMul(u.err[i], f.s[k]), NMul(u.err[k], f.s[i]), "1e-9")
       /\ NLe(NAbs(NSub(NMul(u.err[i], F.c[1]), f.s[i])),
              NMul("0.12", f.s[i])))
Upd(e) ==
  IF e.out # "ok" THEN {"update_completes"} ELSE
  UpdateFails(e.u)
  \cup Cl("all_processes_agree", \A r \in DOMAIN e.conv :
            e.conv[r] = e.conv[1] /\ e.news[r] = e.news[1])
  \cup LET v == Verdict(Change(e.u.old, e.u.new, e.u.err)) IN
       Cl("convergence", v = "?" \/ e.conv[1] = (v = "yes"))
\* --- runs of the same survey with different numbers of iterations.  A run:
\* n (requested), cont (sequence of [name, w, m, err, stack, std] in file
\* order), var (sequence of [name, w, v, ev, h, eh]), ents (saved spectra)
Name(i) == ToString(i)
IsNum(s) == s \in {Name(i) : i \in 1..40}
Iters(q) == {i \in 1..40 : \E j \in DOMAIN q : q[j].name = Name(i)}
Named(q, s) == q[CHOOSE j \in DOMAIN q : q[j].name = s]
Count(q, s) == Cardinality({j \in DOMAIN q : q[j].name = s})
\* numbered from one, then the final ones, then the reference
Names(k, ref) == [i \in 1..k |-> Name(i)] \o << "final" >> \o
                 (IF ref THEN << "fit" >> ELSE << >>)
NamesOf(q) == [i \in DOMAIN q |-> q[i].name]
AsTable(w, f) == [x0 |-> w[1], dx |-> NSub(w[2], w[1]), f |-> f]
\* the mean continuum before and after iteration i
After(r, i) == r.cont[i + 1]
U(e, x, o, c) == [x |-> x, old |-> o.m, new |-> c.m, err |-> c.err,
   stack |-> c.stack, std |-> c.std, order |-> e.order,
   residual |-> e.residual]
Conv(r, i) == Verdict(Change(r.cont[i].m, r.cont[i + 1].m, r.cont[i + 1].err))
SameSeq(a, b, tol) == /\ Len(a) = Len(b)
                      /\ \A i \in DOMAIN a : NNear(a[i], b[i], tol)
SameCont(a, b) == SameSeq(a.m, b.m, "1e-7")
SameVar(a, b) == SameSeq(a.v, b.v, "1e-7") /\ SameSeq(a.h, b.h, "1e-7")
StructFails(e, r) ==
  LET k == Len(r.cont) - (IF e.fid THEN 2 ELSE 1) IN
  IF k < 1 \/ NamesOf(r.cont) # Names(k, e.fid)
  THEN {"iterations_numbered_from_one"}
  ELSE Cl("variance_functions_recorded",
     NamesOf(r.var) = (IF e.fid THEN << "fit" >> ELSE Names(k, FALSE)))
RunFails(e, r) ==
  LET k == Len(r.cont) - (IF e.fid THEN 2 ELSE 1)
      x == XOf(r.cont[1].w) IN
  UNION {UpdateFails(TLCEval(U(e, x, r.cont[i], r.cont[i + 1]))) : i \in 1..k}
  \cup Cl("starts_flat", \A i \in DOMAIN r.cont[1].m :
            NNear(r.cont[1].m[i], 1, "1e-12"))
  \cup Cl("at_most_the_requested_number", k <= r.n)
  \cup Cl("stops_only_at_convergence_or_the_end",
          k = r.n \/ Conv(r, k) \in {"yes", "?"})
  \cup Cl("stops_at_convergence", \A i \in 1..(k - 1) :
            Conv(r, i) \in {"no", "?"})
  \cup (IF e.fid THEN {} ELSE
        Cl("initial_variance", \A i \in DOMAIN r.var[1].v :
             NNear(r.var[1].v[i], "0.1", "1e-12")
             /\ NNear(r.var[1].h[i], 1, "1e-12"))
        \cup Cl("eta_fitted_only_if_asked", e.eta \/
               \A j \in DOMAIN r.var : \A i \in DOMAIN r.var[j].h :
                 NNear(r.var[j].h[i], 1, "1e-12")))
\* the functions behind what is saved: those of the last iteration, those of
\* weights set afterwards the final ones
Behind(e, r) ==
  LET k == Len(r.cont) - (IF e.fid THEN 2 ELSE 1)
      v == IF e.fid THEN [v |-> e.V, h |-> e.H]
           ELSE IF e.late THEN r.var[k + 1] ELSE r.var[k] IN
  [M |-> AsTable(r.cont[k].w, r.cont[k].m), F |-> e.F,
   V |-> IF e.fid THEN [kind |-> "linear", t |-> e.V]
         ELSE [kind |-> "cubic", t |-> AsTable(v.w, v.v)],
   H |-> IF e.fid THEN e.H ELSE AsTable(v.w, v.h)]
EntFails(e, c, d) ==
  LET one(i) ==
        LET w == d.lam[i]
            lrf == NDiv(w, NAdd(1, d.z))
            t == Coord(c, lrf)
            C == NMul(NMul(CubEval(c.M, c.Mm, lrf), LinEval(c.F, w)),
                      Horner(d.x, t, 1))
            wt == NDiv(d.ivar[i], NAdd(Eta(c, w), NMul(d.ivar[i],
                                                       Var(c, w)))) IN
        (IF e.residual /\ NPos(d.ivar[i])
            /\ ~NNear(d.cont[i], C, "2e-5") THEN {"saved_continuum"} ELSE {})
        \cup (IF NNear(d.weight[i], wt, "1e-6") THEN {} ELSE {"saved_weights"})
  IN UNION {one(i) : i \in DOMAIN d.lam}
SavedFails(e, r) ==
  LET c == Prepared(Behind(e, r)) IN
  UNION {EntFails(e, c, r.ents[j]) : j \in DOMAIN r.ents}
\* the recorded state of an iteration is the same however many follow
AcrossFails(e) ==
  LET k(r) == Len(r.cont) - (IF e.fid THEN 2 ELSE 1)
      R == e.runs IN
  UNION {UNION {
    Cl("iteration_does_not_depend_on_the_number",
       \A j \in 1..(IF k(R[a]) < k(R[b]) THEN k(R[a]) + 1 ELSE k(R[b]) + 1) :
          /\ SameCont(R[a].cont[j], R[b].cont[j])
          /\ (e.fid \/ SameVar(R[a].var[j], R[b].var[j])))
    \cup Cl("longer_only_if_not_converged",
       k(R[a]) = k(R[b]) \/ k(R[a]) = R[a].n \/ k(R[b]) = R[b].n)
    : b \in (a + 1)..Len(R)} : a \in DOMAIN R}
Runs(e) ==
  IF e.out # "ok" THEN {"run_completes"} ELSE
  LET S == UNION {StructFails(e, e.runs[r]) : r \in DOMAIN e.runs} IN
  IF S # {} THEN S ELSE
  UNION {RunFails(e, e.runs[r]) \cup SavedFails(e, e.runs[r])
         : r \in DOMAIN e.runs}
  \cup AcrossFails(e)
  \cup Cl("something_saved", \A r \in DOMAIN e.runs : e.runs[r].ents # << >>)
RS == INSTANCE RunStats
Fails(e) ==
  CASE e.k = "crash" -> {"enabled_step_raises"}
    [] e.k = "table" -> RS!RunStatsFails(e)
    [] e.k = "update" -> Upd(e)
    [] e.k = "runs" -> Runs(e)
    [] OTHER -> {"unknown"}
TraceSpec == TraceInit /\ [][TraceNext(Fails)]_<<l, bad>>
=============================================================================
