---------------------------- MODULE TraceCurves ----------------------------
(* Recorded transition plots against Curves.                                *)
EXTENDS Curves, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c
Case == Cases[c]
Mod == Case.model

Clause(ok, name, detail) == IF ok THEN << >> ELSE <<name \o " @ " \o detail>>
OneOf(S) == IF S = {} THEN "" ELSE ToString(CHOOSE x \in S : TRUE)
Tol == "1E-7"
Same(a, b) == IsNum(a) /\ Close(a, b, Tol)
NearlyEmpty(r) == Leq(Sub(r.max, r.min), Mul("1E-9", Add("1", Abs(r.min))))

GridFails(tr, r, n, where) ==
    Clause(Len(tr.x) = n /\ Len(tr.y) = n, "curve: number of points", where \o ToString(Len(tr.x)))
    \o (IF Len(tr.x) # n THEN << >> ELSE
        LET bad == {k \in 1..n : ~Same(tr.x[k], GridPoint(r.min, r.max, n, k))} IN
        Clause(bad = {}, "curve: grid of the input factor", where \o OneOf({<<k, tr.x[k], GridPoint(r.min, r.max, n, k)>> : k \in bad})))

(* One curve per quantile, in their order, labelled if there are several.  *)
QuantileFails(st, x, p, i, o, r, where) ==
    LET qs == Case.quantiles.list IN
    IF Len(p.traces) # Len(qs) THEN <<"plot: one curve per quantile @ " \o where \o ToString(Len(p.traces))>>
    ELSE Concat([k \in 1..Len(qs) |->
        LET tr == p.traces[k]
            s == AtQuantile(x, qs[k]) IN
        Clause(Len(qs) = 1 \/ Same(tr.name, qs[k]), "curve: label", where \o tr.name)
        \o GridFails(tr, r, Case.n_points, where)
        \o (IF Len(tr.y) # Len(tr.x) THEN << >> ELSE
            LET bad == {j \in 1..Len(tr.x) : ~Same(tr.y[j], CurveAt(Mod, st, o, i, tr.x[j], s))} IN
            Clause(bad = {}, "curve: value", where \o OneOf({<<qs[k], tr.x[j], tr.y[j], CurveAt(Mod, st, o, i, tr.x[j], s)>> : j \in bad})))])

(* The mean curve of some draw of individuals.                             *)
AverageFails(st, x, p, i, o, r, where) ==
    IF Len(p.traces) # 1 THEN <<"plot: one curve @ " \o where>>
    ELSE LET tr == p.traces[1] IN
         (IF NearlyEmpty(r) THEN Clause(Len(tr.x) \in 1..Case.n_points, "curve: number of points", where)
          ELSE GridFails(tr, r, Case.n_points, where))
         \o (IF Len(tr.y) # Len(tr.x) THEN << >> ELSE
             LET ok == CHOOSE v \in {\E S \in Draws(Len(x), Case.n_draws) :
                          \A j \in 1..Len(tr.x) :
                             Same(tr.y[j], Div(Sum(TLCEval([n \in 1..Len(x) |-> IF n \in S THEN each[n][j] ELSE "0"])), OfInt(Cardinality(S)))) :
                          each \in {TLCEval([n \in 1..Len(x) |-> TLCEval([j \in 1..Len(tr.x) |-> CurveAt(Mod, st, o, i, tr.x[j], x[n])])])}} : TRUE IN
             Clause(ok, "curve: mean over drawn individuals", where \o ToString(tr.y)))

PlotFails(st, x, p) ==
    LET all == AllFactors(Mod)
        i == PosOf(p.input, all)
        o == PosOf(p.output, Latent(Mod))
        r == RangeOf(x, Case.ranges, all, i)
        where == p.input \o " -> " \o p.output \o ": " IN
    Clause(p.xtitle = p.input /\ p.ytitle = p.output, "plot: axis titles", where \o p.xtitle \o "/" \o p.ytitle)
    \o (IF Case.quantiles.given THEN QuantileFails(st, x, p, i, o, r, where) ELSE AverageFails(st, x, p, i, o, r, where))

PlotsFails ==
    LET keys == {<<Case.plots[k].input, Case.plots[k].output>> : k \in 1..Len(Case.plots)}
        want == {<<a, b>> : a \in Range(AllFactors(Mod)), b \in Range(Latent(Mod))} IN
    IF keys # want \/ Len(Case.plots) # Cardinality(want) THEN <<"plots: one per input and output @ " \o ToString(keys)>>
    ELSE CHOOSE v \in {Concat([k \in 1..Len(Case.plots) |-> PlotFails(st, x, Case.plots[k])]) :
                  st \in {Step(Mod, Case.params, Case.period)},
                  x \in {Distribution(Mod, Case.data, Panel(Mod, Case.data), Case.period, Case.states)}} : TRUE

(* The combined figure: rows are output factors, columns input factors.    *)
NameIn(mapping, f) == Lookup(mapping, f, f)
Shapes(a, b) ==
    LET hits == {k \in 1..Len(Case.plots) : Case.plots[k].input = a /\ Case.plots[k].output = b} IN
    IF hits = {} THEN << >> ELSE Case.plots[CHOOSE k \in hits : TRUE].digests
FigureFails(f) ==
    IF f.error # "" THEN <<"combined figure fails @ " \o f.error>>
    ELSE IF f.nrows # Len(f.rows) \/ f.ncols # Len(f.columns) THEN <<"combined figure: rows and columns @ " \o ToString(<<f.nrows, f.ncols>>)>>
    ELSE LET bad == {k \in 1..Len(f.cells) :
                LET e == f.cells[k] IN
                ~(/\ e.digests = Shapes(f.columns[e.col], f.rows[e.row])
                  /\ e.xtitle = NameIn(f.mapping, f.columns[e.col])
                  /\ e.ytitle = IF e.col = 1 THEN NameIn(f.mapping, f.rows[e.row]) ELSE "")} IN
         Clause(bad = {} /\ Len(f.cells) = f.nrows * f.ncols, "combined figure: place of the curves",
                OneOf({<<f.cells[k].row, f.cells[k].col, f.cells[k].xtitle, f.cells[k].ytitle>> : k \in bad}))

Verdict ==
    IF Case.refused.expect
    THEN Clause(Case.refused.got, "period without transition is refused", ToString(Case.period))
    ELSE IF Case.error # "" THEN <<"transition plots fail @ " \o Case.error>>
    ELSE PlotsFails \o Concat([k \in 1..Len(Case.figures) |-> FigureFails(Case.figures[k])])

Init == c = 1
Next == /\ c <= Len(Cases)
        /\ PrintT("CASE " \o ToJson([id |-> Cases[c].id, fails |-> Verdict]))
        /\ c' = c + 1
Spec == Init /\ [][Next]_c
=============================================================================
