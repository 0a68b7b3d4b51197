---------------------------- MODULE TraceDensity ----------------------------
(* Recorded distribution plots against Density.                             *)
EXTENDS Density, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c
Case == Cases[c]
Mod == Case.model

Clause(ok, name, detail) == IF ok THEN << >> ELSE <<name \o " @ " \o detail>>
OneOf(S) == IF S = {} THEN "" ELSE ToString(CHOOSE x \in S : TRUE)
Tol == "1E-6"
Same(a, b) == IsNum(a) /\ Leq(Abs(Sub(a, b)), Mul(Tol, Add("1E-9", Abs(b))))
Near(a, b) == IsNum(a) /\ Close(a, b, "1E-9")

(* The factors that are plotted.                                           *)
Selected ==
    IF Case.factors.given THEN Case.factors.list
    ELSE IF Case.observed THEN AllFactors(Mod) ELSE Latent(Mod)

(* The sample of a factor: states of the scenario, or the data.            *)
Sample(sc, panel, f) ==
    IF InSeq(f, Latent(Mod))
    THEN TLCEval([n \in 1..Len(sc.states) |-> sc.states[n][PosOf(f, Latent(Mod))]])
    ELSE TLCEval([n \in 1..Len(panel) |-> Cell(Case.data, panel, n, Case.period, f)])

(* One factor: the histograms, curves and rugs that were asked for, each   *)
(* one per scenario.                                                       *)
Curves1(p, kind) == SelectSeq(p.traces, LAMBDA t : t.kind = kind)
CurveFails(tr, s, name, where) ==
    LET k == Kernel1(s)
        lo == MinSeq(s)
        hi == MaxSeq(s)
        dens(x) == IF Case.curve_type = "kde" THEN Kde1(k, x) ELSE NormalFit(s, x)
        bad == {j \in 1..Len(tr.x) : ~Same(tr.y[j], dens(tr.x[j]))}
        out == {j \in 1..Len(tr.x) : ~(IsNum(tr.x[j]) /\ (Leq(lo, tr.x[j]) \/ Near(tr.x[j], lo)) /\ (Leq(tr.x[j], hi) \/ Near(tr.x[j], hi)))} IN
    Clause(tr.name = name, "density: label of the scenario", where \o tr.name \o " instead of " \o name)
    \o Clause(out = {} /\ Len(tr.x) >= 2 /\ Near(tr.x[1], lo), "density: range of the factor", where \o OneOf({<<tr.x[j], lo, hi>> : j \in out}))
    \o Clause(bad = {}, "density: value", where \o OneOf({<<tr.x[j], tr.y[j], dens(tr.x[j])>> : j \in bad}))
ValuesFails(tr, s, name, where) ==
    Clause(tr.name = name, "density: label of the scenario", where \o tr.name)
    \o Clause(Len(tr.x) = Len(s) /\ \A j \in 1..Len(s) : Near(TLCEval(SortNums(tr.x))[j], TLCEval(SortNums(s))[j]),
              "density: plotted values", where \o ToString(tr.x))

OneFails(p, samples) ==
    LET f == p.factor
        n == Len(Case.scenarios)
        some == {k \in 1..n : Flat(samples[k])}
        part(kind, on, Fails(_, _, _, _)) ==
            LET ts == Curves1(p, kind) IN
            IF Len(ts) # (IF on THEN n ELSE 0) THEN <<"density: one " \o kind \o " per scenario @ " \o f \o ": " \o ToString(Len(ts))>>
            ELSE Concat([k \in 1..Len(ts) |-> Fails(ts[k], samples[k], Case.scenarios[k].name, f \o ": ")]) IN
    Clause(p.xtitle = f, "density: axis title", p.xtitle)
    \o (IF some # {} THEN << >>
        ELSE part("curve", Case.show_curve, CurveFails) \o part("hist", Case.show_hist, ValuesFails) \o part("rug", Case.show_rug, ValuesFails))

(* Two factors.                                                            *)
GridOk(xs, n, s) == Len(xs) = n /\ \A j \in 1..n : Near(xs[j], GridPoint(MinSeq(s), MaxSeq(s), n, j))
ContourFails(tr, n, a, b, where) ==
    IF ~GridOk(tr.x, n, a) THEN <<"contours: grid of the first factor @ " \o where \o ToString(tr.x)>>
    ELSE IF ~GridOk(tr.y, n, b) THEN <<"contours: grid of the second factor @ " \o where \o ToString(tr.y)>>
    ELSE CHOOSE v \in {LET bad == {j \in 1..Len(tr.z) : ~Same(tr.z[j].v, Kde2(k, tr.x[tr.z[j].x], tr.y[tr.z[j].y]))} IN
                       Clause(bad = {}, "contours: density", where \o OneOf({<<tr.z[j], Kde2(k, tr.x[tr.z[j].x], tr.y[tr.z[j].y])>> : j \in bad})) :
                       k \in {Kernel2(a, b)}} : TRUE
PairFails(p, as, bs) ==
    LET where == p.first \o ", " \o p.second \o ": "
        good == SelectSeq([k \in 1..Len(Case.scenarios) |-> k], LAMBDA k : ~Flat2(as[k], bs[k])) IN
    Clause(p.xtitle = p.first /\ p.ytitle = p.second, "contours: axis titles", where \o p.xtitle \o "/" \o p.ytitle)
    \o (IF Len(good) # Len(Case.scenarios) THEN << >>
        ELSE IF Len(p.traces) # Len(good) THEN <<"contours: one per scenario @ " \o where \o ToString(Len(p.traces))>>
        ELSE Concat([k \in 1..Len(p.traces) |-> ContourFails(p.traces[k], Case.n_points, as[k], bs[k], where)]))

SurfaceFails(p, a, b) ==
    LET where == p.first \o ", " \o p.second \o ": " IN
    Clause(p.xtitle = (IF p.labels THEN p.first ELSE "") /\ p.ytitle = (IF p.labels THEN p.second ELSE ""), "surface: axis titles", where \o p.xtitle \o "/" \o p.ytitle)
    \o (IF Flat2(a, b) THEN << >>
        ELSE IF Len(p.traces) # 1 THEN <<"surface: missing @ " \o where>>
        ELSE LET tr == p.traces[1] IN
             Clause(tr.n = Case.n_points * Case.n_points /\ Near(tr.xmin, MinSeq(a)) /\ Near(tr.xmax, MaxSeq(a))
                    /\ Near(tr.ymin, MinSeq(b)) /\ Near(tr.ymax, MaxSeq(b)), "surface: grid", where)
             \o (CHOOSE v \in {LET bad == {j \in 1..Len(tr.z) : ~Same(tr.z[j].v, Kde2(k, tr.z[j].x, tr.z[j].y))} IN
                       Clause(bad = {}, "surface: density", where \o OneOf({<<tr.z[j], Kde2(k, tr.z[j].x, tr.z[j].y)>> : j \in bad})) :
                       k \in {Kernel2(a, b)}} : TRUE))

(* The combined figure.                                                    *)
NameIn(mapping, f) == Lookup(mapping, f, f)
DigestsOf(list, a, b) ==
    LET hits == {k \in 1..Len(list) : list[k].first = a /\ list[k].second = b} IN
    IF hits = {} THEN << >> ELSE list[CHOOSE k \in hits : TRUE].digests
FigureFails(f) ==
    IF f.error # "" THEN <<"combined figure fails @ " \o f.error>>
    ELSE LET n == Len(f.order)
             want(r, k) ==
                CASE r = k -> LET h == {j \in 1..Len(Case.single) : Case.single[j].factor = f.order[r]} IN Case.single[CHOOSE j \in h : TRUE].digests
                  [] r > k -> DigestsOf(Case.contours, f.order[k], f.order[r])
                  [] OTHER -> IF f.surfaces THEN SubSeq(DigestsOf(Case.surfaces, f.order[k], f.order[r]), 1, 1) ELSE << >>
             titled(e) ==
                LET r == e.row k == e.col IN
                r < k \/ e.digests = << >>
                \/ (e.xtitle = NameIn(f.mapping, f.order[k])
                    /\ e.ytitle = IF r = k THEN "Density" ELSE NameIn(f.mapping, f.order[r]))
             bad == {j \in 1..Len(f.cells) : LET e == f.cells[j] IN e.digests # want(e.row, e.col) \/ ~titled(e)} IN
         Clause(f.nrows = n /\ f.ncols = n /\ Len(f.cells) = n * n, "combined figure: rows and columns", ToString(<<f.nrows, f.ncols>>))
         \o Clause(bad = {}, "combined figure: place of the plots",
                   OneOf({<<f.cells[j].row, f.cells[j].col, f.cells[j].xtitle, f.cells[j].ytitle>> : j \in bad}))

PairsOf(list) == {<<list[k].first, list[k].second>> : k \in 1..Len(list)}
AllPairs == {<<a, b>> \in Range(Selected) \X Range(Selected) : a # b}
Judge(smp) ==
    LET of(f) == smp[PosOf(f, Selected)] IN
    (IF Case.single_error # "" THEN <<"densities fail @ " \o Case.single_error>>
     ELSE IF {Case.single[k].factor : k \in 1..Len(Case.single)} # Range(Selected) THEN <<"densities: selected factors @ " \o ToString(Selected)>>
     ELSE Concat([k \in 1..Len(Case.single) |-> OneFails(Case.single[k], of(Case.single[k].factor))]))
    \o (IF Case.contours_error # "" THEN <<"contours fail @ " \o Case.contours_error>>
        ELSE IF PairsOf(Case.contours) # AllPairs THEN <<"contours: pairs of factors @ " \o ToString(PairsOf(Case.contours))>>
        ELSE Concat([k \in 1..Len(Case.contours) |-> PairFails(Case.contours[k], of(Case.contours[k].first), of(Case.contours[k].second))]))
    \o (IF Case.surfaces_expect = "none" THEN << >>
        ELSE IF Case.surfaces_expect = "refused" THEN Clause(Case.surfaces_error # "", "surfaces of several scenarios are refused", "")
        ELSE IF Case.surfaces_error # "" THEN <<"surfaces fail @ " \o Case.surfaces_error>>
        ELSE IF PairsOf(Case.surfaces) # AllPairs THEN <<"surfaces: pairs of factors @ " \o ToString(PairsOf(Case.surfaces))>>
        ELSE Concat([k \in 1..Len(Case.surfaces) |-> SurfaceFails(Case.surfaces[k], of(Case.surfaces[k].first)[1], of(Case.surfaces[k].second)[1])]))
    \o Concat([k \in 1..Len(Case.figures) |-> FigureFails(Case.figures[k])])

Verdict ==
    CHOOSE v \in {Judge(smp) :
        smp \in {TLCEval([i \in 1..Len(Selected) |-> TLCEval([k \in 1..Len(Case.scenarios) |->
                    Sample(Case.scenarios[k], panel, Selected[i])])]) : panel \in {Panel(Mod, Case.data)}}} : TRUE

Init == c = 1
Next == /\ c <= Len(Cases)
        /\ PrintT("CASE " \o ToJson([id |-> Cases[c].id, fails |-> Verdict]))
        /\ c' = c + 1
Spec == Init /\ [][Next]_c
=============================================================================
