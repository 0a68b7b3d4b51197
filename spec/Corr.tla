-------------------------------- MODULE Corr --------------------------------
(***************************************************************************)
(* Correlations of measurements and scores, and the picture of them.       *)
(* A variable is [label, x] where x[n] is the value of the n-th individual *)
(* (a numeral or "nan").                                                   *)
(***************************************************************************)
EXTENDS Panel, Dec

(* A selection is [kind : "all"/"one"/"list", list : names or periods].    *)
SelLatent(m, sel) ==
    IF sel.kind = "all" THEN Latent(m) ELSE SelectSeq(sel.list, LAMBDA f : InSeq(f, Latent(m)))
SelObserved(m, sel) ==
    IF sel.kind = "all" THEN Observed(m) ELSE SelectSeq(sel.list, LAMBDA f : ~InSeq(f, Latent(m)) /\ InSeq(f, Observed(m)))
SelPeriods(m, sel) == IF sel.kind = "all" THEN [k \in 1..NPeriods(m) |-> k - 1] ELSE sel.list

(* Values of a column of the data in a period.                             *)
Values(d, panel, t, var) == TLCEval([n \in 1..Len(panel) |-> Cell(d, panel, n, t, var)])

Present(x) == SelectSeq(x, LAMBDA v : ~Missing(v))
Mean(s) == Div(Sum(s), OfInt(Len(s)))
SumSq(s, mu) == Sum([i \in 1..Len(s) |-> Sq(Sub(s[i], mu))])
(* Mean of what is there, missing if nothing is.                           *)
MeanPresent(s) == IF Present(s) = << >> THEN "nan" ELSE Mean(Present(s))

Standardized(x) ==
    LET s == Present(x) IN
    IF Len(s) < 2 THEN [n \in 1..Len(x) |-> "nan"]
    ELSE CHOOSE r \in {TLCEval([n \in 1..Len(x) |->
                          IF Missing(x[n]) \/ Leq(v, "0") THEN "nan" ELSE Div(Sub(x[n], mu), Sqrt(v))]) :
                       mu \in {Mean(s)}, v \in {Div(SumSq(s, Mean(s)), OfInt(Len(s) - 1))}} : TRUE

(* Average over several vectors, individual by individual.                 *)
Average(vs, N) == TLCEval([n \in 1..N |-> MeanPresent([i \in 1..Len(vs) |-> vs[i][n]])])

(* A measurement counts for the score if it has one loading only.          *)
NonzeroLoadings(m, P, t, y) ==
    {f \in Range(MeasuredBy(m, t, y)) : ~Eq(P[Key(<<"loadings", t, y, f>>)], "0")}
OwnMeas(m, P, t, f) ==
    SelectSeq(Dedup(MeasOf(Factor(m, f), t)), LAMBDA y : Cardinality(NonzeroLoadings(m, P, t, y)) <= 1)

(* The factor's measurements in the order in which the period lists them.  *)
MeasIn(m, t, f) == SelectSeq(PeriodMeas(m, t), LAMBDA y : InSeq(y, MeasOf(Factor(m, f), t)))

Score(m, P, d, panel, t, f, y) ==
    LET a == P[Key(<<"controls", t, y, "constant">>)]
        l == P[Key(<<"loadings", t, y, f>>)]
        x == Values(d, panel, t, y) IN
    TLCEval([n \in 1..Len(x) |-> IF Missing(x[n]) THEN "nan" ELSE Div(Sub(x[n], a), l)])

Suffix(ps, t) == IF Len(ps) = 1 THEN "" ELSE ", " \o ToString(t)

VariablesOf(m, P, d, panel, fn, t, lat, obs, suffix) ==
    LET own(f) == CASE fn = "measurements" -> MeasIn(m, t, f)
                    [] fn = "quasi" -> MeasIn(m, t, f)
                    [] OTHER -> OwnMeas(m, P, t, f)
        one(f) ==
            LET ys == own(f) IN
            IF fn = "measurements"
            THEN [i \in 1..Len(ys) |-> [label |-> ys[i] \o suffix, x |-> Values(d, panel, t, ys[i])]]
            ELSE <<[label |-> f \o suffix,
                    x |-> Average(TLCEval([i \in 1..Len(ys) |->
                              IF fn = "quasi" THEN Standardized(Values(d, panel, t, ys[i]))
                              ELSE Score(m, P, d, panel, t, f, ys[i])]), Len(panel))]>>
    IN Concat([i \in 1..Len(lat) |-> one(lat[i])])
       \o [i \in 1..Len(obs) |-> [label |-> obs[i] \o suffix, x |-> Values(d, panel, t, obs[i])]]

Variables(m, P, d, panel, fn, facs, pers) ==
    LET ps == SelPeriods(m, pers)
        lat == SelLatent(m, facs)
        obs == SelObserved(m, facs) IN
    TLCEval(Concat([i \in 1..Len(ps) |->
        TLCEval(VariablesOf(m, P, d, panel, fn, ps[i], lat, obs, Suffix(ps, ps[i])))]))

(* Pearson correlation over the individuals with both values; missing if   *)
(* one of them does not vary over those, "any" if that cannot be decided   *)
(* in floating point.                                                      *)
Pearson(x, y) ==
    LET both == SelectSeq([n \in 1..Len(x) |-> n], LAMBDA n : ~Missing(x[n]) /\ ~Missing(y[n])) IN
    IF Len(both) < 1 THEN "nan"
    ELSE LET a == TLCEval([i \in 1..Len(both) |-> x[both[i]]])
             b == TLCEval([i \in 1..Len(both) |-> y[both[i]]]) IN
         CHOOSE r \in {IF Eq(va, "0") \/ Eq(vb, "0")
                       THEN (IF Len(both) = 1 THEN "nan" ELSE "any")
                       ELSE IF Lt(va, Mul("1E-18", Add("1", Sq(ma)))) \/ Lt(vb, Mul("1E-18", Add("1", Sq(mb))))
                       THEN "any"
                       ELSE Div(Sum([i \in 1..Len(a) |-> Mul(Sub(a[i], ma), Sub(b[i], mb))]), Sqrt(Mul(va, vb))) :
                       ma \in {Mean(a)}, mb \in {Mean(b)}, va \in {SumSq(a, Mean(a))}, vb \in {SumSq(b, Mean(b))}} : TRUE

CorrTable(vs) == TLCEval([i \in 1..Len(vs) |-> TLCEval([j \in 1..Len(vs) |-> Pearson(vs[i].x, vs[j].x)])])

----------------------------------------------------------------------------
(* The heatmap of a table: which cells are visible.                        *)
Shown(o, i, j) ==
    \/ j < i
    \/ j > i /\ o.upper
    \/ i = j /\ o.diagonal
(* With trimming, rows without any visible number go first, then columns.  *)
Filled(o, tab, i, j) == Shown(o, i, j) /\ tab[i][j] # "nan"
KeptRows(o, tab) ==
    SelectSeq([i \in 1..Len(tab) |-> i],
        LAMBDA i : ~o.trim \/ \E j \in 1..Len(tab) : Filled(o, tab, i, j))
KeptCols(o, tab) ==
    LET rows == KeptRows(o, tab) IN
    SelectSeq([j \in 1..Len(tab) |-> j],
        LAMBDA j : ~o.trim \/ \E k \in 1..Len(rows) : Filled(o, tab, rows[k], j))
(* v is c rounded to n decimals.                                           *)
PowTen(n) == CASE n = 0 -> "1" [] n = 1 -> "10" [] n = 2 -> "100" [] n = 3 -> "1000" [] OTHER -> "10000"
IsRounded(v, c, n) ==
    /\ IsNum(v) /\ IsNum(c)
    /\ Leq(Abs(Sub(v, c)), Add(Div("0.5", PowTen(n)), "1E-9"))
    /\ LET s == Mul(v, PowTen(n)) IN Close(s, RoundTo(s, 0), "1E-9")
=============================================================================
