------------------------------- MODULE Filter -------------------------------
(***************************************************************************)
(* The belief about the factors of one individual as a mixture of normals  *)
(*   [w : log weights, c : <<[m : mean, P : covariance]>>]                 *)
(* and its transitions: measurement update, anchoring update, prediction.  *)
(***************************************************************************)
EXTENDS Transition

InitialCov(m, P, k) ==
    LET n == NLatent(m)
        names == Latent(m) IN
    Gram(Mat(n, n, LAMBDA i, j : IF j > i THEN "0"
        ELSE Par(P, "initial_cholcovs", 0, Mixture(k), names[i] \o "-" \o names[j])))
InitialBelief(m, P) ==
    LET K == NMixtures(m) IN
    TLCEval([w |-> IF K = 1 THEN <<"0">>
                   ELSE Vec(K, LAMBDA k : LnOrInf(Par(P, "mixture_weights", 0, Mixture(k), "-"))),
             c |-> [k \in 1..K |->
                 [m |-> Vec(NLatent(m), LAMBDA i :
                            Par(P, "initial_states", 0, Mixture(k), Latent(m)[i])),
                  P |-> InitialCov(m, P, k)]]])

LogDensity(e, s2) ==        \* of N(0, s2) at e
    Half(Negate(Sum(<<Ln(Mul("2", Pi)), Ln(s2), Div(Sq(e), s2)>>)))

(* The measurement equation of a row: y = h'x + g + N(0, r^2).             *)
LoadingVector(m, P, row) ==
    Vec(NLatent(m), LAMBDA i :
        IF InSeq(Latent(m)[i], row.factors)
        THEN Par(P, "loadings", row.period, row.name, Latent(m)[i]) ELSE "0")
ControlCoefs(m, P, row) ==
    Vec(Len(Controls(m)), LAMBDA j : Par(P, "controls", row.period, row.name, Controls(m)[j]))
MeasSd(P, row) == Par(P, "meas_sds", row.period, row.name, "-")

(* Predictive distribution of the measurement per component: residual and  *)
(* its variance; Ph is kept for the update.                                *)
Predictive(b, y, h, g, r) ==
    TLCEval([k \in 1..Len(b.c) |->
        LET ph == MatVec(b.c[k].P, h) IN
        [e |-> Sub(y, Add(Dot(h, b.c[k].m), g)), s2 |-> Add(Dot(h, ph), Sq(r)), ph |-> ph]])

Contribution(b, pred) ==
    LogSumExp(Vec(Len(pred), LAMBDA k :
        IF b.w[k] = "-inf" THEN "-inf" ELSE Add(b.w[k], LogDensity(pred[k].e, pred[k].s2))))
PosteriorWeights(b, pred, total) ==
    Vec(Len(pred), LAMBDA k :
        IF b.w[k] = "-inf" THEN "-inf"
        ELSE Sub(Add(b.w[k], LogDensity(pred[k].e, pred[k].s2)), total))
PosteriorComponent(c, p) ==
    LET n == Len(c.m)
        gain == VScale(Div("1", p.s2), p.ph) IN
    [m |-> VAdd(c.m, VScale(p.e, gain)),
     P |-> Mat(n, n, LAMBDA i, j : Sub(c.P[i][j], Mul(gain[i], p.ph[j])))]

(* The anchoring outcome informs about the component but does not move it. *)
Posterior(b, pred, total, purpose) ==
    TLCEval([w |-> PosteriorWeights(b, pred, total),
             c |-> IF purpose = "anchoring" THEN b.c
                   ELSE [k \in 1..Len(pred) |-> PosteriorComponent(b.c[k], pred[k])]])

----------------------------------------------------------------------------
(* Unscented prediction to the next period; o: observed factors, st: Step. *)
SigmaPoints(m, c) ==
    LET n == NLatent(m)
        L == Chol(c.P)
        scale == Sqrt(Add(OfInt(n), SigmaScale(m))) IN
    TLCEval(<<c.m>> \o [j \in 1..n |-> VAdd(c.m, VScale(scale, Col(L, j)))]
             \o [j \in 1..n |-> VSub(c.m, VScale(scale, Col(L, j)))])
SigmaWeights(m) ==
    LET n == NLatent(m)
        total == Add(OfInt(n), SigmaScale(m)) IN
    TLCEval([i \in 1..(2 * n + 1) |-> IF i = 1 THEN Div(SigmaScale(m), total) ELSE Half(Div("1", total))])

PredictComponent(m, st, c, o) ==
    LET n == NLatent(m)
        pts == SigmaPoints(m, c)
        w == SigmaWeights(m)
        out == TLCEval([i \in 1..Len(pts) |-> NextStates(m, st, pts[i], o)])
        mean == Vec(n, LAMBDA f : Dot(w, Vec(Len(pts), LAMBDA i : out[i][f])))
        dev == TLCEval([i \in 1..Len(pts) |-> VSub(out[i], mean)])
        cov == Mat(n, n, LAMBDA f, g :
            Add(Sum([i \in 1..Len(pts) |-> Mul(w[i], Mul(dev[i][f], dev[i][g]))]),
                IF f = g THEN Sq(st.shock[f]) ELSE "0"))
    IN [m |-> mean, P |-> cov]
Predict(m, st, b, o) ==
    TLCEval([w |-> b.w, c |-> [k \in 1..Len(b.c) |-> PredictComponent(m, st, b.c[k], o)]])

(* Mean of the mixture                                                     *)
MixtureMean(b) ==
    Vec(Len(b.c[1].m), LAMBDA f : Sum([k \in 1..Len(b.c) |->
        IF b.w[k] = "-inf" THEN "0" ELSE Mul(Exp(b.w[k]), b.c[k].m[f])]))

----------------------------------------------------------------------------
(* Soft clipping of contributions                                          *)
SoftMax(a, b, h) == Div(LogSumExp(<<Mul(h, a), Mul(h, b)>>), h)
Clipped(m, x) ==
    LET lo == Option(m, "clipping_lower_bound", "-1E250")
        hi == Option(m, "clipping_upper_bound", "none")
        lh == Option(m, "clipping_lower_hardness", "1")
        hh == Option(m, "clipping_upper_hardness", "1")
        y == IF lo = "none" THEN x ELSE SoftMax(x, lo, lh)
    IN IF hi = "none" THEN y ELSE Negate(SoftMax(Negate(y), Negate(hi), hh))
=============================================================================
