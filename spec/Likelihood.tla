---------------------------- MODULE Likelihood ----------------------------
(* The belief machine of Filter for all individuals of a dataset at once.  *)
EXTENDS Filter, Panel

PredictAll(m, P, d, panel, t, bel) ==
    LET st == Step(m, P, t) IN
    TLCEval([n \in 1..Len(panel) |->
        Predict(m, st, bel[n], [o \in 1..Len(Observed(m)) |-> Cell(d, panel, n, t, Observed(m)[o])])])

(* One update: new belief, contribution and predictive distribution.       *)
UpdateOne(m, d, panel, n, bel, row, h, b, r) ==
    LET y == Meas(m, d, panel, n, row) IN
    IF Missing(y)
    THEN [b |-> bel, ll |-> "0", missing |-> TRUE, pred |-> << >>]
    ELSE LET g == Dot(b, [j \in 1..Len(Controls(m)) |-> Cell(d, panel, n, row.period, Controls(m)[j])])
             pred == Predictive(bel, y, h, g, r)
             ll == Contribution(bel, pred)
         IN [b |-> Posterior(bel, pred, ll, row.purpose), ll |-> ll, missing |-> FALSE, pred |-> pred]
UpdateAll(m, P, d, panel, bel, row) ==
    LET h == LoadingVector(m, P, row)
        b == ControlCoefs(m, P, row)
        r == MeasSd(P, row) IN
    TLCEval([n \in 1..Len(panel) |-> UpdateOne(m, d, panel, n, bel[n], row, h, b, r)])
Beliefs(res) == TLCEval([n \in 1..Len(res) |-> res[n].b])
=============================================================================
