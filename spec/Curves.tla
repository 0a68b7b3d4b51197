------------------------------- MODULE Curves -------------------------------
(***************************************************************************)
(* Plots of transition functions.  The distribution of the factors in a    *)
(* period is x[n][i]: the value of factor i of individual n, latent        *)
(* factors anchored.                                                       *)
(***************************************************************************)
EXTENDS Panel, Transition

RECURSIVE Insert(_, _)
Insert(v, s) == IF s = << >> THEN <<v>> ELSE IF Leq(v, Head(s)) THEN <<v>> \o s ELSE <<Head(s)>> \o Insert(v, Tail(s))
RECURSIVE SortNums(_)
SortNums(s) == IF s = << >> THEN << >> ELSE Insert(Head(s), SortNums(Tail(s)))

(* Quantile q of a sample, interpolated between order statistics.          *)
Quantile(s, q) ==
    LET pos == Mul(OfInt(Len(s) - 1), q)
        lo == Floor(pos) IN
    IF lo + 1 >= Len(s) THEN s[Len(s)]
    ELSE Add(s[lo + 1], Mul(Sub(pos, OfInt(lo)), Sub(s[lo + 2], s[lo + 1])))

(* Point k of n evenly spaced ones from lo to hi.                          *)
GridPoint(lo, hi, n, k) == IF n = 1 THEN lo ELSE Add(lo, Mul(Sub(hi, lo), Div(OfInt(k - 1), OfInt(n - 1))))

Column(x, i) == [n \in 1..Len(x) |-> x[n][i]]

(* All factors of everybody in a period.                                   *)
Distribution(m, d, panel, t, states) ==
    LET nl == NLatent(m)
        obs == Observed(m) IN
    TLCEval([n \in 1..Len(states) |-> TLCEval([i \in 1..(nl + Len(obs)) |->
        IF i <= nl THEN states[n][i] ELSE Cell(d, panel, n, t, obs[i - nl])])])

(* Range of the input factor: given, or that of the individuals.           *)
RangeOf(x, ranges, all, i) ==
    IF ranges.given THEN ranges.list[i]
    ELSE [min |-> MinSeq(Column(x, i)), max |-> MaxSeq(Column(x, i))]

(* Value of output factor o with input factor i at v and others as in s.   *)
CurveAt(m, st, o, i, v, s) ==
    TransValue(st.all, m.factors[o], st.q[o], TLCEval([s EXCEPT ![i] = v]))

(* Others fixed at a quantile, in the period.                              *)
AtQuantile(x, q) ==
    IF x = << >> THEN << >> ELSE TLCEval([i \in 1..Len(x[1]) |-> Quantile(TLCEval(SortNums(Column(x, i))), q)])

(* Sets of exactly k individuals.                                          *)
Draws(n, k) == {S \in SUBSET (1..n) : Cardinality(S) = k}
=============================================================================
