------------------------------ MODULE Density ------------------------------
(***************************************************************************)
(* Density plots.  A scenario is [name, states] where states[n][i] is the  *)
(* value of the i-th factor of individual n in the plotted period.         *)
(***************************************************************************)
EXTENDS Curves

Mean(s) == Div(Sum(s), OfInt(Len(s)))
CoVar(a, b, ma, mb) == Div(Sum([k \in 1..Len(a) |-> Mul(Sub(a[k], ma), Sub(b[k], mb))]), OfInt(Len(a) - 1))
(* Scott's bandwidth factor, squared: n^(-2 / (d + 4)).                    *)
Scott2(n, d) == Exp(Negate(Mul(Div("2", OfInt(d + 4)), Ln(OfInt(n)))))

(* Gaussian kernel estimate of the density of a sample.                    *)
Kernel1(s) == [s |-> s, h |-> Mul(Scott2(Len(s), 1), CoVar(s, s, Mean(s), Mean(s)))]
Kde1(k, x) ==
    Div(Sum([i \in 1..Len(k.s) |-> Exp(Negate(Div(Half(Sq(Sub(x, k.s[i]))), k.h)))]),
        Mul(OfInt(Len(k.s)), Sqrt(Mul(Mul("2", Pi), k.h))))

Kernel2(a, b) ==
    LET f == Scott2(Len(a), 2)
        ma == Mean(a)
        mb == Mean(b) IN
    [a |-> a, b |-> b, aa |-> Mul(f, CoVar(a, a, ma, ma)), bb |-> Mul(f, CoVar(b, b, mb, mb)), ab |-> Mul(f, CoVar(a, b, ma, mb))]
Det(k) == Sub(Mul(k.aa, k.bb), Sq(k.ab))
Kde2(k, x, y) ==
    LET det == Det(k)
        one(i) == LET u == Sub(x, k.a[i])
                      v == Sub(y, k.b[i]) IN
                  Exp(Negate(Half(Div(Add(Sub(Mul(k.bb, Sq(u)), Mul("2", Mul(k.ab, Mul(u, v)))), Mul(k.aa, Sq(v))), det)))) IN
    Div(Sum([i \in 1..Len(k.a) |-> one(i)]), Mul(OfInt(Len(k.a)), Mul(Mul("2", Pi), Sqrt(det))))

(* The normal density with mean and standard deviation of the sample.      *)
NormalFit(s, x) ==
    LET mu == Mean(s)
        v == Div(Sum([i \in 1..Len(s) |-> Sq(Sub(s[i], mu))]), OfInt(Len(s))) IN
    Div(Exp(Negate(Div(Half(Sq(Sub(x, mu))), v))), Sqrt(Mul(Mul("2", Pi), v)))

(* Too little variation for a kernel estimate in floating point.           *)
Flat(s) == Len(s) < 2 \/ Leq(CoVar(s, s, Mean(s), Mean(s)), Mul("1E-12", Add("1", Sq(Mean(s)))))
Flat2(a, b) ==
    \/ Len(a) < 3 \/ Flat(a) \/ Flat(b)
    \/ LET k == Kernel2(a, b) IN Leq(Det(k), Mul("1E-8", Mul(k.aa, k.bb)))
=============================================================================
