----------------------------- MODULE Transition -----------------------------
(***************************************************************************)
(* Transition functions, on the anchored scale, and the anchored scale.    *)
(* P maps parameter keys to numerals; s is a vector over all factors.      *)
(***************************************************************************)
EXTENDS Model, LinAlg

Par(P, cat, t, n1, n2) == P[cat \o "|" \o ToString(t) \o "|" \o n1 \o "|" \o n2]

AnchScale(m, P, t, f) ==
    IF IsAnchored(m, f) THEN Par(P, "loadings", t, AnchorRow(m, f), f) ELSE "1"
AnchConst(m, P, t, f) ==
    IF IsAnchored(m, f) /\ ~IgnoreConstant(m)
    THEN Par(P, "controls", t, AnchorRow(m, f), "constant") ELSE "0"
ToAnchored(m, P, t, f, x) == Add(Mul(x, AnchScale(m, P, t, f)), AnchConst(m, P, t, f))

RECURSIVE Product(_)
Product(xs) == IF xs = << >> THEN "1" ELSE Mul(Head(xs), Product(Tail(xs)))

Clip12(x) == MinD(MaxD(x, "-1E12"), "1E12")

RECURSIVE PairProducts(_)       \* in the order of PairNames
PairProducts(s) ==
    IF Len(s) < 2 THEN << >>
    ELSE [j \in 1..(Len(s) - 1) |-> Mul(s[1], s[j + 1])] \o PairProducts(Tail(s))

(* The value of factor f in period t + 1 given all factors s in period t;  *)
(* q: the parameters of f for that period in the order of TransNames.      *)
TransValue(all, f, q, s) ==
    LET n == Len(all)
        last == q[Len(q)]
        block(k) == SubSeq(q, k * n + 1, k * n + n)         \* one parameter per factor
        lin(x) == Dot(block(0), x)
        squares(x) == Dot(block(1), Vec(n, LAMBDA i : Sq(x[i])))
        inter(x) == Dot(SubSeq(q, 2 * n + 1, Len(q) - 1), TLCEval(PairProducts(x)))
        translog(x) == Sum(<<lin(x), squares(x), inter(x), last>>)
        mean(powers) == TLCEval(LnWeighted(block(0), Vec(n, LAMBDA i : Mul(s[i], powers[i]))))
    IN
    CASE f.kind = "constant" -> s[PosOf(f.name, all)]
      [] f.kind = "linear" -> Add(lin(s), last)
      [] f.kind = "translog" -> translog(s)
      [] f.kind = "robust_translog" -> translog(Vec(n, LAMBDA i : Clip12(s[i])))
      [] f.kind = "linear_and_squares" -> Sum(<<lin(s), squares(s), last>>)
      [] f.kind = "log_ces" -> Div(mean([i \in 1..n |-> last]), last)
      [] f.kind = "log_ces_general" -> Mul(mean(block(1)), last)
      [] f.kind = "custom" ->
            (* sum over terms [par, factors, exp] of par * product of factors, *)
            (* or of par * e^(0.1 * product of factors)                        *)
            Sum([k \in 1..Len(f.terms) |->
                LET term == f.terms[k]
                    prod == Product([j \in 1..Len(term.factors) |-> s[PosOf(term.factors[j], all)]])
                IN Mul(IF term.par = "" THEN "1" ELSE q[PosOf(term.par, f.pnames)],
                       IF term.exp THEN Exp(Mul("0.1", prod)) ELSE prod)])

(* Everything the step from period t to t + 1 needs of the parameters.     *)
Anchor(m, P, t) ==
    [scale |-> Vec(NLatent(m), LAMBDA i : AnchScale(m, P, t, Latent(m)[i])),
     const |-> Vec(NLatent(m), LAMBDA i : AnchConst(m, P, t, Latent(m)[i]))]
Step(m, P, t) ==
    TLCEval([all |-> AllFactors(m), nl |-> NLatent(m), from |-> Anchor(m, P, t), to |-> Anchor(m, P, t + 1),
             q |-> [i \in 1..NLatent(m) |->
                      LET names == TransNames(m, m.factors[i]) IN
                      Vec(Len(names), LAMBDA j : Par(P, "transition", t, m.factors[i].name, names[j]))],
             shock |-> Vec(NLatent(m), LAMBDA i : Par(P, "shock_sds", t, Latent(m)[i], "-"))])

(* Latent factors x and observed factors o of a period, both unanchored,   *)
(* to latent factors of the next period without shocks.                    *)
NextStates(m, st, x, o) ==
    LET nl == st.nl
        a == Vec(Len(st.all), LAMBDA i : IF i <= nl THEN Add(Mul(x[i], st.from.scale[i]), st.from.const[i]) ELSE o[i - nl])
    IN Vec(nl, LAMBDA i : Div(Sub(TransValue(st.all, m.factors[i], st.q[i], a), st.to.const[i]), st.to.scale[i]))
=============================================================================
