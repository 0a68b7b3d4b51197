------------------------------- MODULE Joint -------------------------------
(***************************************************************************)
(* The density of a history without any filtering: all factors of all      *)
(* periods are jointly normal within a component if transitions are        *)
(* linear, hence so are all measurements.  Filter has to agree with it.    *)
(***************************************************************************)
EXTENDS Filter

Affine(m) == \A i \in 1..NLatent(m) : m.factors[i].kind \in {"linear", "constant"}

Unit(n, j) == Vec(n, LAMBDA i : IF i = j THEN "1" ELSE "0")
Zeros(n) == Vec(n, LAMBDA i : "0")
(* x' = A x + a in the step st with observed factors o.                    *)
Matrix(m, st, o) ==
    LET n == NLatent(m)
        a == NextStates(m, st, Zeros(n), o)
        cols == TLCEval([j \in 1..n |-> VSub(NextStates(m, st, Unit(n, j), o), a)]) IN
    Mat(n, n, LAMBDA i, j : cols[j][i])

(* Mean and covariance of the factors of every period 0..T and the matrices *)
(* between them; os: observed factors of every period.                     *)
RECURSIVE Moments(_, _, _, _, _)
Moments(m, P, k, os, T) ==
    IF T = 0
    THEN <<[m |-> Vec(NLatent(m), LAMBDA i : Par(P, "initial_states", 0, Mixture(k), Latent(m)[i])),
            P |-> InitialCov(m, P, k), A |-> << >>]>>
    ELSE CHOOSE r \in {
            Append(before, LET last == before[T]
                               st == Step(m, P, T - 1)
                               A == Matrix(m, st, os[T])
                               APA == MatMul(MatMul(A, last.P), Transpose(A)) IN
                   TLCEval([m |-> NextStates(m, st, last.m, os[T]),
                    P |-> Mat(NLatent(m), NLatent(m), LAMBDA i, j :
                              Add(APA[i][j], IF i = j THEN Sq(st.shock[i]) ELSE "0")),
                    A |-> A]))
            : before \in {Moments(m, P, k, os, T - 1)}} : TRUE

RECURSIVE Cross(_, _, _)        \* Cov(x_t, x_s) for s <= t
Cross(mom, t, s) == IF t = s THEN mom[s + 1].P ELSE MatMul(mom[t + 1].A, Cross(mom, t - 1, s))

RECURSIVE Forward(_, _, _)      \* z with L z = e
Forward(L, e, z) ==
    LET i == Len(z) + 1 IN
    IF i > Len(e) THEN z
    ELSE Forward(L, e, Append(z, Div(Sub(e[i], Dot(SubSeq(L[i], 1, i - 1), z)), L[i][i])))

(* Log density of ys, a sequence of [t, h, g, r, y] in order of t.         *)
LogJoint(mom, ys) ==
    IF ys = << >> THEN "0" ELSE
    LET n == Len(ys)
        cov(a, b) == Dot(ys[a].h, MatVec(Cross(mom, ys[a].t, ys[b].t), ys[b].h))    \* a >= b
        S == Mat(n, n, LAMBDA a, b : Add(IF a >= b THEN cov(a, b) ELSE cov(b, a),
                                         IF a = b THEN Sq(ys[a].r) ELSE "0"))
        e == Vec(n, LAMBDA a : Sub(ys[a].y, Add(Dot(ys[a].h, mom[ys[a].t + 1].m), ys[a].g)))
        L == Chol(S)
        z == Forward(L, e, << >>)
    IN Negate(Sum(<<Mul(OfInt(n), Half(Ln(Mul("2", Pi)))), Half(Dot(z, z)),
                    Sum([a \in 1..n |-> Ln(L[a][a])])>>))
=============================================================================
