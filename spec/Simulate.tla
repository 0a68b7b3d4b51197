------------------------------ MODULE Simulate ------------------------------
(***************************************************************************)
(* The data generating process: what the states and measurements of a      *)
(* simulated individual are, up to the random draws.  Policies are records *)
(* [period, factor, effect, sd].                                           *)
(***************************************************************************)
EXTENDS Filter, Panel

PoliciesOn(pols, t, f) == SelectSeq(pols, LAMBDA p : p.period = t /\ p.factor = f)
PolicyEffect(pols, t, f) ==
    LET ps == PoliciesOn(pols, t, f) IN Sum([i \in 1..Len(ps) |-> ps[i].effect])
PolicyVariance(pols, t, f) ==
    LET ps == PoliciesOn(pols, t, f) IN Sum([i \in 1..Len(ps) |-> Sq(ps[i].sd)])
Effects(m, pols, t) == Vec(NLatent(m), LAMBDA f : PolicyEffect(pols, t, Latent(m)[f]))

(* Distribution of the states of period 0 in component k, policies included. *)
StartMean(m, P, pols, k) ==
    VAdd(Vec(NLatent(m), LAMBDA f : Par(P, "initial_states", 0, Mixture(k), Latent(m)[f])), Effects(m, pols, 0))
StartChol(m, P, pols, k) ==
    LET S == InitialCov(m, P, k)
        n == NLatent(m) IN
    Chol(Mat(n, n, LAMBDA i, j : IF i = j THEN Add(S[i][j], PolicyVariance(pols, 0, Latent(m)[i])) ELSE S[i][j]))
Weight(m, P, k) ==
    IF NMixtures(m) = 1 THEN "1" ELSE Par(P, "mixture_weights", 0, Mixture(k), "-")

(* Mean and sd of the states of period t + 1 given those of period t; both *)
(* include the policies of their period (there are none in the last one).  *)
NextMean(m, st, effects, x, o) == VAdd(NextStates(m, st, x, o), effects)   \* effects of period t + 1
NextSd(m, P, pols, t, f) ==
    Sqrt(Add(Sq(Par(P, "shock_sds", t, f, "-")), PolicyVariance(pols, t + 1, f)))

(* Mean of a measurement with loadings h and control coefficients b;       *)
(* "nan" if a control is missing.                                          *)
MeasMean(h, b, x, controls) ==
    IF \E j \in 1..Len(controls) : Missing(controls[j]) THEN "nan"
    ELSE Add(Dot(h, x), Dot(b, controls))

(* Deviations from a mean in units of the triangular factor L.  Where L    *)
(* has no pivot nothing is random: the remainder has to vanish.            *)
RECURSIVE Forward(_, _, _, _)
Forward(L, d, z, rest) ==
    LET i == Len(z) + 1 IN
    IF i > Len(d) THEN [z |-> z, rest |-> rest]
    ELSE LET e == Sub(d[i], Dot(z, SubSeq(L[i], 1, i - 1))) IN
         IF Leq(L[i][i], "1E-12") THEN Forward(L, d, Append(z, "0"), Append(rest, [at |-> i, e |-> e]))
         ELSE Forward(L, d, Append(z, Div(e, L[i][i])), rest)
Standardize(L, d) == TLCEval(Forward(L, d, << >>, << >>))

(* When a simulation is refused.                                           *)
Refused(m, hasData, hasN, pols) ==
    \/ ~hasData /\ (~hasN \/ Len(Observed(m)) > 0 \/ Len(m.controls.list) > 0)
    \/ \E i \in 1..Len(pols) : Lt(pols[i].sd, "0") /\ pols[i].period < NPeriods(m) - 1
=============================================================================
