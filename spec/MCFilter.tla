------------------------------ MODULE MCFilter ------------------------------
(***************************************************************************)
(* All histories of one individual in given small models: every            *)
(* measurement takes every value of a list (which may contain "nan").      *)
(* Checks the design of Filter against the joint density and prints every  *)
(* history; the harness makes them the individuals of one dataset.         *)
(***************************************************************************)
EXTENDS Joint, Json, IOUtils

(* [model, params, values : update row -> numerals, observed : <<vectors>>] *)
Bases == TLCEval(ndJsonDeserialize(IOEnv.MODELS))

VARIABLES base,     \* which model
          i,        \* next update
          t,        \* period of the belief
          bel,      \* belief
          ys,       \* <<[row, y]>> so far
          os,       \* observed factors of the periods so far
          tot       \* log likelihood so far
vars == <<base, i, t, bel, ys, os, tot>>

Rows == TLCEval([b \in 1..Len(Bases) |-> TLCEval(UpdateRows(Bases[b].model))])
Mod == Bases[base].model
Prm == Bases[base].params
AllRows == Rows[base]
Row == AllRows[i]
H(r) == LoadingVector(Mod, Prm, AllRows[r])
G(r) == ControlCoefs(Mod, Prm, AllRows[r])[1]
R(r) == MeasSd(Prm, AllRows[r])

(* Updates of one period that read the same variable read the same value.  *)
Known == {k \in 1..(i - 1) : AllRows[k].period = Row.period /\ AllRows[k].source = Row.source}
Choices == IF Known # {} THEN {ys[MinInt(Known)]} ELSE Range(Bases[base].values[i])

WithPrediction(b, r, pred) ==
    CHOOSE res \in {[b |-> Posterior(b, pred, ll, AllRows[r].purpose), ll |-> ll] : ll \in {Contribution(b, pred)}} : TRUE
Updated(b, r, y) ==
    IF y = "nan" THEN [b |-> b, ll |-> "0"]
    ELSE CHOOSE res \in {WithPrediction(b, r, pred) : pred \in {Predictive(b, y, H(r), G(r), R(r))}} : TRUE

Init == /\ base \in 1..Len(Bases)
        /\ i = 1 /\ t = 0 /\ ys = << >> /\ tot = "0"
        /\ os \in {<<o>> : o \in Range(Bases[base].observed)}
        /\ bel = InitialBelief(Bases[base].model, Bases[base].params)

Measure(purpose) ==
    /\ i <= Len(AllRows) /\ Row.period = t /\ Row.purpose = purpose
    /\ \E y \in Choices : \E res \in {Updated(bel, i, y)} :
         /\ bel' = res.b /\ tot' = Add(tot, res.ll) /\ ys' = Append(ys, y)
         /\ IF i = Len(AllRows)
            THEN PrintT("DUMP " \o ToJson([base |-> base, ys |-> Append(ys, y), os |-> os])) ELSE TRUE
    /\ i' = i + 1 /\ UNCHANGED <<base, t, os>>
MeasureFactors == Measure("measurement")
MeasureOutcome == Measure("anchoring")
GoOn ==
    /\ i <= Len(AllRows) /\ Row.period > t
    /\ bel' = Predict(Mod, Step(Mod, Prm, t), bel, os[t + 1])
    /\ \E o \in Range(Bases[base].observed) : os' = Append(os, o)
    /\ t' = t + 1 /\ UNCHANGED <<base, i, ys, tot>>
Next == MeasureFactors \/ MeasureOutcome \/ GoOn
Spec == Init /\ [][Next]_vars

Tiny == "1E-20"
Near(a, b) == Close(a, b, Tiny)
NearV(a, b) == \A j \in 1..Len(a) : Near(a[j], b[j])
NearBelief(a, b) ==
    /\ NearV(a.w, b.w)
    /\ \A k \in 1..Len(a.c) : NearV(a.c[k].m, b.c[k].m) /\ \A j \in 1..Len(a.c[k].P) : NearV(a.c[k].P[j], b.c[k].P[j])

(* Filtering is the factorisation of the joint density.                    *)
Item(r) == [t |-> AllRows[r].period, h |-> H(r), g |-> G(r), r |-> R(r), y |-> ys[r]]
Seen(n) == SelectSeq([r \in 1..n |-> r], LAMBDA r : ys[r] # "nan" /\ AllRows[r].purpose = "measurement")
Outcomes_(n) == SelectSeq([r \in 1..n |-> r], LAMBDA r : ys[r] # "nan" /\ AllRows[r].purpose = "anchoring")
JointOf(mom, rows) == LogJoint(mom, TLCEval([j \in 1..Len(rows) |-> Item(rows[j])]))
ComponentDensity(k) ==      \* anchoring outcomes are seen given the measurements before them
    CHOOSE x \in {
        LET as == Outcomes_(i - 1) IN
        Add(JointOf(mom, Seen(i - 1)),
            Sum([j \in 1..Len(as) |-> Sub(JointOf(mom, Append(Seen(as[j] - 1), as[j])), JointOf(mom, Seen(as[j] - 1)))]))
        : mom \in {Moments(Mod, Prm, k, os, t)}} : TRUE
FilterIsJoint ==
    Affine(Mod) =>
        Near(tot, LogSumExp([k \in 1..NMixtures(Mod) |->
            IF NMixtures(Mod) = 1 THEN ComponentDensity(k)
            ELSE Add(Ln(Par(Prm, "mixture_weights", 0, Mixture(k), "-")), ComponentDensity(k))]))

WeightsAreProbabilities ==
    Near(Sum([k \in 1..Len(bel.w) |-> IF bel.w[k] = "-inf" THEN "0" ELSE Exp(bel.w[k])]), "1")
CovariancesAreProper ==
    \A k \in 1..Len(bel.c) : LET L == Chol(bel.c[k].P) IN
        \A a \in 1..Len(L) : NearV(Gram(L)[a], bel.c[k].P[a])

InPeriod == i <= Len(AllRows) /\ Row.period = t
(* The order of two measurements of a period does not matter.              *)
OrderIsIrrelevant ==
    (InPeriod /\ i < Len(AllRows) /\ AllRows[i + 1].period = t /\ AllRows[i + 1].purpose = "measurement") =>
        \A y \in Choices, z \in Range(Bases[base].values[i + 1]) :
            \E a \in {Updated(bel, i, y)}, b \in {Updated(bel, i + 1, z)} :
            \E ab \in {Updated(a.b, i + 1, z)}, ba \in {Updated(b.b, i, y)} :
                Near(Add(a.ll, ab.ll), Add(b.ll, ba.ll)) /\ NearBelief(ab.b, ba.b)
(* Labels of components do not matter.                                     *)
Reversed(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Relabelled(b) == TLCEval([w |-> Reversed(b.w), c |-> Reversed(b.c)])
LabelsAreIrrelevant ==
    (InPeriod /\ Len(bel.w) > 1) => \A y \in Choices :
        \E a \in {Updated(bel, i, y)}, b \in {Updated(Relabelled(bel), i, y)} :
            Near(a.ll, b.ll) /\ NearBelief(a.b, Relabelled(b.b))
(* A component may be split into identical ones.                           *)
Split(b) == TLCEval([w |-> [k \in 1..(2 * Len(b.w)) |-> Sub(b.w[(k + 1) \div 2], Ln("2"))],
                     c |-> [k \in 1..(2 * Len(b.w)) |-> b.c[(k + 1) \div 2]]])
SplittingIsIrrelevant ==
    InPeriod => \A y \in Choices :
        \E a \in {Updated(bel, i, y)}, b \in {Updated(Split(bel), i, y)} :
            Near(a.ll, b.ll) /\ NearBelief(Split(a.b), b.b)
(* What is not seen changes nothing.                                       *)
MissingChangesNothing == [][(i' = i + 1 /\ ys'[i] = "nan") => bel' = bel /\ tot' = tot]_vars
OutcomesDoNotMove == [][(i' = i + 1 /\ AllRows[i].purpose = "anchoring") => bel'.c = bel.c]_vars
=============================================================================
