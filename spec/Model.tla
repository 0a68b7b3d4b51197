------------------------------- MODULE Model -------------------------------
(***************************************************************************)
(* The abstract specification of a latent factor model and everything that *)
(* follows from it alone: the sequence of updates, the parameters, their   *)
(* constraints and bounds, its validity, and the edit operations.          *)
(*                                                                         *)
(* A specification m is a record                                           *)
(*   factors   sequence of                                                 *)
(*     [name, meas     : <<names of period 0, names of period 1, ...>>,    *)
(*      meas_ok        : is meas a list of lists,                          *)
(*      bad_meas       : <<period, text>> of entries that are no names,    *)
(*      kind           : "linear", ..., "custom",                          *)
(*      cname, pnames, terms : name, parameters and formula if custom,     *)
(*      norm           : [given, loadings, intercepts] where the latter    *)
(*                       are [given, ok, list : <<pairs of period 0,..>>]] *)
(*   observed, controls, stagemap : [given, list]                          *)
(*   anchoring : [given, ok, outcomes : <<factor, outcome>> pairs,         *)
(*                free_controls, free_constant, free_loadings,             *)
(*                ignore_constant : "true", "false", "unset" or "bad"]     *)
(*   options   : [given, list : <<key, value>> pairs]                      *)
(* Periods are counted from 0; numbers are numerals of Dec.                *)
(***************************************************************************)
EXTENDS Lists, Dec

AtOr(s, i, default) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE default

NPeriods(m) == MaxInt({Len(m.factors[i].meas) : i \in 1..Len(m.factors)})
Latent(m) == [i \in 1..Len(m.factors) |-> m.factors[i].name]
Observed(m) == m.observed.list
AllFactors(m) == Latent(m) \o Observed(m)
Controls(m) == <<"constant">> \o m.controls.list
NLatent(m) == Len(m.factors)
Factor(m, name) == m.factors[PosOf(name, Latent(m))]

Option(m, key, default) == IF m.options.given THEN Lookup(m.options.list, key, default) ELSE default
NMixtures(m) == Floor(Option(m, "n_mixtures", "1"))
SigmaScale(m) == Option(m, "sigma_points_scale", "2")
BoundsDistance(m) ==
    IF Option(m, "robust_bounds", "true") = "true"
    THEN Option(m, "bounds_distance", "0.001") ELSE "0"

Stagemap(m) ==
    IF m.stagemap.given THEN m.stagemap.list
    ELSE [i \in 1..(NPeriods(m) - 1) |-> i - 1]

----------------------------------------------------------------------------
(* Anchoring                                                               *)
Outcomes(m) == IF m.anchoring.given THEN m.anchoring.outcomes ELSE << >>
IsAnchored(m, f) == HasKey(Outcomes(m), f)
Anchored(m) == SelectSeq(Latent(m), LAMBDA f : IsAnchored(m, f))
Outcome(m, f) == Lookup(Outcomes(m), f, "")
AnchorRow(m, f) == Outcome(m, f) \o "_" \o f
Flag(m, x) == m.anchoring.given /\ x = "true"
IgnoreConstant(m) == Flag(m, m.anchoring.ignore_constant)

----------------------------------------------------------------------------
(* Updates.  One row per measurement and period, whatever the number of    *)
(* factors that share it, then one row per anchored factor.                *)
MeasOf(f, t) == AtOr(f.meas, t + 1, << >>)
PeriodMeas(m, t) == Dedup(Concat([i \in 1..Len(m.factors) |-> MeasOf(m.factors[i], t)]))
MeasuredBy(m, t, y) ==
    SelectSeq(Latent(m), LAMBDA f : InSeq(y, MeasOf(Factor(m, f), t)))

PeriodRows(m, t) ==
    LET ys == PeriodMeas(m, t)
        as == Anchored(m) IN
    [i \in 1..Len(ys) |->
        [period |-> t, name |-> ys[i], purpose |-> "measurement", source |-> ys[i],
         factors |-> MeasuredBy(m, t, ys[i])]]
    \o [i \in 1..Len(as) |->
        [period |-> t, name |-> AnchorRow(m, as[i]), purpose |-> "anchoring",
         source |-> Outcome(m, as[i]), factors |-> <<as[i]>>]]

UpdateRows(m) == ConcatUpTo(LAMBDA k : PeriodRows(m, k - 1), NPeriods(m))

----------------------------------------------------------------------------
(* Transition parameters                                                   *)
RECURSIVE PairNames(_)
PairNames(s) ==
    IF Len(s) < 2 THEN << >>
    ELSE [j \in 1..(Len(s) - 1) |-> s[1] \o " * " \o s[j + 1]] \o PairNames(Tail(s))

TransNames(m, f) ==
    LET all == AllFactors(m) IN
    CASE f.kind = "constant" -> << >>
      [] f.kind = "linear" -> all \o <<"constant">>
      [] f.kind \in {"translog", "robust_translog"} ->
            all \o [i \in 1..Len(all) |-> all[i] \o " ** 2"] \o PairNames(all) \o <<"constant">>
      [] f.kind = "linear_and_squares" ->
            all \o [i \in 1..Len(all) |-> all[i] \o " ** 2"] \o <<"constant">>
      [] f.kind = "log_ces" -> all \o <<"phi">>
      [] f.kind = "log_ces_general" ->
            all \o [i \in 1..Len(all) |-> "sigma_" \o all[i]] \o <<"tfp">>
      [] f.kind = "custom" -> f.pnames

\* What restricts a pre-implemented function does not restrict a custom function,
\* whatever the name of the custom function.
TransFunctionName(f) == f.kind

----------------------------------------------------------------------------
(* Parameters: tuples <<category, period, name1, name2>>                   *)
Mixture(k) == "mixture_" \o ToString(k - 1)
Key(p) == p[1] \o "|" \o ToString(p[2]) \o "|" \o p[3] \o "|" \o p[4]

ControlParams(m) ==
    LET rows == UpdateRows(m)
        cs == Controls(m) IN
    ConcatUpTo(LAMBDA i : [c \in 1..Len(cs) |->
        <<"controls", rows[i].period, rows[i].name, cs[c]>>], Len(rows))
LoadingParams(m) ==
    LET rows == UpdateRows(m) IN
    ConcatUpTo(LAMBDA i : [j \in 1..Len(rows[i].factors) |->
        <<"loadings", rows[i].period, rows[i].name, rows[i].factors[j]>>], Len(rows))
MeasSdParams(m) ==
    LET rows == UpdateRows(m) IN
    [i \in 1..Len(rows) |-> <<"meas_sds", rows[i].period, rows[i].name, "-">>]
ShockParams(m) ==
    ConcatUpTo(LAMBDA k : [i \in 1..NLatent(m) |->
        <<"shock_sds", k - 1, Latent(m)[i], "-">>], NPeriods(m) - 1)
InitialStateParams(m) ==
    ConcatUpTo(LAMBDA k : [i \in 1..NLatent(m) |->
        <<"initial_states", 0, Mixture(k), Latent(m)[i]>>], NMixtures(m))
WeightParams(m) ==
    [k \in 1..NMixtures(m) |-> <<"mixture_weights", 0, Mixture(k), "-">>]
CholParams(m) ==
    ConcatUpTo(LAMBDA k : ConcatUpTo(LAMBDA r : [c \in 1..r |->
        <<"initial_cholcovs", 0, Mixture(k), Latent(m)[r] \o "-" \o Latent(m)[c]>>],
        NLatent(m)), NMixtures(m))
TransParams(m) ==
    ConcatUpTo(LAMBDA i :
        LET f == m.factors[i]
            names == TransNames(m, f) IN
        ConcatUpTo(LAMBDA k : [j \in 1..Len(names) |->
            <<"transition", k - 1, f.name, names[j]>>], NPeriods(m) - 1), NLatent(m))

ParamIndex(m) ==
    ControlParams(m) \o LoadingParams(m) \o MeasSdParams(m) \o ShockParams(m)
    \o InitialStateParams(m) \o WeightParams(m) \o CholParams(m) \o TransParams(m)

----------------------------------------------------------------------------
(* Restrictions on the parameters                                          *)
NormList(x) == IF x.given THEN x.list ELSE << >>
NormPairs(f, which, t) ==
    IF ~f.norm.given THEN << >>
    ELSE AtOr(NormList(IF which = "loadings" THEN f.norm.loadings ELSE f.norm.intercepts), t + 1, << >>)

(* <<parameter, value>> pairs                                              *)
FixedByNormalization(m) ==
    UNION {UNION {
        LET f == m.factors[i]
            l == NormPairs(f, "loadings", t)
            c == NormPairs(f, "intercepts", t) IN
        {<<<<"loadings", t, l[j][1], f.name>>, l[j][2]>> : j \in 1..Len(l)}
        \union {<<<<"controls", t, c[j][1], "constant">>, c[j][2]>> : j \in 1..Len(c)}
        : t \in 0..(NPeriods(m) - 1)} : i \in 1..NLatent(m)}
FixedConstantShocks(m) ==
    {<<<<"shock_sds", t, Latent(m)[i], "-">>, "0">> :
        t \in 0..(NPeriods(m) - 2),
        i \in {j \in 1..NLatent(m) : TransFunctionName(m.factors[j]) = "constant"}}
FixedAnchoring(m) ==
    LET ps == 0..(NPeriods(m) - 1)
        as == Range(Anchored(m)) IN
    (IF Flag(m, m.anchoring.free_constant) THEN {}
     ELSE {<<<<"controls", t, AnchorRow(m, f), "constant">>, "0">> : t \in ps, f \in as})
    \union
    (IF Flag(m, m.anchoring.free_controls) THEN {}
     ELSE {<<<<"controls", t, AnchorRow(m, f), c>>, "0">> :
            t \in ps, f \in as, c \in Range(m.controls.list)})
    \union
    (IF Flag(m, m.anchoring.free_loadings) THEN {}
     ELSE {<<<<"loadings", t, AnchorRow(m, f), f>>, "1">> : t \in ps, f \in as})
Fixed(m) ==
    FixedByNormalization(m) \union FixedConstantShocks(m) \union FixedAnchoring(m)
    \union (IF NMixtures(m) = 1 THEN {<<WeightParams(m)[1], "1">>} ELSE {})

Probabilities(m) ==
    (IF NMixtures(m) > 1 THEN {Range(WeightParams(m))} ELSE {})
    \union {{<<"transition", t, Latent(m)[i], g>> : g \in Range(AllFactors(m))} :
            t \in 0..(NPeriods(m) - 2),
            i \in {j \in 1..NLatent(m) : TransFunctionName(m.factors[j]) = "log_ces"}}

Increasing(m) ==
    IF NMixtures(m) > 1
    THEN {[k \in 1..NMixtures(m) |-> <<"initial_states", 0, Mixture(k), Latent(m)[1]>>]}
    ELSE {}

(* Sets of at least two parameters that have to be equal.                  *)
StagePeriods(m, s) == {t \in 0..(NPeriods(m) - 2) : Stagemap(m)[t + 1] = s}
EqualClasses(m) ==
    LET stages == {S \in {StagePeriods(m, s) : s \in Range(Stagemap(m))} : Cardinality(S) > 1} IN
    UNION {UNION {
        {{<<"transition", t, Latent(m)[i], n>> : t \in S} : n \in Range(TransNames(m, m.factors[i]))}
        \union {{<<"shock_sds", t, Latent(m)[i], "-">> : t \in S}}
        : i \in 1..NLatent(m)} : S \in stages}

IsBounded(m, p) ==
    \/ p[1] \in {"meas_sds", "shock_sds"}
    \/ p[1] = "initial_cholcovs" /\ \E i \in 1..NLatent(m) : p[4] = Latent(m)[i] \o "-" \o Latent(m)[i]
LowerBound(m, p) == IF IsBounded(m, p) THEN BoundsDistance(m) ELSE "-inf"

----------------------------------------------------------------------------
(* Validity.  Each broken rule is <<rule, ...words the report must contain>> *)
BadNorm(f, which) ==
    LET x == IF which = "loadings" THEN f.norm.loadings ELSE f.norm.intercepts IN
    IF ~f.norm.given \/ ~x.given THEN {}
    ELSE IF ~x.ok THEN {<<"norm_shape", f.name, which>>}
    ELSE UNION {
        {<<"norm_unknown", f.name, x.list[t][j][1], ToString(t - 1)>> :
            j \in {k \in 1..Len(x.list[t]) : ~InSeq(x.list[t][k][1], AtOr(f.meas, t, << >>))}}
        \union
        (IF which = "loadings"
         THEN {<<"norm_zero", f.name, x.list[t][j][1], ToString(t - 1)>> :
                j \in {k \in 1..Len(x.list[t]) : Eq(x.list[t][k][2], "0")}}
         ELSE {})
        : t \in 1..Len(x.list)}
BadFactor(f) ==
    (IF f.meas_ok THEN {<<"meas_name", f.name, f.bad_meas[i][2], ToString(f.bad_meas[i][1])>> :
                            i \in 1..Len(f.bad_meas)}
     ELSE {<<"meas_shape", f.name>>})
    \union BadNorm(f, "loadings") \union BadNorm(f, "intercepts")
BadStagemap(m) ==
    LET s == Stagemap(m)
        used == Range(s) IN
    (IF Len(s) # NPeriods(m) - 1
     THEN {<<"stagemap_length", "stagemap", ToString(NPeriods(m)), ToString(Len(s))>>} ELSE {})
    \union (IF used # 0..(Cardinality(used) - 1) THEN {<<"stages", "stage">>} ELSE {})
    \union (IF \E i \in 1..(Len(s) - 1) : s[i + 1] - s[i] \notin {0, 1}
            THEN {<<"stage_steps", "stagemap">>} ELSE {})
BadAnchoring(m) ==
    IF ~m.anchoring.given THEN {}
    ELSE (IF m.anchoring.ok THEN {} ELSE {<<"outcomes_shape", "outcomes">>})
         \union (IF m.anchoring.bad_outcomes THEN {<<"outcomes_name", "outcome">>} ELSE {})
         \union (IF m.anchoring.free_controls = "bad" THEN {<<"anchoring_flag", "controls">>} ELSE {})
         \union (IF m.anchoring.free_constant = "bad" THEN {<<"anchoring_flag", "constant">>} ELSE {})
         \union (IF m.anchoring.free_loadings = "bad" THEN {<<"anchoring_flag", "loadings">>} ELSE {})
Problems(m) ==
    BadStagemap(m) \union BadAnchoring(m) \union UNION {BadFactor(m.factors[i]) : i \in 1..NLatent(m)}
IsValid(m) == Problems(m) = {}

----------------------------------------------------------------------------
(* Edits                                                                   *)
TakeFactor(f, n) ==
    [f EXCEPT !.meas = Take(@, n),
              !.norm.loadings.list = Take(@, n), !.norm.intercepts.list = Take(@, n)]
ReducePeriods(m, n) ==
    [m EXCEPT !.factors = [i \in 1..Len(@) |-> TakeFactor(@[i], n)],
              !.stagemap.list = IF m.stagemap.given THEN Take(@, n - 1) ELSE @]

DropAnchoring(m, S) ==
    IF ~m.anchoring.given THEN m
    ELSE LET left == SelectSeq(m.anchoring.outcomes, LAMBDA p : p[1] \notin S) IN
         IF left = << >>
         THEN [m EXCEPT !.anchoring.given = FALSE, !.anchoring.outcomes = << >>]
         ELSE [m EXCEPT !.anchoring.outcomes = left]
RemoveFactors(m, S) ==
    LET reduced == [DropAnchoring(m, S) EXCEPT
                        !.factors = SelectSeq(@, LAMBDA f : f.name \notin S)] IN
    ReducePeriods(reduced, NPeriods(reduced))
ExtractFactors(m, S) == RemoveFactors(m, Range(Latent(m)) \ S)

DropPairs(list, S) == [t \in 1..Len(list) |-> SelectSeq(list[t], LAMBDA p : p[1] \notin S)]
RemoveMeasurements(m, S) ==
    [m EXCEPT !.factors = [i \in 1..Len(@) |->
        [@[i] EXCEPT !.meas = [t \in 1..Len(@) |-> Without(@[t], S)],
                     !.norm.loadings.list = DropPairs(@, S),
                     !.norm.intercepts.list = DropPairs(@, S)]]]
RemovesNormalized(m, S) == RemoveMeasurements(m, S) #
    [m EXCEPT !.factors = [i \in 1..Len(@) |-> [@[i] EXCEPT !.meas = [t \in 1..Len(@) |-> Without(@[t], S)]]]]

RemoveControls(m, S) ==
    LET left == Without(m.controls.list, S) IN
    [m EXCEPT !.controls.list = left, !.controls.given = left # << >>]

SwitchKind(m, old, new) ==
    [m EXCEPT !.factors = [i \in 1..Len(@) |-> IF @[i].kind = old THEN [@[i] EXCEPT !.kind = new] ELSE @[i]]]
TranslogToLinear(m) == SwitchKind(m, "translog", "linear")
LinearToTranslog(m) == SwitchKind(m, "linear", "translog")

(* op is a record [name, args : sequence of names, n : number of periods]  *)
Edit(m, op) ==
    CASE op.name = "remove_factors" -> RemoveFactors(m, Range(op.args))
      [] op.name = "extract_factors" -> ExtractFactors(m, Range(op.args))
      [] op.name = "remove_measurements" -> RemoveMeasurements(m, Range(op.args))
      [] op.name = "remove_controls" -> RemoveControls(m, Range(op.args))
      [] op.name = "reduce_n_periods" -> ReducePeriods(m, op.n)
      [] op.name = "switch_translog_to_linear" -> TranslogToLinear(m)
      [] op.name = "switch_linear_to_translog" -> LinearToTranslog(m)
=============================================================================
