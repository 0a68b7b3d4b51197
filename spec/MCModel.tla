------------------------------ MODULE MCModel ------------------------------
(***************************************************************************)
(* All model specifications that can be put together from given menus: a   *)
(* specification is built section by section.  Checks what Model derives   *)
(* from it and prints a sample of the specifications for replay.           *)
(***************************************************************************)
EXTENDS Model, Json, IOUtils

(* [model : where to start, steps : <<[what, i : factor, menu]>>, every, offset] *)
Bases == TLCEval(ndJsonDeserialize(IOEnv.MODELS))
VARIABLES base, m, step, code
vars == <<base, m, step, code>>
Steps == Bases[base].steps

Init == base \in 1..Len(Bases) /\ m = Bases[base].model /\ step = 1 /\ code = 0
Put(s, x) ==
    CASE s.what = "meas" -> [m EXCEPT !.factors[s.i].meas = x]
      [] s.what = "kind" -> [m EXCEPT !.factors[s.i].kind = x]
      [] s.what = "norm" -> [m EXCEPT !.factors[s.i].norm = x]
      [] s.what = "anchoring" -> [m EXCEPT !.anchoring = x]
      [] s.what = "stagemap" -> [m EXCEPT !.stagemap = x]
      [] s.what = "controls" -> [m EXCEPT !.controls = x]
      [] s.what = "observed" -> [m EXCEPT !.observed = x]
      [] s.what = "options" -> [m EXCEPT !.options = x]
Choose(k) ==
    /\ step <= Len(Steps)
    /\ m' = Put(Steps[step], Steps[step].menu[k])
    /\ step' = step + 1
    /\ code' = (code * 11 + k) % 100003
    /\ UNCHANGED base
    /\ IF step = Len(Steps) /\ (code' * 37 + Bases[base].offset) % Bases[base].every = 0 /\ NPeriods(m') >= 2
       THEN PrintT("DUMP " \o ToJson([base |-> base, model |-> m'])) ELSE TRUE
Next == step <= Len(Steps) /\ \E k \in 1..Len(Steps[step].menu) : Choose(k)
Spec == Init /\ [][Next]_vars

Done == step > Len(Steps) /\ NPeriods(m) >= 2 /\ IsValid(m)
Index == ParamIndex(m)
Names == Range(Index)

(* The template: no duplicates, one row for every use and no other.        *)
RECURSIVE Total(_, _)
Total(Op(_), n) == IF n = 0 THEN 0 ELSE Op(n) + Total(Op, n - 1)
Uses(t) == Total(LAMBDA i : Cardinality(Range(MeasOf(m.factors[i], t))), NLatent(m))   \* loadings of measurements
NumberOfRows ==
    LET T == NPeriods(m)
        F == NLatent(m)
        K == NMixtures(m)
        A == Len(Anchored(m))
        Y == Total(LAMBDA k : Cardinality(Range(PeriodMeas(m, k - 1))), T) + T * A IN
    Y * Len(Controls(m)) + Total(LAMBDA k : Uses(k - 1), T) + T * A + Y + (T - 1) * F
    + K * F + K + K * ((F * (F + 1)) \div 2)
    + (T - 1) * Total(LAMBDA i : Len(TransNames(m, m.factors[i])), F)
TemplateIsExact == Done => NoDuplicates(Index) /\ Len(Index) = NumberOfRows

(* Restrictions speak of parameters of the template and do not contradict  *)
(* each other.                                                             *)
SpeakOfParameters ==
    Done => /\ {x[1] : x \in Fixed(m)} \subseteq Names
            /\ UNION Probabilities(m) \subseteq Names
            /\ UNION EqualClasses(m) \subseteq Names
            /\ \A s \in Increasing(m) : Range(s) \subseteq Names
OneValue(S, p) == \A x, y \in S : (x[1] = p /\ y[1] = p) => Eq(x[2], y[2])
NoContradiction ==
    Done => /\ \A p \in {x[1] : x \in FixedConstantShocks(m) \union FixedAnchoring(m)} : OneValue(Fixed(m), p)
            /\ \A C, E \in EqualClasses(m) : C # E => C \cap E = {}
            /\ \A C \in EqualClasses(m) : \A x, y \in Fixed(m) : (x[1] \in C /\ y[1] \in C) => Eq(x[2], y[2])
            /\ \A x \in Fixed(m) : x[1] \notin UNION {S : S \in Probabilities(m)}
            /\ \A x \in Fixed(m) : \A C \in EqualClasses(m) :      \* equal to a fixed one: fixed itself
                    x[1] \in C => C \subseteq {y[1] : y \in Fixed(m)}
(* Shock sds of constant factors may lie below the bound only if it is zero or they are fixed. *)
BoundsOnlyOfSds ==
    Done => \A p \in Names : LowerBound(m, p) # "-inf" => p[1] \in {"meas_sds", "shock_sds", "initial_cholcovs"}

(* Saying what is the default anyway changes nothing.                      *)
Has(k) == m.options.given /\ HasKey(m.options.list, k)
WithOption(x, k, v) ==
    IF Has(k) THEN x
    ELSE [x EXCEPT !.options = [given |-> TRUE, list |-> Append(IF x.options.given THEN x.options.list ELSE << >>, <<k, v>>)]]
Explicit ==
    LET a == [m EXCEPT !.stagemap = [given |-> TRUE, list |-> Stagemap(m)]]
        b == WithOption(WithOption(WithOption(a, "n_mixtures", "1"), "robust_bounds", "true"), "bounds_distance", "0.001")
        flag(x) == IF x = "unset" THEN "false" ELSE x IN
    IF b.anchoring.given
    THEN [b EXCEPT !.anchoring.free_controls = flag(@), !.anchoring.free_constant = flag(@),
                   !.anchoring.free_loadings = flag(@), !.anchoring.ignore_constant = flag(@)]
    ELSE b
DefaultsAreDefaults ==
    Done => \E e \in {Explicit} :
        /\ IsValid(e) /\ ParamIndex(e) = Index /\ Fixed(e) = Fixed(m) /\ EqualClasses(e) = EqualClasses(m)
        /\ Probabilities(e) = Probabilities(m) /\ Increasing(e) = Increasing(m)
        /\ \A p \in Names : LowerBound(e, p) = LowerBound(m, p)
(* Shorter models are part of longer ones.                                 *)
Nested ==
    Done => \A n \in 2..(NPeriods(m) - 1) : \E r \in {ReducePeriods(m, n)} :
        IsValid(r) => /\ Range(ParamIndex(r)) \subseteq Names
                      /\ Fixed(r) \subseteq Fixed(m)
                      /\ \A C \in EqualClasses(r) : \E E \in EqualClasses(m) : C \subseteq E
(* Updates of a period are contiguous and outcomes come last.              *)
UpdatesAreOrdered ==
    Done => \E rows \in {UpdateRows(m)} :
        \A a, b \in 1..Len(rows) : a < b =>
            \/ rows[a].period < rows[b].period
            \/ rows[a].period = rows[b].period /\ ~(rows[a].purpose = "anchoring" /\ rows[b].purpose = "measurement")
=============================================================================
