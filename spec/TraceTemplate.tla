--------------------------- MODULE TraceTemplate ---------------------------
(***************************************************************************)
(* Recorded templates, constraints, bounds and rejections of model         *)
(* specifications are compared with Model.                                 *)
(***************************************************************************)
EXTENDS Model, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c
Mod == Cases[c].model
Obs == Cases[c].obs

Clause(ok, name, detail) == IF ok THEN << >> ELSE <<name \o " @ " \o detail>>
Detail(x) == ToString(x)
OneOf(S) == IF S = {} THEN "" ELSE ToString(CHOOSE x \in S : TRUE)

Keywords == {"stage", "outcome", "stagemap", "controls", "constant", "loadings", "outcomes"}
(* JSON arrays -> sets *)
FixedRec == {<<Obs.fixed[i][1], Obs.fixed[i][2]>> : i \in 1..Len(Obs.fixed)}
SameFixed(A, B) ==      \* values are numerals
    /\ \A x \in A : \E y \in B : x[1] = y[1] /\ Eq(x[2], y[2])
    /\ \A y \in B : \E x \in A : x[1] = y[1] /\ Eq(x[2], y[2])
NotIn(A, B) == {x \in A : ~\E y \in B : x[1] = y[1] /\ Eq(x[2], y[2])}

Verdict ==
    LET probs == TLCEval(Problems(Mod)) IN
    IF probs # {}
    THEN IF Obs.error = "" THEN <<"accepted though invalid @ " \o OneOf(probs)>>
         ELSE Clause(Obs.exception = "ValueError", "rejected with a wrong kind of error", Obs.error)
              \o Concat([k \in 1..Len(SetToSeqAny(probs)) |->
                    LET p == SetToSeqAny(probs)[k] IN
                    Clause(\A w \in 2..Len(p) : IF p[w] \in Keywords THEN HasWord(Obs.error, p[w]) ELSE HasText(Obs.error, p[w]),
                           "broken rule not named", ToString(p) \o " in " \o Obs.error)])
    ELSE IF Obs.error # "" THEN <<"rejected though valid @ " \o Obs.error>>
    ELSE
    LET index == TLCEval(ParamIndex(Mod))
        rows == Range(index)
        fixed == Fixed(Mod)
        pr == {Range(Obs.probabilities[i]) : i \in 1..Len(Obs.probabilities)}
        eq == {Range(Obs.equal[i]) : i \in 1..Len(Obs.equal)}
        inc == Range(Obs.increasing)
        mentioned == {x[1] : x \in FixedRec} \union UNION pr \union UNION eq \union UNION {Range(x) : x \in inc}
        badBounds == {i \in 1..Len(Obs.lower) : i <= Len(index) /\
                        ~(IF IsBounded(Mod, index[i]) /\ IsNum(Obs.lower[i])
                          THEN Eq(Obs.lower[i], BoundsDistance(Mod))
                          ELSE Obs.lower[i] = LowerBound(Mod, index[i]))}
    IN Clause(Obs.index = index, "template index",
              IF Range(Obs.index) # rows
              THEN "missing " \o OneOf(rows \ Range(Obs.index)) \o " additional " \o OneOf(Range(Obs.index) \ rows)
              ELSE "order or number of rows")
       \o Clause(NoDuplicates(Obs.index), "template index has duplicates", "")
       \o Clause(Obs.level_names = <<"category", "period", "name1", "name2">>, "names of the index levels", ToString(Obs.level_names))
       \o Clause(Obs.dangling = << >>, "constraint without parameters", ToString(Obs.dangling))
       \o Clause(Obs.other = << >>, "other constraints", ToString(Obs.other))
       \o Clause(mentioned \subseteq rows, "constraint on unknown parameters", OneOf(mentioned \ rows))
       \o Clause(SameFixed(FixedRec, fixed), "fixed parameters",
                 "missing " \o OneOf(NotIn(fixed, FixedRec)) \o " additional " \o OneOf(NotIn(FixedRec, fixed)))
       \o Clause(pr = Probabilities(Mod), "probability constraints", ToString(Len(Obs.probabilities)))
       \o Clause(inc = Increasing(Mod), "increasing constraint", ToString(Obs.increasing))
       \o Clause(eq = EqualClasses(Mod), "equality constraints",
                 "missing " \o OneOf(EqualClasses(Mod) \ eq) \o " additional " \o OneOf(eq \ EqualClasses(Mod)))
       \o Clause(Len(Obs.lower) = Len(index) /\ badBounds = {}, "lower bounds", IF badBounds = {} THEN "" ELSE ToString(index[MinInt(badBounds)]))
       \o Clause(\A i \in 1..Len(Obs.upper) : Obs.upper[i] = "inf", "upper bounds", "")
       \o Clause(Obs.empty_values, "values of the template", "not empty")

Init == c = 1
Next == /\ c <= Len(Cases)
        /\ PrintT("CASE " \o ToJson([id |-> Cases[c].id, fails |-> Verdict]))
        /\ c' = c + 1
Spec == Init /\ [][Next]_c
=============================================================================
