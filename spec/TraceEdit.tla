----------------------------- MODULE TraceEdit -----------------------------
(* Recorded chains of edits, one state per edit.                            *)
EXTENDS EditMachine, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c, k, m, q, fails
vars == <<c, k, m, q, fails>>
Case == Cases[c]

Clause(ok, name, detail) == IF ok THEN << >> ELSE <<name \o " @ " \o detail>>
OneOf(S) == IF S = {} THEN "" ELSE ToString(CHOOSE x \in S : TRUE)

NumEq(a, b) == a = b \/ (IsNum(a) /\ IsNum(b) /\ Eq(a, b))
SeqEq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : NumEq(s[i], t[i])
NormEq(a, b) ==         \* lists of lists of <<measurement, value>>
    /\ a.given = b.given /\ a.ok = b.ok /\ Len(a.list) = Len(b.list)
    /\ \A t \in 1..Len(a.list) :
          /\ Len(a.list[t]) = Len(b.list[t])
          /\ \A j \in 1..Len(a.list[t]) : a.list[t][j][1] = b.list[t][j][1] /\ NumEq(a.list[t][j][2], b.list[t][j][2])
FactorDiff(a, b) ==     \* names of the parts in which two factors differ
    {x \in {"name", "meas", "kind", "cname", "pnames", "terms"} : a[x] # b[x]}
    \union (IF a.norm.given # b.norm.given THEN {"normalizations"} ELSE {})
    \union (IF a.norm.given /\ ~NormEq(a.norm.loadings, b.norm.loadings) THEN {"loading normalizations"} ELSE {})
    \union (IF a.norm.given /\ ~NormEq(a.norm.intercepts, b.norm.intercepts) THEN {"intercept normalizations"} ELSE {})
ModelDiff(a, b) ==
    IF Latent(a) # Latent(b) THEN {<<"factors", ToString(Latent(a)), ToString(Latent(b))>>}
    ELSE UNION {{<<Latent(a)[i], x>> : x \in FactorDiff(a.factors[i], b.factors[i])} : i \in 1..Len(a.factors)}
         \union {<<x, ToString(a[x]), ToString(b[x])>> : x \in {y \in {"observed", "stagemap", "options"} : a[y] # b[y]}}
         \union (IF a.controls # b.controls THEN {<<"controls", ToString(a.controls)>>} ELSE {})
         \union (IF a.anchoring.given # b.anchoring.given \/ (a.anchoring.given /\ a.anchoring # b.anchoring)
                 THEN {<<"anchoring", ToString(a.anchoring)>>} ELSE {})

Init == c = 1 /\ k = 0 /\ m = << >> /\ q = << >> /\ fails = << >>

Start == /\ c <= Len(Cases) /\ k = 0
         /\ m' = Case.model /\ q' = Case.params /\ k' = 1
         /\ fails' = << >> /\ UNCHANGED c

Event == Case.obs[k]
Where == ToString(k) \o ": " \o Event.op.name \o " " \o ToString(Event.op.args) \o " " \o ToString(Event.op.n)

Apply ==
    /\ k >= 1 /\ k <= Len(Case.obs) /\ Event.op.name # "update"
    /\ LET m2 == TLCEval(Edit(m, Event.op))
           q2 == TLCEval(EditParams(m, q, Event.op))
           r == Event.params
           d == ModelDiff(m2, Event.model)
           (* an error leaves no result to compare *)
           f == IF Event.error # "" THEN <<"the edit fails: " \o Event.error \o " @ " \o Where>>
                ELSE Clause(Event.extra = << >>, "model: unknown entries", ToString(Event.extra) \o Where)
                     \o Clause(d = {}, "model: not exactly the named change", OneOf(d) \o " " \o Where)
                     \o Clause(Event.untouched, "model: the input is changed", Where)
                     \o Clause(Event.same_alone, "model: depends on whether parameters are passed", Where)
                     \o Clause(Event.warned = WarnsOfNormalization(m, Event.op), "model: warning about normalizations", Where)
                     \o Clause(r.index = q2.index, "params: index", Where)
                     \o (IF r.index # q2.index THEN << >>
                         ELSE Clause(SeqEq(r.value, q2.value), "params: values", Where)
                              \o Clause(SeqEq(r.lower, q2.lower), "params: lower bounds", Where)
                              \o Clause(SeqEq(r.upper, q2.upper), "params: upper bounds", Where))
                     \o Clause(Event.params_untouched, "params: the input is changed", Where)
       IN /\ m' = m2 /\ q' = q2
          /\ fails' = fails \o f
    /\ k' = k + 1 /\ UNCHANGED c

Update ==
    /\ k >= 1 /\ k <= Len(Case.obs) /\ Event.op.name = "update"
    /\ LET q2 == TLCEval(UpdateValues(q, Event.others))
           r == Event.params
           f == IF Event.error # "" THEN <<"params: the update fails: " \o Event.error \o " @ " \o Where>>
                ELSE Clause(r.index = q2.index, "params: index after update", Where)
                     \o (IF r.index # q2.index THEN << >>
                         ELSE Clause(SeqEq(r.value, q2.value), "params: updated values", Where)
                              \o Clause(SeqEq(r.lower, q2.lower) /\ SeqEq(r.upper, q2.upper), "params: bounds after update", Where))
                     \o Clause(Event.params_untouched, "params: the input is changed", Where)
       IN q' = q2 /\ fails' = fails \o f
    /\ k' = k + 1 /\ UNCHANGED <<c, m>>

Finish ==
    /\ k > 0 /\ k = Len(Case.obs) + 1
    /\ PrintT("CASE " \o ToJson([id |-> Case.id, fails |-> fails]))
    /\ c' = c + 1 /\ k' = 0 /\ m' = << >> /\ q' = << >> /\ fails' = << >>

Next == Start \/ Apply \/ Update \/ Finish
Spec == Init /\ [][Next]_vars

(* The index a parameter set carries is always the one of its model.       *)
IndexIsTemplate == k > 1 /\ Case.obs[k - 1].op.name # "update" => q.index = ParamIndex(m)
=============================================================================
