--------------------------- MODULE TraceGradient ---------------------------
(***************************************************************************)
(* Objective functions and their derivatives.  For every direction v of a  *)
(* case the likelihood of the specification is evaluated at p + hv and     *)
(* p - hv with h = 1E-9 and 36 digits, so that the difference quotient is  *)
(* the directional derivative up to about 1E-15.                           *)
(***************************************************************************)
EXTENDS Likelihood, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Tol == "1E-7"
Same(a, b) == Close(a, b, Tol)
H == "1E-9"

VARIABLES c, pc, e, i, t, bel, acc, par, totals, ctx
vars == <<c, pc, e, i, t, bel, acc, par, totals, ctx>>
Case == Cases[c]
Mod == Case.model
Obs == Case.obs
NEval == 1 + 2 * Len(Case.directions)

(* Evaluation 0 is at p, evaluations 2k - 1 and 2k at p + hv and p - hv.   *)
Moved(ev) ==
    IF ev = 0 THEN Case.params
    ELSE LET v == Case.directions[(ev + 1) \div 2]
             h == IF ev % 2 = 1 THEN H ELSE Negate(H) IN
         TLCEval([k \in DOMAIN Case.params |->
             IF HasKey(v, k) THEN Add(Case.params[k], Mul(h, Lookup(v, k, "0"))) ELSE Case.params[k]])

Init == /\ c = 1 /\ pc = "start" /\ e = 0 /\ i = 0 /\ t = 0 /\ bel = << >> /\ acc = << >>
        /\ par = << >> /\ totals = << >> /\ ctx = << >>

Start ==
    /\ c <= Len(Cases) /\ pc = "start"
    /\ ctx' = [panel |-> Panel(Mod, Case.data), rows |-> TLCEval(UpdateRows(Mod))]
    /\ totals' = << >> /\ e' = 0
    /\ pc' = IF Obs.error # "" THEN "finish" ELSE "begin"
    /\ UNCHANGED <<c, i, t, bel, acc, par>>

Begin ==
    /\ pc = "begin"
    /\ IF e = NEval THEN pc' = "finish" /\ UNCHANGED <<i, t, bel, acc, par>>
       ELSE \E p \in {Moved(e)} :
            /\ par' = p
            /\ bel' = [n \in 1..Len(ctx.panel) |-> InitialBelief(Mod, p)]
            /\ acc' = [n \in 1..Len(ctx.panel) |-> "0"]
            /\ i' = 1 /\ t' = 0 /\ pc' = "run"
    /\ UNCHANGED <<c, e, totals, ctx>>

Row == ctx.rows[i]
RunPredict ==
    /\ pc = "run" /\ i <= Len(ctx.rows) /\ t < Row.period
    /\ bel' = PredictAll(Mod, par, Case.data, ctx.panel, t, bel)
    /\ t' = t + 1
    /\ UNCHANGED <<c, pc, e, i, acc, par, totals, ctx>>
RunUpdate ==
    /\ pc = "run" /\ i <= Len(ctx.rows) /\ t = Row.period
    /\ \E res \in {UpdateAll(Mod, par, Case.data, ctx.panel, bel, Row)} :
         /\ bel' = Beliefs(res)
         /\ acc' = TLCEval([n \in 1..Len(res) |-> Add(acc[n], Clipped(Mod, res[n].ll))])
    /\ i' = i + 1
    /\ UNCHANGED <<c, pc, e, t, par, totals, ctx>>
EndRun ==
    /\ pc = "run" /\ i > Len(ctx.rows)
    /\ totals' = Append(totals, [contributions |-> acc, value |-> Sum(acc)])
    /\ e' = e + 1 /\ pc' = "begin"
    /\ UNCHANGED <<c, i, t, bel, acc, par, ctx>>

----------------------------------------------------------------------------
Clause(ok, text) == IF ok THEN << >> ELSE <<text>>
Keys0 == TLCEval([k \in 1..Len(ParamIndex(Mod)) |-> Key(ParamIndex(Mod)[k])])
ObjectiveOk(rec) ==
    /\ Same(rec.value, totals[1].value)
    /\ Len(rec.contributions) = Len(totals[1].contributions)
    /\ \A n \in 1..Len(rec.contributions) : Same(rec.contributions[n], totals[1].contributions[n])

Finite(g) == \A k \in 1..Len(g) : IsNum(g[k])
(* Derivative along direction d according to gradient g.                   *)
Directional(keys, g, v) == Dot([k \in 1..Len(v) |-> g[PosOf(v[k][1], keys)]], [k \in 1..Len(v) |-> v[k][2]])
Size(keys, g, v) == Sum([k \in 1..Len(v) |-> Abs(Mul(g[PosOf(v[k][1], keys)], v[k][2]))])
Quotient(d) == Div(Sub(totals[2 * d].value, totals[2 * d + 1].value), Mul("2", H))
DirectionOk(keys, g, d) ==
    LET v == Case.directions[d] IN
    Leq(Abs(Sub(Directional(keys, g, v), Quotient(d))), Mul("1E-6", Add("1", Size(keys, g, v))))

GradientVerdict(name, keys, g) ==
    IF Len(g) # Len(keys) THEN <<"length of the " \o name \o " @ " \o ToString(Len(g))>>
    ELSE IF ~Finite(g)
    THEN <<name \o " is not finite @ " \o keys[MinInt({k \in 1..Len(g) : ~IsNum(g[k])})]>>
    ELSE LET bad == {d \in 1..Len(Case.directions) : ~DirectionOk(keys, g, d)} IN
         IF bad = {} THEN << >>
         ELSE LET v == Case.directions[MinInt(bad)] IN
              <<name \o " is not the derivative @ " \o (IF Len(v) = 1 THEN v[1][1] ELSE "dense direction")
                \o " recorded " \o Directional(keys, g, v) \o " specified " \o Quotient(MinInt(bad))>>

Verdict ==
    IF Obs.error # "" THEN <<"the evaluation fails @ " \o Obs.error>>
    ELSE \* (CHOOSE from a singleton evaluates the keys once)
         CHOOSE r \in {
            Concat([k \in 1..Len(Obs.objectives) |->
                Clause(ObjectiveOk(Obs.objectives[k]), "value and contributions of " \o Obs.objectives[k].name)])
            \o Concat([k \in 1..Len(Obs.gradients) |-> GradientVerdict(Obs.gradients[k].name, keys, Obs.gradients[k].values)])
            : keys \in {Keys0}} : TRUE

Finish ==
    /\ pc = "finish"
    /\ PrintT("CASE " \o ToJson([id |-> Case.id, fails |-> Verdict]))
    /\ c' = c + 1 /\ pc' = IF c = Len(Cases) THEN "done" ELSE "start"
    /\ e' = 0 /\ i' = 0 /\ t' = 0 /\ bel' = << >> /\ acc' = << >> /\ par' = << >> /\ totals' = << >> /\ ctx' = << >>

Next == Start \/ Begin \/ RunPredict \/ RunUpdate \/ EndRun \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
