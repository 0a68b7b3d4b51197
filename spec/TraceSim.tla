------------------------------ MODULE TraceSim ------------------------------
(***************************************************************************)
(* Simulated datasets are validated against the data generating process,   *)
(* one state per period.  Given the recorded states of a period, those of  *)
(* the next one have to equal their mean wherever nothing is random; where *)
(* something is random the standardized deviations are collected and their *)
(* moments are checked at the end (if there are enough individuals).       *)
(***************************************************************************)
EXTENDS Simulate, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Tol == "1E-6"
Same(a, b) == Close(a, b, Tol)
Null(e, x) == IsNum(e) /\ Leq(Abs(e), Mul(Tol, Add("1", Abs(x))))

VARIABLES c, pc, t, z, fails, ctx
vars == <<c, pc, t, z, fails, ctx>>
Case == Cases[c]
Mod == Case.model
Obs == Case.obs
Par0 == Case.params
F == NLatent(Mod)
T == NPeriods(Mod)
N == ctx.n
Facs == Latent(Mod)

Add1(fs, clause, where) == IF Len(fs) >= 12 THEN fs ELSE Append(fs, clause \o " @ " \o where)
Check(fs, ok, clause, where) == IF ok THEN fs ELSE Add1(fs, clause, where)
CheckAll(fs, bad, clause, where(_)) ==
    IF bad = {} THEN fs ELSE Add1(fs, clause, where(MinInt(bad)) \o " (" \o ToString(Cardinality(bad)) \o " individuals)")

IsMat(x, n, k) == Len(x) = n /\ \A a \in 1..n : Len(x[a]) = k
Controls0(n, s) ==
    IF Case.has_data
    THEN [j \in 1..Len(Controls(Mod)) |-> Cell(Case.data, ctx.panel, n, s, Controls(Mod)[j])]
    ELSE <<"1">>
Observed0(n, s) == [j \in 1..Len(Observed(Mod)) |-> Cell(Case.data, ctx.panel, n, s, Observed(Mod)[j])]

Init == c = 1 /\ pc = "start" /\ t = 0 /\ z = << >> /\ fails = << >> /\ ctx = [n |-> 0]

ShapeOk(n, rows) ==
    /\ Len(Obs.states) = T
    /\ \A s \in 1..T : Obs.states[s].period = s - 1 /\ IsMat(Obs.states[s].states, n, F)
    /\ Obs.states_ok
Start ==
    /\ c <= Len(Cases) /\ pc = "start"
    /\ \E panel \in {IF Case.has_data THEN Panel(Mod, Case.data) ELSE << >>},
          rows \in {TLCEval(UpdateRows(Mod))},
          refused \in {Refused(Mod, Case.has_data, Case.has_n, Case.policies)} :
       LET n == IF Case.has_data THEN Len(panel) ELSE Case.n
           ok == ShapeOk(n, rows)
       IN /\ ctx' = [n |-> n, panel |-> panel, rows |-> rows]
          /\ fails' =
               IF refused
               THEN (IF Obs.exception = "ValueError" THEN << >>
                     ELSE <<"not refused with a ValueError @ " \o Obs.error>>)
               ELSE IF Obs.error # "" THEN <<"the simulation fails @ " \o Obs.error>>
               ELSE Check(<< >>, ok, "one row of states per individual and period", "shape")
          /\ pc' = IF ~refused /\ Obs.error = "" /\ ok THEN "states" ELSE "finish"
    /\ t' = 0 /\ z' = << >> /\ UNCHANGED c

----------------------------------------------------------------------------
(* States                                                                  *)
Big == Case.moments
Dist(x, y) == LET d == VSub(x, y) IN Dot(d, d)
ZerosOk(r, x) == \A i \in 1..Len(r.rest) : Null(r.rest[i].e, x[r.rest[i].at])

(* (\E x \in {e} evaluates e once.)                                        *)
StartStates ==
    /\ pc = "states" /\ t = 0
    /\ \E xs \in {Obs.states[1].states},
          means \in {TLCEval([k \in 1..NMixtures(Mod) |-> StartMean(Mod, Par0, Case.policies, k)])},
          chols \in {TLCEval([k \in 1..NMixtures(Mod) |-> StartChol(Mod, Par0, Case.policies, k)])} :
       \E st \in {TLCEval([k \in 1..NMixtures(Mod) |-> TLCEval([n \in 1..N |-> Standardize(chols[k], VSub(xs[n], means[k]))])])} :
       \E fits \in {TLCEval([n \in 1..N |->
                        {k \in 1..NMixtures(Mod) : Lt("0", Weight(Mod, Par0, k)) /\ ZerosOk(st[k][n], means[k])}])} :
       \E comp \in {TLCEval([n \in 1..N |->
                     IF fits[n] = {} THEN 0
                     ELSE IF Cardinality(fits[n]) = 1 THEN CHOOSE k \in fits[n] : TRUE
                     ELSE CHOOSE k \in fits[n] : \A j \in fits[n] : Leq(Dist(xs[n], means[k]), Dist(xs[n], means[j]))])},
          bad \in {{n \in 1..N : fits[n] = {}}} :
       LET K == NMixtures(Mod)
           random(k, f) == Lt("1E-12", chols[k][f][f])
           ofComp(k) == SelectSeq([n \in 1..N |-> n], LAMBDA n : comp[n] = k)
           w(k) == Weight(Mod, Par0, k)
           drawn(k) ==        \* standardized indicators of the component
               IF Lt("0.05", w(k)) /\ Lt(w(k), "0.95")
               THEN <<[name |-> "being in " \o Mixture(k), kind |-> "indicator", of |-> "all",
                       v |-> TLCEval([n \in 1..N |-> Div(Sub(IF comp[n] = k THEN "1" ELSE "0", w(k)), Sqrt(Mul(w(k), Sub("1", w(k)))))])]>>
               ELSE << >>
           normals(k, ns) ==
               drawn(k) \o
               <<[name |-> "share of " \o Mixture(k), kind |-> "share", of |-> ToString(k),
                  v |-> <<Div(OfInt(Len(ns)), OfInt(N)), w(k)>>]>>
               \o SelectSeq([f \in 1..F |->
                    [name |-> "initial " \o Facs[f] \o " in " \o Mixture(k),
                     kind |-> IF random(k, f) THEN "normal" ELSE "none",
                     of |-> IF K = 1 THEN "all" ELSE ToString(k), v |-> TLCEval([i \in 1..Len(ns) |-> st[k][ns[i]].z[f]])]],
                    LAMBDA r : r.kind = "normal")
       IN /\ fails' = CheckAll(fails, bad, "states of period 0 are not those of a component",
                               LAMBDA n : "individual " \o ToString(n))
          /\ z' = IF ~Big \/ bad # {} THEN << >>
                  ELSE TLCEval(Concat([k \in 1..K |-> normals(k, TLCEval(ofComp(k)))]))
    /\ pc' = "measure" /\ UNCHANGED <<c, t, ctx>>

NextStatesOk ==
    /\ pc = "states" /\ t > 0
    /\ \E xs \in {Obs.states[t].states}, ys \in {Obs.states[t + 1].states}, st \in {Step(Mod, Par0, t - 1)},
          eff \in {Effects(Mod, Case.policies, t)},
          sd \in {TLCEval([f \in 1..F |-> NextSd(Mod, Par0, Case.policies, t - 1, Facs[f])])} :
       \E means \in {TLCEval([n \in 1..N |-> NextMean(Mod, st, eff, xs[n], Observed0(n, t - 1))])},
          fixed \in {{f \in 1..F : Leq(sd[f], "1E-12")}},
          nan \in {{n \in 1..N : \E f \in 1..F : ~IsNum(ys[n][f])}} :
       \E bad \in {{n \in 1..N : \E f \in fixed : ~Same(ys[n][f], means[n][f])}} :
          /\ fails' = CheckAll(CheckAll(fails, bad, "states", LAMBDA n : "period " \o ToString(t) \o ", individual " \o ToString(n)),
                               nan, "missing states", LAMBDA n : "period " \o ToString(t) \o ", individual " \o ToString(n))
          /\ z' = IF ~Big \/ nan # {} THEN z
                  ELSE TLCEval(z \o SelectSeq([f \in 1..F |->
                         IF f \in fixed THEN [kind |-> "none"]
                         ELSE [name |-> "shock of " \o Facs[f] \o " before period " \o ToString(t), kind |-> "normal", of |-> "all",
                               v |-> TLCEval([n \in 1..N |-> Div(Sub(ys[n][f], means[n][f]), sd[f])])]],
                         LAMBDA r : r.kind = "normal"))
    /\ pc' = "measure" /\ UNCHANGED <<c, t, ctx>>

----------------------------------------------------------------------------
(* Measurements                                                            *)
MeasShape == /\ Len(Obs.meas) = T /\ Obs.meas[t + 1].period = t
             /\ IsMat(Obs.meas[t + 1].values, N, Len(Obs.columns)) /\ Obs.meas[t + 1].ok
MeasColumns == /\ Range(Obs.columns) = {ctx.rows[i].name : i \in 1..Len(ctx.rows)} /\ NoDuplicates(Obs.columns)

MeasureRows(rows, vals, xs, cs) ==
    LET cols == Obs.columns IN
    \E at \in {TLCEval([i \in 1..Len(rows) |-> PosOf(rows[i].name, cols)])},
       sd \in {TLCEval([i \in 1..Len(rows) |-> MeasSd(Par0, rows[i])])},
       hs \in {TLCEval([i \in 1..Len(rows) |-> LoadingVector(Mod, Par0, rows[i])])},
       bs \in {TLCEval([i \in 1..Len(rows) |-> ControlCoefs(Mod, Par0, rows[i])])} :
    \E mean \in {TLCEval([i \in 1..Len(rows) |-> TLCEval([n \in 1..N |-> MeasMean(hs[i], bs[i], xs[n], cs[n])])])} :
    LET random(i) == Lt("1E-12", sd[i]) IN
    \E bads \in {TLCEval([i \in 1..Len(rows) |-> {n \in 1..N :
                IF Missing(mean[i][n]) THEN ~Missing(vals[n][at[i]])
                ELSE ~IsNum(vals[n][at[i]]) \/ (~random(i) /\ ~Same(vals[n][at[i]], mean[i][n]))}])},
       extra \in {{n \in 1..N : \E y \in 1..Len(cols) : (\A i \in 1..Len(rows) : at[i] # y) /\ ~Missing(vals[n][y])}} :
    \E badrows \in {{i \in 1..Len(rows) : bads[i] # {}}} :
        /\ fails' = Check(Check(fails, badrows = {}, "measurement",
                            IF badrows = {} THEN ""
                            ELSE LET i == MinInt(badrows) IN
                                 rows[i].name \o ", period " \o ToString(t) \o ", individual " \o ToString(MinInt(bads[i]))),
                          extra = {}, "value of a variable that is not measured", "period " \o ToString(t))
        /\ z' = IF ~Big \/ badrows # {} THEN z
                ELSE TLCEval(z \o SelectSeq([i \in 1..Len(rows) |->
                       IF ~random(i) \/ \E n \in 1..N : Missing(mean[i][n]) THEN [kind |-> "none"]
                       ELSE [name |-> "error of " \o rows[i].name \o " in period " \o ToString(t), kind |-> "normal", of |-> "all",
                             v |-> TLCEval([n \in 1..N |-> Div(Sub(vals[n][at[i]], mean[i][n]), sd[i])])]],
                       LAMBDA r : r.kind = "normal"))

Measure ==
    /\ pc = "measure"
    /\ IF ~MeasShape \/ ~MeasColumns
       THEN /\ fails' = Check(Check(fails, MeasShape, "one row of measurements per individual and period", "period " \o ToString(t)),
                              MeasColumns, "columns of the measurements", "all periods")
            /\ UNCHANGED z
       ELSE \E rows \in {SelectSeq(ctx.rows, LAMBDA r : r.period = t)}, vals \in {Obs.meas[t + 1].values},
               xs \in {Obs.states[t + 1].states}, cs \in {TLCEval([n \in 1..N |-> TLCEval(Controls0(n, t))])} :
            MeasureRows(rows, vals, xs, cs)
    /\ t' = t + 1
    /\ pc' = IF t + 1 = T THEN "tables" ELSE "states"
    /\ UNCHANGED <<c, ctx>>

----------------------------------------------------------------------------
(* Tables                                                                  *)
RangesOk(rec, states) ==          \* states[s][n][f] of period s - 1
    /\ Len(rec) = F
    /\ \A f \in 1..F : /\ Len(rec[f]) = T
                       /\ \A s \in 1..T : \E xs \in {TLCEval([n \in 1..N |-> states[s][n][f]])} :
                            /\ rec[f][s].period = s - 1
                            /\ Same(rec[f][s].min, MinSeq(xs)) /\ Same(rec[f][s].max, MaxSeq(xs))
Tables ==
    /\ pc = "tables"
    /\ \E xs \in {TLCEval([s \in 1..T |-> Obs.states[s].states])},
          an \in {TLCEval([s \in 1..T |-> Anchor(Mod, Par0, s - 1)])} :
       IF \E s \in 1..T : \E n \in 1..N : \E f \in 1..F : ~IsNum(xs[s][n][f])
       THEN fails' = Check(fails, FALSE, "missing states", "table")
       ELSE \E ax \in {TLCEval([s \in 1..T |-> TLCEval([n \in 1..N |->
                        Vec(F, LAMBDA f : Add(Mul(xs[s][n][f], an[s].scale[f]), an[s].const[f]))])])} :
            LET a == Obs.anchored
                aok == /\ Len(a) = T
                       /\ \A s \in 1..T : /\ a[s].period = s - 1 /\ IsMat(a[s].states, N, F)
                                          /\ \A n \in 1..N : \A f \in 1..F : Same(a[s].states[n][f], ax[s][n][f])
            IN fails' = Check(Check(Check(fails, RangesOk(Obs.ranges, xs), "state ranges", "table"),
                                    aok, "anchored states", "table"),
                              RangesOk(Obs.anchored_ranges, ax), "anchored state ranges", "table")
    /\ pc' = "moments" /\ UNCHANGED <<c, t, z, ctx>>

(* Sigmas allowed: 6.5 for means (8 for second moments), i.e. false alarms *)
(* of probability below 1E-9 per comparison.                               *)
Dev(x, target, variance, n, k) == Leq(Abs(Sub(x, target)), Mul(k, Sqrt(Div(variance, OfInt(n)))))
Mean(s) == Div(Sum(s), OfInt(Len(s)))
MomentsOf(r) ==
    IF r.kind = "share"
    THEN (IF Dev(r.v[1], r.v[2], Mul(r.v[2], Sub("1", r.v[2])), N, "6.5") THEN << >> ELSE <<r.name>>)
    ELSE LET n == Len(r.v)
             inside == Cardinality({i \in 1..n : Lt(Abs(r.v[i]), "1")})
             h == n \div 2
             lag == Div(Dot(SubSeq(r.v, 1, n - 1), SubSeq(r.v, 2, n)), OfInt(n))
             \* individuals and their counterparts in the other half
             half == Div(Dot(SubSeq(r.v, 1, h), SubSeq(r.v, n - h + 1, n)), OfInt(h))
             mirror == Div(Dot(SubSeq(r.v, 1, h), [i \in 1..h |-> r.v[n + 1 - i]]), OfInt(h))
             alone == /\ Dev(lag, "0", "1", n, "6.5")
                      /\ Dev(half, "0", "1", h, "6.5")
                      /\ Dev(mirror, "0", "1", h, "6.5") IN
         IF n < 400 THEN << >>
         ELSE IF r.kind = "indicator"
         THEN (IF alone THEN << >> ELSE <<"moment: individuals are dependent in " \o r.name>>)
         ELSE (IF Dev(Mean(r.v), "0", "1", n, "6.5") THEN << >> ELSE <<"moment: mean of " \o r.name>>)
              \o (IF Dev(Div(Dot(r.v, r.v), OfInt(n)), "1", "2", n, "8") THEN << >> ELSE <<"moment: variance of " \o r.name>>)
              \o (IF Dev(Div(OfInt(inside), OfInt(n)), "0.682689492137", "0.2167", n, "6.5") THEN << >>
                  ELSE <<"moment: shape of the distribution of " \o r.name>>)
              \o (IF alone THEN << >> ELSE <<"moment: individuals are dependent in " \o r.name>>)
(* Vectors over all individuals and, within a component, those of it.      *)
Pairable(a, b) == a.kind \in {"normal", "indicator"} /\ b.kind = "normal" /\ Len(a.v) = Len(b.v) /\ a.of = b.of /\ Len(a.v) >= 400
CrossOf(zz) ==
    LET pairs == {<<i, j>> \in (1..Len(zz)) \X (1..Len(zz)) : i < j /\ Pairable(zz[i], zz[j])}
        bad == {p \in pairs : LET n == Len(zz[p[1]].v) IN
                    ~Dev(Div(Dot(zz[p[1]].v, zz[p[2]].v), OfInt(n)), "0", "1", n, "6.5")}
    IN IF bad = {} THEN << >>
       ELSE LET p == CHOOSE q \in bad : TRUE IN <<"moment: dependence of " \o zz[p[1]].name \o " and " \o zz[p[2]].name>>

SomethingRandom ==
    \/ NMixtures(Mod) > 1 /\ \A k \in 1..NMixtures(Mod) : Lt("0.05", Weight(Mod, Par0, k))
    \/ \E p \in Range(MeasSdParams(Mod)) \union Range(ShockParams(Mod)) : Lt("0.05", Par0[Key(p)])
Moments ==
    /\ pc = "moments"
    /\ LET f1 == Check(fails, Obs.digests[1] = Obs.digests[2], "seed: two simulations with the same seed differ", "digests")
           f2 == Check(f1, ~(SomethingRandom /\ N >= 12) \/ Obs.digests[1] # Obs.digests[3],
                       "seed: simulations with different seeds are equal", "digests")
       IN fails' = f2 \o (IF Big THEN Take(Concat([i \in 1..Len(z) |-> MomentsOf(z[i])]) \o CrossOf(z), 8) ELSE << >>)
    /\ pc' = "finish" /\ UNCHANGED <<c, t, z, ctx>>

Finish ==
    /\ pc = "finish"
    /\ PrintT("CASE " \o ToJson([id |-> Case.id, fails |-> fails]))
    /\ c' = c + 1 /\ pc' = IF c = Len(Cases) THEN "done" ELSE "start"
    /\ t' = 0 /\ z' = << >> /\ fails' = << >> /\ ctx' = [n |-> 0]

Next == Start \/ StartStates \/ NextStatesOk \/ Measure \/ Tables \/ Moments \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
