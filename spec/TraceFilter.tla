---------------------------- MODULE TraceFilter ----------------------------
(***************************************************************************)
(* Recorded likelihood evaluations are validated against the belief state  *)
(* machine of Filter.  One state per recorded update (silent states for    *)
(* predictions); every individual and mixture component of a case advances *)
(* together, as in the library.  Verdicts are total: clauses that fail are *)
(* collected and printed, the specification's own belief is carried on.    *)
(***************************************************************************)
EXTENDS Likelihood, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Tol == "1E-7"
Same(a, b) == Close(a, b, Tol)

VARIABLES c,      \* current case
          pc,     \* "start", "run", "finish"
          i,      \* next update
          t,      \* period the belief refers to
          bel,    \* belief per individual
          acc,    \* per individual and update: contribution according to the specification
          kept,   \* period -> <<mixture means>> after the last measurement of the period
          fails, ctx
vars == <<c, pc, i, t, bel, acc, kept, fails, ctx>>

Case == Cases[c]
Mod == Case.model
Obs == Case.obs
MaxFails == 12
Add1(fs, clause, where) == IF Len(fs) >= MaxFails THEN fs ELSE Append(fs, clause \o " @ " \o where)
Check(fs, ok, clause, where) == IF ok THEN fs ELSE Add1(fs, clause, where)

(* Shapes of recorded arrays                                               *)
IsVec(x, n) == Len(x) = n
IsMat(x, n, k) == Len(x) = n /\ \A a \in 1..n : Len(x[a]) = k
Is3(x, n, k, l) == Len(x) = n /\ \A a \in 1..n : IsMat(x[a], k, l)

Init == c = 1 /\ pc = "start" /\ i = 0 /\ t = 0 /\ bel = << >> /\ acc = << >>
        /\ kept = << >> /\ fails = << >> /\ ctx = [panel |-> << >>, rows |-> << >>, reject |-> FALSE]

StartCase ==
    /\ c <= Len(Cases) /\ pc = "start"
    /\ \E panel \in {Panel(Mod, Case.data)}, rows \in {TLCEval(UpdateRows(Mod))} :
       LET N == Len(panel)
           b0 == InitialBelief(Mod, Case.params)
           shapes == [k \in 1..Len(rows) |-> 0]
           K == NMixtures(Mod)
           F == NLatent(Mod)
           ok == /\ Len(Obs.updates) = Len(rows)
                 /\ \A r \in 1..Len(rows) :
                      /\ IsMat(Obs.updates[r].resid, N, K) /\ IsMat(Obs.updates[r].sd, N, K)
                      /\ IsVec(Obs.updates[r].contrib, N) /\ Is3(Obs.updates[r].states, N, K, F)
       IN /\ ctx' = [panel |-> panel, rows |-> rows, reject |-> Obs.error # "" \/ ~ok]
          /\ bel' = [n \in 1..N |-> b0]
          /\ acc' = [n \in 1..N |-> << >>]
          /\ kept' = << >>
          /\ fails' = IF Obs.error # "" THEN <<"the evaluation fails: " \o Obs.error>>
                      ELSE Check(<< >>, ok, "shape of the recorded updates",
                                 "rows " \o ToString(Len(Obs.updates)) \o " instead of " \o ToString(Len(rows)))
          /\ pc' = IF Obs.error # "" \/ ~ok THEN "finish" ELSE "run"
    /\ i' = 1 /\ t' = 0 /\ UNCHANGED c

Row == ctx.rows[i]
Rec == Obs.updates[i]
N == Len(ctx.panel)

(* The belief is behind the period of the next update: one prediction.     *)
RunPredict ==
    /\ pc = "run" /\ i <= Len(ctx.rows) /\ t < Row.period
    /\ bel' = PredictAll(Mod, Case.params, Case.data, ctx.panel, t, bel)
    /\ t' = t + 1
    /\ UNCHANGED <<c, pc, i, acc, kept, fails, ctx>>

Verdict(res) ==
    LET K == NMixtures(Mod)
        F == NLatent(Mod)
        w(n) == Row.name \o ", period " \o ToString(Row.period) \o ", individual " \o ToString(n)
        bad(P(_)) == {n \in 1..N : ~P(n)}
        f1 == Check(fails, Rec.period = Row.period /\ Rec.name = Row.name /\ Rec.ok,
                    "labels of the update", ToString(i) \o ": " \o Rec.name \o " instead of " \o Row.name
                    \o " in " \o ToString(Row.period))
        badc == bad(LAMBDA n : Same(Rec.contrib[n], res[n].ll))
        f2 == Check(f1, badc = {}, "contribution", IF badc = {} THEN "" ELSE w(MinInt(badc))
                \o " recorded " \o Rec.contrib[MinInt(badc)] \o " specified " \o res[MinInt(badc)].ll)
        badr == bad(LAMBDA n : \A k \in 1..K :
                    IF res[n].missing THEN Rec.resid[n][k] = "nan"
                    ELSE Same(Rec.resid[n][k], res[n].pred[k].e))
        f3 == Check(f2, badr = {}, "residual", IF badr = {} THEN "" ELSE w(MinInt(badr)))
        bads == bad(LAMBDA n : \A k \in 1..K :
                    IF res[n].missing THEN Rec.sd[n][k] = "nan"
                    ELSE Same(Rec.sd[n][k], Sqrt(res[n].pred[k].s2)))
        f4 == Check(f3, bads = {}, "residual sd", IF bads = {} THEN "" ELSE w(MinInt(bads)))
        badm == bad(LAMBDA n : \A k \in 1..K : \A f \in 1..F :
                    Same(Rec.states[n][k][f], res[n].b.c[k].m[f]))
        f5 == Check(f4, badm = {}, "states after the update", IF badm = {} THEN "" ELSE w(MinInt(badm)))
    IN f5

LastRowKept(j) ==     \* is update j the one the filtered states of its period are taken from
    LET rows == ctx.rows
        same == {k \in 1..Len(rows) : rows[k].period = rows[j].period}
        meas == {k \in same : rows[k].purpose = "measurement"} IN
    j = MaxInt(IF meas = {} THEN same ELSE meas)

RunUpdate(purpose) ==
    /\ pc = "run" /\ i <= Len(ctx.rows) /\ t = Row.period /\ Row.purpose = purpose
    /\ \E res \in {UpdateAll(Mod, Case.params, Case.data, ctx.panel, bel, Row)} :   \* (binds res once)
          /\ bel' = Beliefs(res)
          /\ acc' = TLCEval([n \in 1..N |-> Append(acc[n], res[n].ll)])
          /\ fails' = Verdict(res)
          /\ kept' = IF LastRowKept(i)
                     THEN Append(kept, [period |-> Row.period,
                                        states |-> TLCEval([n \in 1..N |-> MixtureMean(res[n].b)])])
                     ELSE kept
    /\ i' = i + 1
    /\ UNCHANGED <<c, pc, t, ctx>>
RunMeasurement == RunUpdate("measurement")
RunAnchoring == RunUpdate("anchoring")

EndRun == /\ pc = "run" /\ i > Len(ctx.rows) /\ pc' = "finish"
          /\ UNCHANGED <<c, i, t, bel, acc, kept, fails, ctx>>

----------------------------------------------------------------------------
(* Tables at the end                                                       *)
StatesTable(rec, spec) ==   \* sequences of [period, states]
    /\ Len(rec) = Len(spec)
    /\ \A k \in 1..Len(spec) :
         /\ rec[k].period = spec[k].period
         /\ IsMat(rec[k].states, N, NLatent(Mod))
         /\ \A n \in 1..N : \A f \in 1..NLatent(Mod) : Same(rec[k].states[n][f], spec[k].states[n][f])
RangesTable(rec, spec) ==   \* rec: per factor, sequence of [period, min, max]
    /\ Len(rec) = NLatent(Mod)
    /\ \A f \in 1..NLatent(Mod) :
         /\ Len(rec[f]) = Len(spec)
         /\ \A k \in 1..Len(spec) :
              LET xs == [n \in 1..N |-> spec[k].states[n][f]] IN
              /\ rec[f][k].period = spec[k].period
              /\ Same(rec[f][k].min, MinSeq(xs)) /\ Same(rec[f][k].max, MaxSeq(xs))
AnchoredKept ==
    TLCEval([k \in 1..Len(kept) |-> [period |-> kept[k].period, states |-> TLCEval([n \in 1..N |->
        Vec(NLatent(Mod), LAMBDA f :
            ToAnchored(Mod, Case.params, kept[k].period, Latent(Mod)[f], kept[k].states[n][f]))])]])

TotalsOk(rec) ==     \* [value, contributions]
    LET sums == TLCEval([n \in 1..N |-> Sum([k \in 1..Len(acc[n]) |-> Clipped(Mod, acc[n][k])])]) IN
    /\ IsVec(rec.contributions, N)
    /\ \A n \in 1..N : Same(rec.contributions[n], sums[n])
    /\ Same(rec.value, Sum(sums))

FinalVerdict ==
    LET f1 == Check(fails, TotalsOk(Obs), "value and contributions of debug_loglike", "total")
        f2 == Check(f1, \A k \in 1..Len(Obs.fast) : TotalsOk(Obs.fast[k]), "value and contributions of loglike", "total")
        f3 == Check(f2, StatesTable(Obs.filtered, kept), "filtered states", "table")
        f4 == Check(f3, RangesTable(Obs.ranges, kept), "state ranges", "table")
        f5 == Check(f4, Len(Obs.anchored) = 0 \/
                        (StatesTable(Obs.anchored, AnchoredKept) /\ StatesTable(Obs.again, AnchoredKept) /\ RangesTable(Obs.anchored_ranges, AnchoredKept)),
                    "anchored states or their ranges", "table")
        f6 == Check(f5, Len(Obs.anchored) = 0 \/
                        (StatesTable(Obs.unanchored, kept) /\ RangesTable(Obs.unanchored_ranges, kept)),
                    "unanchored states or their ranges", "table")
    IN f6

FinishCase ==
    /\ pc = "finish"
    /\ LET fs == IF ctx.reject THEN fails ELSE FinalVerdict IN
       PrintT("CASE " \o ToJson([id |-> Case.id, fails |-> fs]))
    /\ c' = c + 1 /\ pc' = IF c = Len(Cases) THEN "done" ELSE "start"
    /\ i' = 0 /\ t' = 0 /\ bel' = << >> /\ acc' = << >> /\ kept' = << >> /\ fails' = << >>
    /\ ctx' = [panel |-> << >>, rows |-> << >>, reject |-> FALSE]

Next == StartCase \/ RunPredict \/ RunMeasurement \/ RunAnchoring \/ EndRun \/ FinishCase
Spec == Init /\ [][Next]_vars

(* Invariants of the state machine, checked along every recorded run       *)
PosteriorIsDistribution ==
    pc = "run" => \A n \in 1..Len(bel) :
        \/ Len(bel[n].w) = 1
        \/ Close(Sum([k \in 1..Len(bel[n].w) |-> IF bel[n].w[k] = "-inf" THEN "0" ELSE Exp(bel[n].w[k])]), "1", "1E-12")
CovariancesArePositive ==
    pc = "run" => \A n \in 1..Len(bel) : \A k \in 1..Len(bel[n].c) :
        \A f \in 1..Len(bel[n].c[k].P) : Leq("-1E-25", bel[n].c[k].P[f][f])
AllDone == TLCGet("level") >= 0 /\ (pc = "done" => c = Len(Cases) + 1)
=============================================================================
