------------------------------ MODULE MCPanel ------------------------------
(***************************************************************************)
(* All small datasets: every cell of individuals x period labels holds no  *)
(* row or a row of one of several types.  Checks the design of Panel and   *)
(* prints a sample of the datasets for replay.                             *)
(***************************************************************************)
EXTENDS Panel, Json, IOUtils

(* [model, columns, ids, periods : labels, types : <<values by column>>,   *)
(*  every, offset : which datasets are printed]                            *)
Bases == TLCEval(ndJsonDeserialize(IOEnv.MODELS))
VARIABLES base, rows, cell, code
vars == <<base, rows, cell, code>>

B == Bases[base]
NCells == Len(B.ids) * Len(B.periods)
IdOf(k) == B.ids[((k - 1) \div Len(B.periods)) + 1]
PeriodOf(k) == B.periods[((k - 1) % Len(B.periods)) + 1]
(* A row of type k; individuals may differ in values.                      *)
Values(k) == TLCEval([c \in DOMAIN B.types[k] |->
    IF B.types[k][c] = "nan" THEN "nan" ELSE Add(B.types[k][c], Mul(B.spread, OfInt(IdOf(cell))))])
Data(rs) == [columns |-> B.columns, rows |-> rs]

Init == base \in 1..Len(Bases) /\ rows = << >> /\ cell = 1 /\ code = 0
Fill(k) ==
    /\ cell <= NCells
    /\ rows' = IF k = 0 THEN rows ELSE Append(rows, [id |-> IdOf(cell), period |-> PeriodOf(cell), v |-> Values(k)])
    /\ cell' = cell + 1
    /\ code' = (code * (Len(B.types) + 1) + k) % 100003
    /\ UNCHANGED base
    /\ IF cell = NCells /\ (code' * 37 + B.offset) % B.every = 0 /\ rows' # << >>
       THEN PrintT("DUMP " \o ToJson([base |-> base, rows |-> rows'])) ELSE TRUE
Next == \E k \in 0..Len(B.types) : Fill(k)
Spec == Init /\ [][Next]_vars

Done == cell > NCells /\ rows # << >>
M == B.model
Ups == UpdateRows(M)
(* Everything the model takes from a dataset, by individual.               *)
Read(d, panel, n) ==
    TLCEval([meas |-> [r \in 1..Len(Ups) |-> Meas(M, d, panel, n, Ups[r])],
             other |-> [t \in 1..NPeriods(M) |->
                [v \in Range(M.controls.list) \union Range(M.observed.list) |-> Cell(d, panel, n, t - 1, v)]]])
Reading(d) ==
    CHOOSE r \in {[n \in 1..Len(panel) |-> <<IdsOf(d)[n], Read(d, panel, n)>>] : panel \in {Panel(M, d)}} : TRUE
OfId(reading, a) == {reading[n][2] : n \in {k \in 1..Len(reading) : reading[k][1] = a}}
Probs(d) == CHOOSE r \in {DataProblems(M, d, panel, TRUE) : panel \in {Panel(M, d)}} : TRUE
Gone(d) == CHOOSE r \in {Discarded(M, d, panel) : panel \in {Panel(M, d)}} : TRUE

D0 == Data(rows)
Backwards(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
RowOrderIsIrrelevant ==
    Done => \E d \in {Data(Backwards(rows))} : Reading(d) = Reading(D0) /\ Probs(d) = Probs(D0) /\ Gone(d) = Gone(D0)
LabelsAreIrrelevant ==
    Done => \E d \in {Data([k \in 1..Len(rows) |-> [rows[k] EXCEPT !.id = 3 * @ - 50, !.period = @ * @ * @]])} :
        /\ [n \in 1..Len(Reading(d)) |-> Reading(d)[n][2]] = [n \in 1..Len(Reading(D0)) |-> Reading(D0)[n][2]]
        /\ Probs(d) = Probs(D0)
(* Individuals are read by themselves unless they carry a period.          *)
Individuals == {rows[k].id : k \in 1..Len(rows)}
Separable ==
    Done => \A a \in Individuals :
        \E d \in {Data(SelectSeq(rows, LAMBDA r : r.id # a))} :
            (PeriodsOf(d) = PeriodsOf(D0)) => \A b \in Individuals \ {a} : OfId(Reading(d), b) = OfId(Reading(D0), b)
(* Periods behind the last one of the model do not matter.                 *)
LateRowsAreIrrelevant ==
    Done /\ Len(PeriodsOf(D0)) > NPeriods(M) =>
        \E d \in {Data(SelectSeq(rows, LAMBDA r : r.period <= PeriodsOf(D0)[NPeriods(M)]))} :
            IdsOf(d) = IdsOf(D0) => Reading(d) = Reading(D0) /\ Probs(d) = Probs(D0) /\ Gone(d) = Gone(D0)
(* Deleting what is discarded gives the same reading and nothing more to discard. *)
Sources(t) == {PeriodRows(M, t)[i].source : i \in 1..Len(PeriodRows(M, t))}
PosOfPeriod(d, p) == PosOf(p, PeriodsOf(d)) - 1
Cleaned ==
    Data([k \in 1..Len(rows) |->
        IF <<rows[k].id, rows[k].period>> \in Gone(D0)
        THEN [rows[k] EXCEPT !.v = [c \in DOMAIN @ |-> IF c \in Sources(PosOfPeriod(D0, rows[k].period)) THEN "nan" ELSE @[c]]]
        ELSE rows[k]])
DiscardingIsComplete ==
    Done /\ (\A t \in 0..(NPeriods(M) - 1) : Sources(t) \cap (Range(M.controls.list) \union Range(M.observed.list)) = {}) =>
        \E d \in {Cleaned} : Gone(d) = {} /\ Reading(d) = Reading(D0)
DiscardedRowsExist == Done => Gone(D0) \subseteq {<<rows[k].id, rows[k].period>> : k \in 1..Len(rows)}
=============================================================================
