------------------------------- MODULE Panel -------------------------------
(***************************************************************************)
(* From a long dataset to what is observed of whom when.                   *)
(* A dataset is [columns : names, rows : <<[id, period, v]>>] where id and *)
(* period are integers (order preserving codes of the labels) and v maps   *)
(* every column to a numeral or "nan".                                     *)
(***************************************************************************)
EXTENDS Model

IdsOf(d) == SortInts({d.rows[i].id : i \in 1..Len(d.rows)})
PeriodsOf(d) == SortInts({d.rows[i].period : i \in 1..Len(d.rows)})

(* Row of every individual (in the order of the ids) in every model period *)
(* (in the order of the periods in the data); 0 if there is none.          *)
Panel(m, d) ==
    LET ids == TLCEval(IdsOf(d))
        ps == TLCEval(PeriodsOf(d))
        np == NPeriods(m) IN
    TLCEval([n \in 1..Len(ids) |-> TLCEval([k \in 1..np |->
        LET hits == {i \in 1..Len(d.rows) :
                        k <= Len(ps) /\ d.rows[i].id = ids[n] /\ d.rows[i].period = ps[k]}
        IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : TRUE])])

HasColumn(d, var) == InSeq(var, d.columns)
(* Value of variable var of the n-th individual in period t.               *)
Cell(d, panel, n, t, var) ==
    IF var = "constant" THEN "1"
    ELSE LET i == panel[n][t + 1] IN
         IF i = 0 \/ ~HasColumn(d, var) THEN "nan" ELSE d.rows[i].v[var]
Missing(x) == x = "nan"

(* Individuals with measurements but incomplete controls in a period.      *)
Incomplete(m, d, panel, n, t) ==
    /\ \E c \in Range(m.controls.list) : Missing(Cell(d, panel, n, t, c))
    /\ LET rows == PeriodRows(m, t) IN
       \E i \in 1..Len(rows) : ~Missing(Cell(d, panel, n, t, rows[i].source))

(* What the measurement of an update row is taken to be.                   *)
Meas(m, d, panel, n, row) ==
    IF Incomplete(m, d, panel, n, row.period) THEN "nan"
    ELSE Cell(d, panel, n, row.period, row.source)

----------------------------------------------------------------------------
(* Rejection.  Problems are <<period, variable, text>>.                    *)
DataProblems(m, d, panel, forEstimation) ==
    LET N == Len(panel)
        vals(t, var) == {Cell(d, panel, n, t, var) : n \in 1..N} \ {"nan"} IN
    UNION {
        {<<t, c, "missing">> : c \in {x \in Range(m.controls.list) : vals(t, x) = {}}}
        \union
        (IF ~forEstimation THEN {} ELSE
         LET rows == PeriodRows(m, t) IN
         {<<t, rows[i].name, "missing">> : i \in {j \in 1..Len(rows) : ~HasColumn(d, rows[j].source)}}
         \union
         {<<t, rows[i].name, "variance">> : i \in {j \in 1..Len(rows) :
              HasColumn(d, rows[j].source) /\ Cardinality(vals(t, rows[j].source)) = 1}})
        \union
        {<<t, o, "missing">> : o \in {x \in Range(m.observed.list) : ~HasColumn(d, x)}}
        \union
        {<<t, o, "missings">> : o \in {x \in Range(m.observed.list) :
              HasColumn(d, x) /\ \E n \in 1..N : Missing(Cell(d, panel, n, t, x))}}
        : t \in 0..(NPeriods(m) - 1)}

(* Rows of data whose measurements are discarded.                          *)
Discarded(m, d, panel) ==
    UNION {{<<IdsOf(d)[n], PeriodsOf(d)[t + 1]>> :
        n \in {k \in 1..Len(panel) : panel[k][t + 1] # 0 /\ Incomplete(m, d, panel, k, t)}}
        : t \in 0..(NPeriods(m) - 1)}
=============================================================================
