----------------------------- MODULE TraceCorr -----------------------------
(* Recorded correlation tables and heatmaps against Corr.                   *)
EXTENDS Corr, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c
Case == Cases[c]
Mod == Case.model

Clause(ok, name, detail) == IF ok THEN << >> ELSE <<name \o " @ " \o detail>>
OneOf(S) == IF S = {} THEN "" ELSE ToString(CHOOSE x \in S : TRUE)
Tol == "1E-7"
SameCorr(rec, spec) ==
    CASE spec = "any" -> TRUE
      [] spec = "nan" -> rec = "nan"
      [] OTHER -> IsNum(rec) /\ Leq(Abs(Sub(rec, spec)), Tol)

TableFails(vs, tab, o, name) ==
    LET labels == [i \in 1..Len(vs) |-> vs[i].label]
        n == Len(vs) IN
    IF o.error # "" THEN <<name \o " fails @ " \o o.error>>
    ELSE IF o.columns # labels \/ o.index # labels THEN <<name \o ": variables @ " \o ToString(o.columns) \o " instead of " \o ToString(labels)>>
    ELSE LET bad == {<<i, j>> \in (1..n) \X (1..n) : ~SameCorr(o.values[i][j], tab[i][j])} IN
         Clause(bad = {}, name \o ": correlation",
                OneOf({<<labels[b[1]], labels[b[2]], o.values[b[1]][b[2]], tab[b[1]][b[2]]>> : b \in bad}))

(* The picture is judged against the recorded table it is drawn from.      *)
PictureFails(t, h) ==
    LET o == h.options
        rows == KeptRows(o, t.values)
        cols == KeptCols(o, t.values)
        ys == [i \in 1..Len(rows) |-> t.columns[rows[i]]]
        xs == [j \in 1..Len(cols) |-> t.columns[cols[j]]]
        want(i, j) == IF Shown(o, rows[i], cols[j]) THEN t.values[rows[i]][cols[j]] ELSE "nan"
        cellOk(v, i, j) == IF want(i, j) = "nan" THEN v = "nan" ELSE IsRounded(v, want(i, j), o.rounding) IN
    IF h.error # "" THEN <<"heatmap fails @ " \o h.error>>
    ELSE IF h.x # xs \/ h.y # ys THEN <<"heatmap: labels @ " \o ToString(h.x) \o ToString(h.y)>>
    ELSE LET bad == {<<i, j>> \in (1..Len(ys)) \X (1..Len(xs)) : ~cellOk(h.z[i][j], i, j)}
             text == {<<h.annotations[k].y, h.annotations[k].x>> : k \in 1..Len(h.annotations)}
             badText == {k \in 1..Len(h.annotations) :
                           LET a == h.annotations[k] IN
                           ~(InSeq(a.x, xs) /\ InSeq(a.y, ys) /\ cellOk(a.value, PosOf(a.y, ys), PosOf(a.x, xs)))} IN
         Clause(bad = {}, "heatmap: number", OneOf({<<ys[b[1]], xs[b[2]], h.z[b[1]][b[2]], want(b[1], b[2])>> : b \in bad}))
         \o Clause(badText = {}, "heatmap: annotation", OneOf({<<h.annotations[k]>> : k \in badText}))
         \o Clause(IF o.annotate THEN text = {<<ys[i], xs[j]>> : i \in 1..Len(ys), j \in 1..Len(xs)}
                                       /\ Len(h.annotations) = Len(xs) * Len(ys)
                   ELSE Len(h.annotations) = 0, "heatmap: one annotation per cell", ToString(Len(h.annotations)))

Judge(vs) ==
    CHOOSE r \in {TableFails(vs, tab, Case.table, Case.fn) : tab \in {CorrTable(vs)}} : TRUE
Verdict ==
    (CHOOSE r \in {Judge(vs) : vs \in {Variables(Mod, Case.params, Case.data, Panel(Mod, Case.data), Case.fn, Case.factors, Case.periods)}} : TRUE)
    \o (IF Case.table.error # "" THEN << >>
        ELSE Concat([i \in 1..Len(Case.pictures) |-> PictureFails(Case.table, Case.pictures[i])]))

Init == c = 1
Next == /\ c <= Len(Cases)
        /\ PrintT("CASE " \o ToJson([id |-> Cases[c].id, fails |-> Verdict]))
        /\ c' = c + 1
Spec == Init /\ [][Next]_c
=============================================================================
