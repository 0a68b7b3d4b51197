----------------------------- MODULE TracePanel -----------------------------
(* Recorded acceptance, rejection and warnings for datasets against Panel.  *)
EXTENDS Panel, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c
Mod == Cases[c].model
Dat == Cases[c].data
Obs == Cases[c].obs
ForEstimation == Cases[c].purpose = "estimation"

Clause(ok, name, detail) == IF ok THEN << >> ELSE <<name \o " @ " \o detail>>
OneOf(S) == IF S = {} THEN "" ELSE ToString(CHOOSE x \in S : TRUE)
Pairs(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
Triples(s) == {<<s[i][1], s[i][2], s[i][3]>> : i \in 1..Len(s)}
Places(S) == {<<x[1], x[2]>> : x \in S}

Verdict ==
    LET panel == Panel(Mod, Dat)
        probs == TLCEval(DataProblems(Mod, Dat, panel, ForEstimation))
        named == Triples(Obs.problems) IN
    IF probs # {}
    THEN IF Obs.error = "" THEN <<"accepted though unusable @ " \o OneOf(probs)>>
         ELSE Clause(Obs.exception = "ValueError", "rejected with a wrong kind of error", Obs.error)
              (* a variable in several roles may have several problems: one of them has to be named *)
              \o Clause(named \subseteq probs /\ Places(named) = Places(probs), "reported problems",
                        "not reported " \o OneOf({p \in probs : <<p[1], p[2]>> \notin Places(named)})
                        \o " reported without reason " \o OneOf(named \ probs))
    ELSE IF Obs.error # "" THEN <<"rejected though usable @ " \o Obs.error>>
    ELSE IF ~ForEstimation THEN << >>
    ELSE LET gone == TLCEval(Discarded(Mod, Dat, panel))
             warned == Pairs(Obs.warned) IN
         Clause((Obs.n_warnings > 0) = (gone # {}), "warning about discarded rows", ToString(Obs.n_warnings))
         \o Clause(warned = gone /\ Len(Obs.warned) = Cardinality(gone), "rows named in the warning",
                   "not named " \o OneOf(gone \ warned) \o " named without reason " \o OneOf(warned \ gone))

Init == c = 1
Next == /\ c <= Len(Cases)
        /\ PrintT("CASE " \o ToJson([id |-> Cases[c].id, fails |-> Verdict]))
        /\ c' = c + 1
Spec == Init /\ [][Next]_c
=============================================================================
