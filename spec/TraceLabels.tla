---------------------------- MODULE TraceLabels ----------------------------
(* Parameter tables whose labels are not those of the model.                *)
EXTENDS Model, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE c
Case == Cases[c]

KeysOf(seq) == {Key(seq[i]) : i \in 1..Len(seq)}
Verdict ==
    LET want == KeysOf(ParamIndex(Case.model))
        have == Range(Case.labels)
        wrong == (want \ have) \union (have \ want)
        one(S) == IF S = {} THEN "none" ELSE CHOOSE x \in S : TRUE
        judge(r) ==
            IF wrong = {}
            THEN (IF r.error = "" THEN << >> ELSE <<"rejected though complete @ " \o r.name \o ": " \o r.error>>)
            ELSE IF r.error = "" THEN <<"accepted with wrong labels @ " \o r.name \o ": " \o one(wrong)>>
            ELSE (IF r.exception = "ValueError" THEN << >> ELSE <<"kind of error @ " \o r.name \o ": " \o r.exception>>)
                 \o (IF Range(r.named) = wrong THEN << >>
                     ELSE <<"labels named @ " \o r.name \o ": not named " \o one(wrong \ Range(r.named))
                            \o " named without reason " \o one(Range(r.named) \ wrong)>>)
    IN Concat([k \in 1..Len(Case.obs) |-> judge(Case.obs[k])])

Init == c = 1
Next == /\ c <= Len(Cases)
        /\ PrintT("CASE " \o ToJson([id |-> Cases[c].id, fails |-> Verdict]))
        /\ c' = c + 1
Spec == Init /\ [][Next]_c
=============================================================================
