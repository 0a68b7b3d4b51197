---------------------------- MODULE EditMachine ----------------------------
(***************************************************************************)
(* A specification and the parameters belonging to it under edits.         *)
(* Parameters: [index, value, lower, upper], sequences of equal length;    *)
(* lower and upper are empty if the corresponding column does not exist.   *)
(***************************************************************************)
EXTENDS Model

AlwaysExtends(op) == op.name \in {"switch_linear_to_translog", "reduce_n_periods"}
NewValue == "0.05"

(* Value of parameter p in column col of q; new parameters get default.    *)
At(q, col, p, default) ==
    IF InSeq(p, q.index) THEN col[PosOf(p, q.index)] ELSE default

EditParams(m, q, op) ==
    LET index == TLCEval(ParamIndex(Edit(m, op))) IN
    [index |-> index,
     value |-> TLCEval([i \in 1..Len(index) |-> At(q, q.value, index[i], NewValue)]),
     lower |-> IF q.lower = << >> THEN << >>
               ELSE TLCEval([i \in 1..Len(index) |-> At(q, q.lower, index[i], "-inf")]),
     upper |-> IF q.upper = << >> THEN << >>
               ELSE TLCEval([i \in 1..Len(index) |-> At(q, q.upper, index[i], "inf")])]

WarnsOfNormalization(m, op) ==
    op.name = "remove_measurements" /\ RemovesNormalized(m, Range(op.args))

(* Values of common labels, later sets overriding earlier ones; a missing  *)
(* value ("nan") is no value.                                              *)
RECURSIVE UpdateValues(_, _)
UpdateValues(q, others) ==
    IF others = << >> THEN q
    ELSE LET o == Head(others)
             new(i) == IF InSeq(q.index[i], o.index) THEN o.value[PosOf(q.index[i], o.index)] ELSE "nan" IN
         UpdateValues([q EXCEPT !.value = TLCEval([i \in 1..Len(q.index) |->
                            IF new(i) = "nan" THEN q.value[i] ELSE new(i)])],
                      Tail(others))

----------------------------------------------------------------------------
(* Which edits make sense for a model                                      *)
RECURSIVE SubSeqs(_)            \* subsequences of a sequence
SubSeqs(s) ==
    IF s = << >> THEN {<< >>}
    ELSE LET rest == SubSeqs(Tail(s)) IN rest \union {<<Head(s)>> \o x : x \in rest}

UsesOnly(f, S) == f.kind # "custom" \/ \A k \in 1..Len(f.terms) : Range(f.terms[k].factors) \subseteq S
AllMeas(m) == Dedup(Concat([i \in 1..NLatent(m) |-> Concat(m.factors[i].meas)]))
CanRemove(m, S) ==
    LET left == SelectSeq(m.factors, LAMBDA f : f.name \notin S)
        keep == (Range(Latent(m)) \ S) \union Range(Observed(m)) IN
    /\ left # << >>
    /\ \E i \in 1..Len(left) : Len(left[i].meas) > 0
    /\ \A i \in 1..Len(left) : UsesOnly(left[i], keep)
Op(name, args, n) == [name |-> name, args |-> args, n |-> n]
Ops(m) ==
    {Op("remove_factors", a, 0) : a \in {x \in SubSeqs(Latent(m)) : x # << >> /\ CanRemove(m, Range(x))}}
    \union {Op("extract_factors", a, 0) :
              a \in {x \in SubSeqs(Latent(m)) : x # << >> /\ CanRemove(m, Range(Latent(m)) \ Range(x))}}
    \union {Op("remove_measurements", <<AllMeas(m)[i]>>, 0) : i \in 1..Len(AllMeas(m))}
    \union (IF m.controls.given THEN {Op("remove_controls", a, 0) : a \in SubSeqs(m.controls.list) \ {<< >>}} ELSE {})
    \union {Op("reduce_n_periods", << >>, n) : n \in 1..(NPeriods(m) + 1)}
    \union {Op("switch_translog_to_linear", << >>, 0), Op("switch_linear_to_translog", << >>, 0)}
=============================================================================
