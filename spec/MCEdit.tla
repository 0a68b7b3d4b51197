------------------------------- MODULE MCEdit -------------------------------
(***************************************************************************)
(* All chains of edits up to a length, for given small models.  Checks the *)
(* design of the edit operations and prints every chain for replay.        *)
(***************************************************************************)
EXTENDS EditMachine, Json, IOUtils

Bases == TLCEval(ndJsonDeserialize(IOEnv.MODELS))
Depth == IF IOEnv.DEPTH = "1" THEN 1 ELSE IF IOEnv.DEPTH = "2" THEN 2 ELSE 3

VARIABLES base, m, hist
vars == <<base, m, hist>>

Init == base \in 1..Len(Bases) /\ m = Bases[base] /\ hist = << >>
Step(op) == /\ Len(hist) < Depth
            /\ m' = Edit(m, op)
            /\ hist' = Append(hist, op)
            /\ UNCHANGED base
            /\ IF Len(hist) + 1 = Depth
               THEN PrintT("DUMP " \o ToJson([base |-> base, ops |-> Append(hist, op)])) ELSE TRUE
Next == \E op \in Ops(m) : Step(op)
Spec == Init /\ [][Next]_vars

Removing == {"remove_factors", "extract_factors", "remove_measurements", "remove_controls",
             "reduce_n_periods", "switch_translog_to_linear"}
Params(x) == Range(ParamIndex(x))

StaysValid == IsValid(Bases[base]) => IsValid(m)
UniqueParameters == NoDuplicates(ParamIndex(m))
OnlyRemoves == \A op \in Ops(m) : op.name \in Removing \ {"switch_translog_to_linear"}
                    => Params(Edit(m, op)) \subseteq Params(m)
LinearIsNested == Params(TranslogToLinear(m)) \subseteq Params(m) /\ Params(m) \subseteq Params(LinearToTranslog(m))
Idempotent == \A op \in Ops(m) : Edit(Edit(m, op), op) = Edit(m, op)
(* Edits of unrelated parts commute.                                       *)
Unrelated(a, b) ==
    \/ a.name = "remove_controls" /\ b.name # "remove_controls"
    \/ a.name \in {"switch_translog_to_linear", "switch_linear_to_translog"}
       /\ b.name \in {"remove_measurements", "reduce_n_periods", "remove_factors", "extract_factors"}
    \/ a.name = "remove_measurements" /\ b.name \in {"reduce_n_periods", "remove_factors", "extract_factors"}
    \/ a.name = "reduce_n_periods" /\ b.name \in {"remove_factors", "extract_factors"}
Commute == \A a, b \in Ops(m) : Unrelated(a, b) => Edit(Edit(m, a), b) = Edit(Edit(m, b), a)
RestrictionsShrink == \A op \in Ops(m) : op.name \in {"remove_measurements", "remove_controls", "reduce_n_periods"}
                        => Fixed(Edit(m, op)) \subseteq Fixed(m)
=============================================================================
