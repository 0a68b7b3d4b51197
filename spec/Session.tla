------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* What a caller sees of a working session.  The caller owns, for every    *)
(* model a, a specification, a dataset and a parameter frame, which it may *)
(* change in place between two contents (versions 1 and 2).  Calls are     *)
(* pure: they leave all objects alone, and what they return is determined  *)
(* by a key - the function and the versions of what it was given.          *)
(* Functions created from a specification and a dataset (handles) keep the *)
(* versions they were created with.                                        *)
(*                                                                         *)
(* Actions: [act, a, h, fn]                                                *)
(*   make   create the functions of model a                                *)
(*   eval   call function fn of handle h with the parameters of its model  *)
(*   call   call a stand-alone function fn with the objects of model a     *)
(*   set    change the object fn in {spec, data, par} of model a in place  *)
(*   spoil  overwrite what call number h has returned                      *)
(*   bad    a call with unusable arguments for model a, which is refused   *)
(***************************************************************************)
EXTENDS Lists

NModels == 2
Objects == {"spec", "data", "par"}
Start == [ver |-> [a \in 1..NModels |-> [spec |-> 1, data |-> 1, par |-> 1]],
          handles |-> << >>, returned |-> 0]

Act(act, a, h, fn) == [act |-> act, a |-> a, h |-> h, fn |-> fn]
Possible(s, x) ==
    CASE x.act = "eval" -> x.h \in 1..Len(s.handles)
      [] x.act = "spoil" -> x.h \in 1..s.returned
      [] x.act = "set" -> x.a \in 1..NModels /\ x.fn \in Objects
      [] OTHER -> x.a \in 1..NModels

Flip(v) == 3 - v
Do(s, x) ==
    CASE x.act = "make" -> [s EXCEPT !.handles = Append(@, [a |-> x.a, spec |-> s.ver[x.a].spec, data |-> s.ver[x.a].data]),
                                     !.returned = @ + 1]
      [] x.act \in {"eval", "call"} -> [s EXCEPT !.returned = @ + 1]
      [] x.act = "set" -> [s EXCEPT !.ver[x.a] = [@ EXCEPT ![x.fn] = Flip(@)]]
      [] OTHER -> s

(* What the result of a call depends on.                                   *)
Returns(x) == x.act \in {"make", "eval", "call"}
KeyOf(s, x) ==
    IF x.act = "eval"
    THEN LET k == s.handles[x.h] IN [fn |-> x.fn, a |-> k.a, spec |-> k.spec, data |-> k.data, par |-> s.ver[k.a].par]
    ELSE [fn |-> IF x.act = "make" THEN "make" ELSE x.fn, a |-> x.a, spec |-> s.ver[x.a].spec, data |-> s.ver[x.a].data,
          par |-> IF x.act = "make" THEN 0 ELSE s.ver[x.a].par]

(* Objects that may look different after x.                                *)
MayChange(s, x, a, o) == x.act = "set" /\ x.a = a /\ x.fn = o
=============================================================================
