---------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* Recorded sessions against Session.  A case has isolated results, one    *)
(* per key: what the call returned in a process of its own, with freshly   *)
(* built arguments.  An event has the action, the fingerprints of all      *)
(* objects of the caller (prints) and of all returned objects (kept) after *)
(* it, those of further arguments before and after, and the result.        *)
(***************************************************************************)
EXTENDS Session, Dec, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c, i, s, prints, kept, fails
vars == <<c, i, s, prints, kept, fails>>
Case == Cases[c]
Ev == Case.events[i]

SameResult(r, q) ==
    /\ r.shape = q.shape /\ r.error = q.error
    /\ Len(r.numbers) = Len(q.numbers)
    /\ \A k \in 1..Len(r.numbers) : Close(r.numbers[k], q.numbers[k], "1E-9")
Matches(k, e) == e.fn = k.fn /\ e.a = k.a /\ e.spec = k.spec /\ e.data = k.data /\ e.par = k.par
Clause(ok, name, detail) == IF ok THEN << >> ELSE <<name \o " @ " \o detail>>
Where(x) == "event " \o ToString(i) \o " (" \o x.act \o " " \o x.fn \o ")"

Init == c = 1 /\ i = 0 /\ s = Start /\ prints = << >> /\ kept = << >> /\ fails = << >>

Begin == /\ c <= Len(Cases) /\ i = 0
         /\ s' = Start /\ prints' = Case.start /\ kept' = << >> /\ fails' = << >> /\ i' = 1 /\ UNCHANGED c
Check ==
    /\ c <= Len(Cases) /\ i \in 1..Len(Case.events)
    /\ LET x == Ev.action
           n == Len(kept)
           result ==
             IF ~Returns(x) THEN << >>
             ELSE LET k == KeyOf(s, x)
                      hits == {j \in 1..Len(Case.isolated) : Matches(k, Case.isolated[j])} IN
                  IF hits = {} THEN <<"the session leaves the specification @ " \o Where(x)>>
                  ELSE LET q == Case.isolated[CHOOSE j \in hits : TRUE].result IN
                       Clause(SameResult(Ev.result, q), "the result differs from that of the same call in isolation",
                              Where(x) \o " " \o Ev.result.error \o " " \o q.error)
           objects == {<<a, o>> \in (1..NModels) \X Objects : ~MayChange(s, x, a, o) /\ Ev.prints[a][o] # prints[a][o]}
           old == {j \in 1..n : Ev.kept[j] # kept[j] /\ ~(x.act = "spoil" /\ x.h = j)} IN
       fails' = fails
         \o Clause(Possible(s, x), "the session leaves the specification", Where(x))
         \o result
         \o (IF x.act = "bad" THEN Clause(Ev.result.error # "", "unusable arguments are refused", Where(x) \o Ev.detail) ELSE << >>)
         \o Clause(objects = {}, "an object of the caller has changed", Where(x) \o ToString(objects) \o Ev.detail)
         \o Clause(old = {}, "something returned earlier has changed", Where(x) \o ToString(old))
         \o Clause(Ev.before = Ev.after, "an argument has changed", Where(x) \o Ev.detail)
    /\ s' = Do(s, Ev.action)
    /\ prints' = Ev.prints /\ kept' = Ev.kept
    /\ i' = i + 1 /\ UNCHANGED c
Finish ==
    /\ c <= Len(Cases) /\ i = Len(Case.events) + 1
    /\ PrintT("CASE " \o ToJson([id |-> Case.id, fails |-> Take(fails, 6)]))
    /\ c' = c + 1 /\ i' = 0 /\ UNCHANGED <<s, prints, kept, fails>>
Next == Begin \/ Check \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
