----------------------------- MODULE MCSession -----------------------------
(***************************************************************************)
(* All sessions up to a length.  Function names are left open ("?"); the   *)
(* harness fills them in.  Sessions that end in a call are printed.        *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Depth == IF IOEnv.DEPTH = "4" THEN 4 ELSE IF IOEnv.DEPTH = "5" THEN 5 ELSE 6
VARIABLES s, hist
vars == <<s, hist>>

Actions ==
    {Act("make", a, 0, "?") : a \in 1..NModels}
    \union {Act("eval", 0, h, "?") : h \in 1..Len(s.handles)}
    \union {Act("call", a, 0, "?") : a \in 1..NModels}
    \union {Act("set", a, 0, o) : a \in 1..NModels, o \in Objects}
    \union {Act("spoil", 0, h, "") : h \in 1..s.returned}
    \union {Act("bad", a, 0, "?") : a \in 1..NModels}

(* Model 1 is the first one to be used; nothing is done twice in a row     *)
(* that has no effect on later calls.                                      *)
Interesting(x) ==
    /\ (hist = << >> => x.act = "make" /\ x.a = 1)
    /\ (hist # << >> =>
          LET last == hist[Len(hist)] IN
          ~(last.act = x.act /\ x.act \in {"bad", "spoil", "make"} /\ last = x)
          /\ ~(last.act = "set" /\ x = last))
    /\ (Len(hist) + 1 = Depth => x.act \in {"eval", "call"})

Init == s = Start /\ hist = << >>
Next == \E x \in Actions :
    /\ Len(hist) < Depth
    /\ Possible(s, x) /\ Interesting(x)
    /\ s' = Do(s, x)
    /\ hist' = Append(hist, x)
    /\ IF Len(hist) + 1 = Depth /\ \E i \in 1..Len(hist) : hist[i].act \in {"set", "spoil", "bad"}
       THEN PrintT("DUMP " \o ToJson(Append(hist, x))) ELSE TRUE
Spec == Init /\ [][Next]_vars

TypeOk == /\ \A a \in 1..NModels, o \in Objects : s.ver[a][o] \in {1, 2}
          /\ s.returned >= Len(s.handles)
(* Handles keep what they were created with, whatever happens later.       *)
Keeps == [][\A h \in 1..Len(s.handles) : s'.handles[h] = s.handles[h]]_vars
(* Only a change by the caller changes an object.                          *)
Pure == [][\A a \in 1..NModels, o \in Objects :
             s'.ver[a][o] # s.ver[a][o] => hist'[Len(hist')].act = "set"]_vars
(* What a handle returns is not affected by anything but the parameters of *)
(* its own model.                                                          *)
Isolated == [][\A h \in 1..Len(s.handles) :
             LET x == Act("eval", 0, h, "f") IN
             KeyOf(s', x) # KeyOf(s, x) =>
                 LET y == hist'[Len(hist')] IN y.act = "set" /\ y.fn = "par" /\ y.a = s.handles[h].a]_vars
=============================================================================
