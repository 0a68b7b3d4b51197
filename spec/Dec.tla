-------------------------------- MODULE Dec --------------------------------
(***************************************************************************)
(* Real arithmetic for TLC.  A real number is written as a decimal numeral *)
(* in a string, e.g. "0.25" or "-1.5E-3".  TLC's own integers are 32 bit,  *)
(* and the models checked here need square roots, exponentials and         *)
(* logarithms, so the operators below are evaluated by java/Dec.java with  *)
(* 36 significant digits.  Their TLA+ bodies only fix their signatures.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

Unevaluated == CHOOSE x \in {} : TRUE

IsNum(a)    == Unevaluated       \* is a a numeral (not "nan", "inf", ...)
Add(a, b)   == Unevaluated       \* a + b
Sub(a, b)   == Unevaluated       \* a - b
Mul(a, b)   == Unevaluated       \* a * b
Div(a, b)   == Unevaluated       \* a / b
Negate(a)     == Unevaluated       \* -a
Abs(a)      == Unevaluated       \* |a|
Sqrt(a)     == Unevaluated       \* positive square root
Exp(a)      == Unevaluated       \* e^a
Ln(a)       == Unevaluated       \* natural logarithm of a > 0
Leq(a, b)   == Unevaluated       \* a <= b
Lt(a, b)    == Unevaluated       \* a < b
Eq(a, b)    == Unevaluated       \* a = b
OfInt(n)    == Unevaluated       \* the numeral of the integer n
Floor(a)    == Unevaluated       \* greatest integer <= a, as a TLA+ integer
RoundTo(a, n) == Unevaluated     \* a rounded half-even to n decimals
Pi          == "3.14159265358979323846264338327950288"
Sum(s)      == Unevaluated       \* s[1] + ... + s[Len(s)]
MaxSeq(s)   == Unevaluated       \* greatest element of a non-empty sequence
MinSeq(s)   == Unevaluated       \* least element
Dot(s, t)   == Unevaluated       \* s[1]*t[1] + ... + s[n]*t[n]

HasText(s, t) == Unevaluated     \* t occurs in the string s
HasWord(s, t) == Unevaluated     \* ... up to case

----------------------------------------------------------------------------
(* Derived.                                                                *)
MaxD(a, b) == IF Leq(a, b) THEN b ELSE a
MinD(a, b) == IF Leq(a, b) THEN a ELSE b
Sq(a) == Mul(a, a)
Half(a) == Mul(a, "0.5")

(* ln(e^s[1] + ... + e^s[n]); an entry "-inf" stands for a zero summand.   *)
LogSumExp(s) ==
    LET fin == SelectSeq(s, LAMBDA x : x # "-inf") IN
    IF fin = << >> THEN "-inf"
    ELSE LET top == MaxSeq(fin) IN
         Add(top, Ln(Sum([i \in 1..Len(fin) |-> Exp(Sub(fin[i], top))])))

(* ln(w[1] e^s[1] + ... + w[n] e^s[n]).                                    *)
LnWeighted(w, s) ==
    CHOOSE r \in {Add(top, Ln(Dot(w, [i \in 1..Len(s) |-> Exp(Sub(s[i], top))]))) : top \in {MaxSeq(s)}} : TRUE

LnOrInf(a) == IF Leq(a, "0") THEN "-inf" ELSE Ln(a)

(* |a - b| <= tol * (1 + |b|): the only comparison of computed numbers.    *)
Close(a, b, tol) ==
    IF IsNum(a) /\ IsNum(b)
    THEN Leq(Abs(Sub(a, b)), Mul(tol, Add("1", Abs(b))))
    ELSE a = b
=============================================================================
