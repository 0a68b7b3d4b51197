------------------------------- MODULE LinAlg -------------------------------
(* Vectors are sequences of numerals, matrices sequences of rows.           *)
EXTENDS Dec, Sequences, TLC

Vec(n, Op(_)) == TLCEval([i \in 1..n |-> Op(i)])
Mat(n, k, Op(_, _)) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..k |-> Op(i, j)])])
VAdd(a, b) == Vec(Len(a), LAMBDA i : Add(a[i], b[i]))
VSub(a, b) == Vec(Len(a), LAMBDA i : Sub(a[i], b[i]))
VScale(c, a) == Vec(Len(a), LAMBDA i : Mul(c, a[i]))
Col(M, j) == Vec(Len(M), LAMBDA i : M[i][j])
Transpose(M) == IF M = << >> THEN << >> ELSE Mat(Len(M[1]), Len(M), LAMBDA i, j : M[j][i])
MatVec(M, v) == Vec(Len(M), LAMBDA i : Dot(M[i], v))
MatMul(A, B) == LET T == Transpose(B) IN Mat(Len(A), Len(T), LAMBDA i, j : Dot(A[i], T[j]))
Gram(L) == Mat(Len(L), Len(L), LAMBDA i, j : Dot(L[i], L[j]))     \* L L'

(* Lower triangular L with non-negative diagonal and L L' = P.  A pivot of  *)
(* zero (up to rounding) leaves its column zero.                            *)
RECURSIVE CholRows(_, _)
RECURSIVE CholRow(_, _, _, _)
CholRow(P, rows, i, row) ==
    LET j == Len(row) + 1 IN
    IF j > i THEN row
    ELSE IF j < i
         THEN LET d == rows[j][j]
                  v == IF Leq(d, "1E-30") THEN "0"
                       ELSE Div(Sub(P[i][j], Dot(row, SubSeq(rows[j], 1, j - 1))), d) IN
              CholRow(P, rows, i, Append(row, v))
         ELSE LET v == Sub(P[i][i], Dot(row, row)) IN
              Append(row, IF Leq(v, "1E-30") THEN "0" ELSE Sqrt(v))
CholRows(P, rows) ==
    IF Len(rows) = Len(P) THEN rows
    ELSE CholRows(P, Append(rows, CholRow(P, rows, Len(rows) + 1, << >>)))
Chol(P) ==
    LET rows == CholRows(P, << >>) IN
    Mat(Len(P), Len(P), LAMBDA i, j : IF j <= i THEN rows[i][j] ELSE "0")
=============================================================================
