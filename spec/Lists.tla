------------------------------- MODULE Lists -------------------------------
(* Sequence helpers shared by all modules.                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
PosOf(x, s) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x

RECURSIVE Concat(_)
Concat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Concat(Tail(ss))

RECURSIVE DedupInto(_, _)
DedupInto(s, acc) ==
    IF s = << >> THEN acc
    ELSE DedupInto(Tail(s), IF InSeq(Head(s), acc) THEN acc ELSE Append(acc, Head(s)))
Dedup(s) == DedupInto(s, << >>)

NoDuplicates(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

MapSeq(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
(* Concatenation of Op(1), ..., Op(n).                                      *)
RECURSIVE ConcatUpTo(_, _)
ConcatUpTo(Op(_), n) == IF n = 0 THEN << >> ELSE ConcatUpTo(Op, n - 1) \o Op(n)

Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
FilterSeq(s, Test(_)) == SelectSeq(s, Test)
Without(s, S) == SelectSeq(s, LAMBDA x : x \notin S)

MaxInt(S) == CHOOSE x \in S : \A y \in S : y <= x
MinInt(S) == CHOOSE x \in S : \A y \in S : x <= y

(* The elements of a finite set of integers in increasing order.            *)
RECURSIVE SortInts(_)
SortInts(S) == IF S = {} THEN << >> ELSE LET m == MinInt(S) IN <<m>> \o SortInts(S \ {m})

(* <<key, value>> pairs as they come out of JSON.                           *)
HasKey(pairs, k) == \E i \in 1..Len(pairs) : pairs[i][1] = k
Lookup(pairs, k, default) ==
    IF HasKey(pairs, k) THEN pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = k][2] ELSE default
Keys(pairs) == [i \in 1..Len(pairs) |-> pairs[i][1]]

RECURSIVE SetToSeqAny(_)
SetToSeqAny(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeqAny(S \ {x})
=============================================================================
