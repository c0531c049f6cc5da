-------------------------------- MODULE Util --------------------------------
(* Small shared vocabulary: sums, sequences as sets, fixed-point comparison. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(q) == {q[i] : i \in 1..Len(q)}
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y

\* Sum of F(i) over i \in lo..hi
RECURSIVE SumTo(_, _, _)
SumTo(F(_), lo, hi) == IF lo > hi THEN 0 ELSE F(hi) + SumTo(F, lo, hi - 1)
SumSeq(q) == LET f(i) == q[i] IN SumTo(f, 1, Len(q))
RECURSIVE SumSet(_, _)
SumSet(F(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN F(x) + SumSet(F, S \ {x})

NoDup(q) == Cardinality(Range(q)) = Len(q)
\* Multiset equality of two sequences whose elements are pairwise distinct on the expected side
SameSet(q, S) == Len(q) = Cardinality(S) /\ Range(q) = S

\* Close(a, b, t): fixed point numbers differ by at most t
Close(a, b, t) == a - b <= t /\ b - a <= t

\* thr / 100 in units 1 / q, rounded down, without large products
Hundredths(thr, q) == thr * (q \div 100) + (thr * (q % 100)) \div 100
HundredthsUp(thr, q) == Hundredths(thr, q) + (IF (thr * (q % 100)) % 100 = 0 THEN 0 ELSE 1)

\* Clauses: If(bad, name) is the singleton {name} when the clause is violated
Viol(ok, name) == IF ok THEN {} ELSE {name}

\* least fixed point of a monotone set operator from S
RECURSIVE Lfp(_, _)
Lfp(F(_), S) == LET T == S \cup F(S) IN IF T = S THEN S ELSE Lfp(F, T)
\* greatest fixed point of a monotone set operator from S
RECURSIVE Gfp(_, _)
Gfp(F(_), S) == LET T == S \cap F(S) IN IF T = S THEN S ELSE Gfp(F, T)
=============================================================================
