------------------------------- MODULE Lists -------------------------------
(* Sequences, small integer linear algebra, integer square roots. Everything here is shared by the
   specifications of the individual subsystems. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Clamp(x, lo, hi) == Max2(lo, Min2(x, hi))
Close(a, b, tol) == Abs(a - b) <= tol
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxSeq(s, d) == FoldLeft(LAMBDA a, b : Max2(a, b), d, s)
MinSeq(s, d) == FoldLeft(LAMBDA a, b : Min2(a, b), d, s)
Rep(n, x) == [i \in 1..n |-> x]
Lens(s) == [i \in 1..Len(s) |-> Len(s[i])]
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
(* exclusive prefix sums: First(<<2,0,3>>) = <<0,2,2>> *)
First(s) == [i \in 1..Len(s) |-> SumSeq(SubSeq(s, 1, i - 1))]
Flat(s) == FlattenSeq(s)
(* <<1,1,2>> style owner index (0-based) for lengths *)
Owner(lens) == Flat([i \in 1..Len(lens) |-> Rep(lens[i], i - 1)])
PadTo(s, n, x) == s \o Rep(n - Len(s), x)
SeqToSet(s) == {s[i] : i \in 1..Len(s)}
SortedSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
RECURSIVE ISqrtAux(_, _)
ISqrtAux(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtAux(n, y)
ISqrt(n) == IF n <= 0 THEN 0 ELSE ISqrtAux(n, IF n < 4 THEN n ELSE IF n < 65536 THEN 1 + n \div 2 ELSE Min2(46340, 1 + n \div 2))
(* round to nearest of a / b, b # 0 *)
RDiv(a, b) == IF b < 0 THEN (2 * (-a) + (-b)) \div (2 * (-b)) ELSE (2 * a + b) \div (2 * b)

VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
VScale(k, a) == [i \in 1..Len(a) |-> k * a[i]]
Dot(a, b) == SumSeq([i \in 1..Len(a) |-> a[i] * b[i]])
Cross(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
N2(a) == Dot(a, a)
VSum(s, zero) == FoldLeft(LAMBDA a, b : VAdd(a, b), zero, s)
VClose(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i], tol)
MClose(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VClose(a[i], b[i], tol)
(* the unit vector of an integer vector s, in thousandths (exact to about one unit) *)
Unit1000(s) == LET n == N2(s)
                   k == IF n < 20 THEN 10000 ELSE IF n < 2000 THEN 1000 ELSE IF n < 200000 THEN 100 ELSE IF n < 20000000 THEN 10 ELSE 1
                   r == ISqrt(n * k * k)
               IN  IF n = 0 THEN Rep(Len(s), 0) ELSE [i \in 1..Len(s) |-> RDiv(s[i] * 1000 * k, r)]
Lex2(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
(* clause helper: the singleton {name} when the condition is broken *)
C(name, cond) == IF cond THEN {} ELSE {name}
=============================================================================
