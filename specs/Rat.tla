-------------------------------- MODULE Rat --------------------------------
(* Small rational matrices: [n |-> integer matrix, d |-> positive common denominator]. *)
EXTENDS Lists
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % b)
GcdAll(m, d) == FoldLeft(LAMBDA g, row : FoldLeft(LAMBDA h, x : Gcd(h, Abs(x)), g, row), d, m)
Norm(m, d) == LET n == TLCEval(m) s == IF d < 0 THEN -1 ELSE 1 g == GcdAll(n, Abs(d)) IN
    [n |-> TLCEval([i \in 1..Len(n) |-> [j \in 1..Len(n[i]) |-> (s * n[i][j]) \div g]]), d |-> Abs(d) \div g]
Mul(a, b) == Norm([i \in 1..Len(a.n) |-> [j \in 1..Len(b.n[1]) |-> SumSeq([k \in 1..Len(b.n) |-> a.n[i][k] * b.n[k][j]])]], a.d * b.d)
MT(a) == [n |-> [i \in 1..Len(a.n[1]) |-> [j \in 1..Len(a.n) |-> a.n[j][i]]], d |-> a.d]
Eye(k) == [n |-> [i \in 1..k |-> [j \in 1..k |-> IF i = j THEN 1 ELSE 0]], d |-> 1]
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Minor(n, i, j) == LET r == Drop(n, i) IN [k \in 1..Len(r) |-> Drop(r[k], j)]
RECURSIVE DetI(_)
DetI(n) == IF Len(n) = 1 THEN n[1][1] ELSE SumSeq([j \in 1..Len(n) |-> IF n[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * n[1][j] * DetI(Minor(n, 1, j))])
(* inverse of n/d:  d * adj(n) / det(n) *)
Inv(a) == LET k == Len(a.n) D == DetI(a.n) IN
    Norm([i \in 1..k |-> [j \in 1..k |-> (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * a.d * DetI(Minor(a.n, j, i))]], D)
Block3(a) == Norm([i \in 1..3 |-> [j \in 1..3 |-> a.n[i][j]]], a.d)
(* comparison with a matrix of thousandths *)
RatClose(r, a, tol) == /\ Len(r) = Len(a.n)
                       /\ \A i \in 1..Len(r) : /\ Len(r[i]) = Len(a.n[1])
                                               /\ \A j \in 1..Len(r[i]) : Close(r[i][j], RDiv(1000 * a.n[i][j], a.d), tol)
=============================================================================
