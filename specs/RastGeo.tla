------------------------------ MODULE RastGeo ------------------------------
(* Arithmetic and camera geometry shared by the rasterization specifications. *)
EXTENDS Rat
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
RECURSIVE LDig(_, _, _)
LDig(r, b, k) == IF k = 0 THEN (IF 2 * r >= b THEN 1 ELSE 0) ELSE LDig((10 * r) % b, b, k - 1) + ((10 * r) \div b) * 10^(k - 1)
(* a / b * 10^k, rounded, without overflow for b < 2*10^8 *)
LDiv(a, b, k) == LET x == Abs(a) y == Abs(b) IN Sgn(a) * Sgn(b) * ((x \div y) * 10^k + LDig(x % y, y, k))
(* ---- geometry ---- *)
Edge(p, a, b) == (p[1] - a[1]) * (b[2] - a[2]) - (p[2] - a[2]) * (b[1] - a[1])
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
MM(e) == MinI(e.H, e.W)
Pow2(m) == m \in {1, 2, 4, 8}
Bc(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]
View(c, x) == TLCEval([j \in 1..3 |-> SumSeq([i \in 1..3 |-> x[i] * c.R[i][j]]) + c.T[j]])
=============================================================================
