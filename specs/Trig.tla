-------------------------------- MODULE Trig --------------------------------
(* Fixed-point trigonometry and rotations.  Angles and results in units of 1e-4 (T = 10000). *)
EXTENDS Rat
T == 10000
TPI == 31416
M2(a, b) == RDiv(a * b, T)
RECURSIVE SerAux(_, _, _, _)
(* 1 - x2/k1 (1 - x2/k2 (...)) for the k in ks, innermost last *)
SerAux(ks, x2, i, n) == IF i > n THEN T ELSE T - RDiv(M2(x2, SerAux(ks, x2, i + 1, n)), ks[i])
Ser(ks, x2) == SerAux(ks, x2, 1, Len(ks))
Sin1(x) == M2(x, Ser(<<6, 20, 42, 72, 110>>, M2(x, x)))       \* |x| <= pi/2
Cos1(x) == Ser(<<2, 12, 30, 56, 90, 132>>, M2(x, x))
(* 2 pi = 62831.853 : reduce with a correction so that several turns do not accumulate error *)
Red(x) == LET k == RDiv(x, 62832) IN x - 62832 * k + RDiv(147 * k, 1000)
Sin(x) == LET y == Red(x) IN IF y > 15708 THEN Sin1(TPI - y) ELSE IF y < -15708 THEN -Sin1(TPI + y) ELSE Sin1(y)
Cos(x) == LET y == Red(x) IN IF y > 15708 THEN -Cos1(TPI - y) ELSE IF y < -15708 THEN -Cos1(TPI + y) ELSE Cos1(y)
FMul(a, b) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> SumSeq([k \in 1..Len(b) |-> M2(a[i][k], b[k][j])])]])
FEye == << <<T,0,0>>, <<0,T,0>>, <<0,0,T>> >>
FT(a) == TLCEval([i \in 1..Len(a[1]) |-> [j \in 1..Len(a) |-> a[j][i]]])
(* rotation about a coordinate axis, acting on column vectors *)
AxisR(ax, x) == LET c == Cos(x) s == Sin(x) IN
    CASE ax = "X" -> << <<T,0,0>>, <<0,c,-s>>, <<0,s,c>> >>
      [] ax = "Y" -> << <<c,0,s>>, <<0,T,0>>, <<-s,0,c>> >>
      [] OTHER -> << <<c,-s,0>>, <<s,c,0>>, <<0,0,T>> >>
(* integer quaternion -> rotation, exact numerators over N2(q) *)
QNum(w, x, y, z) ==
    << <<w*w + x*x - y*y - z*z, 2*(x*y - z*w), 2*(x*z + y*w)>>,
       <<2*(x*y + z*w), w*w - x*x + y*y - z*z, 2*(y*z - x*w)>>,
       <<2*(x*z - y*w), 2*(y*z + x*w), w*w - x*x - y*y + z*z>> >>
QR(q) == LET n == N2(q) m == QNum(q[1], q[2], q[3], q[4]) IN [i \in 1..3 |-> [j \in 1..3 |-> RDiv(T * m[i][j], n)]]
(* unit vector (1e-4) of an integer vector, and its length; adaptive so that no product leaves 32 bits *)
SK(n) == IF n < 20 THEN 10000 ELSE IF n < 2000 THEN 1000 ELSE IF n < 200000 THEN 100 ELSE IF n < 20000000 THEN 10 ELSE IF n < 128000000 THEN 4 ELSE 1
UnitT(v) == LET n == N2(v) k == SK(n) r == ISqrt(n * k * k) IN
    IF n = 0 THEN Rep(Len(v), 0) ELSE [i \in 1..Len(v) |-> IF Abs(v[i]) * k < 200000 THEN RDiv(T * k * v[i], r) ELSE RDiv(1000 * k * v[i], RDiv(r, 10))]
(* length of a vector given in thousandths, in units of 1e-4 *)
LenT(v) == LET n == N2(v) k == SK(n) IN RDiv(10 * ISqrt(n * k * k), k)
Hat(u) == << <<0, -u[3], u[2]>>, <<u[3], 0, -u[1]>>, <<-u[2], u[1], 0>> >>
Outer(u) == TLCEval([i \in 1..3 |-> [j \in 1..3 |-> M2(u[i], u[j])]])
FAdd(a, b) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(a[1]) |-> a[i][j] + b[i][j]]])
FScale(k, a) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(a[1]) |-> M2(k, a[i][j])]])
(* rotation of the vector v (thousandths): angle |v|, axis v *)
ExpR(v) == LET x == LenT(v) u == UnitT(v) c == Cos(x) s == Sin(x) IN
    FAdd(FScale(c, FEye), FAdd(FScale(T - c, Outer(u)), FScale(s, Hat(u))))
(* the SE(3) left Jacobian  I + (1-cos)/t hat(u) + (t - sin)/t hat(u)^2 *)
VMat(v) == LET x == LenT(v) u == UnitT(v)
               a == IF x < 5000 THEN M2(x \div 2, Ser(<<12, 30>>, M2(x, x))) ELSE RDiv(T * (T - Cos(x)), x)
               b == IF x < 5000 THEN M2(RDiv(M2(x, x), 6), Ser(<<20, 42>>, M2(x, x))) ELSE T - RDiv(T * Sin(x), x)
               h == Hat(u)
           IN  FAdd(FEye, FAdd(FScale(a, h), FScale(b, FMul(h, h))))
FApply(m, p) == TLCEval([i \in 1..Len(m) |-> SumSeq([j \in 1..Len(p) |-> M2(m[i][j], p[j])])])
(* arctangent of x (1e-4 units, 0 <= x <= 40000): halve the angle twice, series, one Newton step *)
HalfT(x) == RDiv(T * x, T + ISqrt(T * T + x * x))
NewtonAtan(x, t) == t + RDiv(x * Cos(t) - T * Sin(t), ISqrt(T * T + x * x))
Atan(x) == LET y == HalfT(HalfT(x)) y2 == M2(y, y) y3 == M2(y, y2) y5 == M2(y3, y2) IN NewtonAtan(x, 4 * (y - RDiv(y3, 3) + RDiv(y5, 5)))
IsRot(m, tol) == /\ MClose(FMul(m, FT(m)), FEye, tol)
                 /\ VClose(Cross([j \in 1..3 |-> m[1][j] \div 10], [j \in 1..3 |-> m[2][j] \div 10]), [j \in 1..3 |-> 100 * m[3][j]], 200 * tol)
=============================================================================
