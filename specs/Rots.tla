-------------------------------- MODULE Rots --------------------------------
(* Representations of rotations: quaternions, matrices, axis-angle vectors, Euler angles, 6D, so(3)/se(3)
   logarithms.  Every event is one call on a batch; the specification gives the meaning (a rotation) of each
   representation and demands that conversions keep it. Matrices 1e-4, vectors in thousandths. *)
EXTENDS Trig

S0(tr) == [none |-> 0]
Apply(s, e) == s
All(e, P(_, _)) == Len(e.o) = Len(e.x) /\ \A i \in 1..Len(e.x) : P(e.x[i], e.o[i])
Tol == 15
(* standard form of an integer quaternion as a versor; a zero real part leaves the sign open *)
QStdOk(q, r, tol) == LET u == UnitT(q) IN
    IF q[1] = 0 THEN VClose(r, u, tol) \/ VClose(r, VScale(-1, u), tol)
    ELSE VClose(r, VScale(IF q[1] < 0 THEN -1 ELSE 1, u), tol)
QMul(a, b) == <<a[1]*b[1] - a[2]*b[2] - a[3]*b[3] - a[4]*b[4], a[1]*b[2] + a[2]*b[1] + a[3]*b[4] - a[4]*b[3],
                a[1]*b[3] - a[2]*b[4] + a[3]*b[1] + a[4]*b[2], a[1]*b[4] + a[2]*b[3] - a[3]*b[2] + a[4]*b[1]>>
Euler(c, a) == FMul(FMul(AxisR(c[1], a[1]), AxisR(c[2], a[2])), AxisR(c[3], a[3]))
CentralOk(c, x) == IF c[1] = c[3] THEN x >= -2 /\ x <= TPI + 2 ELSE Abs(x) <= 15710
(* principal representation: not at gimbal lock, angles in range *)
Principal(c, a) == /\ Abs(a[1]) < 31300 /\ Abs(a[3]) < 31300
                   /\ IF c[1] = c[3] THEN a[2] > 1500 /\ a[2] < 29900 ELSE Abs(a[2]) < 14200
LenOk(v) == LenT(v) <= 31425
(* logarithm of the rotation m: a vector of length at most pi whose exponential is m *)
LogOk(m, r) == LenOk(r) /\ MClose(ExpR(r), m, 30)
Six(d) == LET a == SubSeq(d, 1, 3) b == SubSeq(d, 4, 6) n == N2(a) IN
    <<UnitT(a), UnitT(VSub(VScale(n, b), VScale(Dot(a, b), a))), UnitT(Cross(a, b))>>
Neg(x) == -x
(* acos, continued linearly beyond [-1+cb, 1-cb]; x in 1e-6, cb in 1e-4, result 1e-4 *)
RECURSIVE Bis(_, _, _)
Bis(c, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF Cos(m) > c THEN Bis(c, m, hi) ELSE Bis(c, lo, m)
ABound(cb) == IF cb < 2000 THEN ISqrt(20000 * cb) + RDiv(cb * ISqrt(20000 * cb), 120000) ELSE Bis(T - cb, 0, TPI)   \* acos(1 - cb)
ASlope(cb) == IF cb <= 1000 THEN ISqrt(100 * cb * (20000 - cb)) ELSE 10 * ISqrt(cb * (20000 - cb))   \* 1e5 * sqrt(1-b^2)
AcosOk(x, cb, r, tol) ==
    LET b == 1000000 - 100 * cb IN
    IF x >= b THEN Close(r, ABound(cb) - ((1000 * (x - b)) \div ASlope(cb)), tol)
    ELSE IF x <= -b THEN Close(r, TPI - ABound(cb) + ((1000 * (-b - x)) \div ASlope(cb)), tol)
    ELSE (r >= 0 /\ r <= TPI /\ Close(Cos(r), RDiv(x, 100), tol))
(* derivative -1/sqrt(1-x^2) (at the bound outside of it), in 1e-2 *)
DAcosOk(x, cb, g) == LET y == Min2(Abs(x), 1000000 - 100 * cb) w == ISqrt(((1000000 - y) * ((1000000 + y) \div 1000)) \div 10) IN  \* w: 1e4 sqrt(1-y^2)
    IF w < 500 THEN Close(g * w, -1000000, 30000) ELSE Close(g * w, -1000000, 2000 + w)
SE3(v) == LET r == ExpR(SubSeq(v, 4, 6)) t == FApply(VMat(SubSeq(v, 4, 6)), SubSeq(v, 1, 3)) IN [r |-> r, t |-> t]
Conf(s, e) ==
    CASE e.op = "quaternion_to_matrix" -> C("quaternion_to_matrix", All(e, LAMBDA x, o : MClose(o, QR(x), Tol)))
      [] e.op = "matrix_to_quaternion" -> C("matrix_to_quaternion gives the versor of nonnegative real part", All(e, LAMBDA x, o : QStdOk(x, o, Tol)))
      [] e.op = "raw_multiply" -> C("quaternion_raw_multiply", All(e, LAMBDA x, o : o = QMul(x[1], x[2])))
      [] e.op = "multiply" -> C("quaternion_multiply gives the standard form", All(e, LAMBDA x, o : LET p == QMul(x[1], x[2]) IN o = IF p[1] < 0 THEN VScale(-1, p) ELSE p))
      [] e.op = "standardize" -> C("standardize_quaternion", All(e, LAMBDA x, o : o = IF x[1] < 0 THEN VScale(-1, x) ELSE x))
      [] e.op = "invert" -> C("quaternion_invert", All(e, LAMBDA x, o : o = <<x[1], -x[2], -x[3], -x[4]>>))
      [] e.op = "quaternion_apply" -> C("quaternion_apply rotates points", All(e, LAMBDA x, o : LET m == QR(x[1]) IN
                VClose(o, [i \in 1..3 |-> Dot(m[i], x[2])], 15 + 10 * MaxSeq([i \in 1..3 |-> Abs(x[2][i])], 0))))
      [] e.op \in {"axis_angle_to_matrix", "axis_angle_to_matrix_fast", "so3_exp_map"} -> C(e.op, All(e, LAMBDA x, o : MClose(o, ExpR(x), Tol)))
      [] e.op = "axis_angle_to_quaternion" -> C(e.op, All(e, LAMBDA x, o : LET t == LenT(x) u == UnitT(x) sn == Sin(t \div 2) IN
                VClose(o, <<Cos(t \div 2), M2(sn, u[1]), M2(sn, u[2]), M2(sn, u[3])>>, Tol)))
      [] e.op = "log_of_vector" -> C(e.fn \o " undoes the exponential", All(e, LAMBDA x, o : LogOk(ExpR(x), o) /\ (LenT(x) < 31300 => VClose(o, x, 4))))
      [] e.op = "log_of_quaternion" -> C(e.fn \o " of a rational rotation", All(e, LAMBDA x, o : LogOk(QR(x), o)))
      [] e.op = "euler_to_matrix" -> C("euler_angles_to_matrix " \o e.cs, All(e, LAMBDA x, o : MClose(o, Euler(e.c, x), Tol)))
      [] e.op = "matrix_to_euler" -> C("matrix_to_euler_angles " \o e.cs, All(e, LAMBDA x, o :
                LET m == IF e.from = "quat" THEN QR(x) ELSE Euler(e.c, x) IN
                /\ Abs(o[1]) <= TPI + 2 /\ Abs(o[3]) <= TPI + 2 /\ CentralOk(e.c, o[2])
                /\ MClose(Euler(e.c, o), m, 25)
                /\ ((e.from = "euler" /\ Principal(e.c, x)) => VClose(o, x, 25))))
      [] e.op = "sixd_to_matrix" -> C("rotation_6d_to_matrix", All(e, LAMBDA x, o : MClose(o, Six(x), Tol)))
      [] e.op = "matrix_to_sixd" -> C("matrix_to_rotation_6d", All(e, LAMBDA x, o : LET m == QR(x) IN VClose(o, m[1] \o m[2], Tol)))
      [] e.op = "random" -> C(e.fn \o " produces rotations of the requested shape", Len(e.o) = e.n /\ \A i \in 1..e.n :
                IF e.fn = "random_quaternions" THEN e.o[i][1] >= 0 /\ Close(N2(e.o[i]), 100000000, 30000) ELSE IsRot(e.o[i], 10))
      [] e.op = "random_spread" -> C("random rotations are not concentrated", e.o.mean <= 1500 /\ e.o.distinct)
      [] e.op = "dtype" -> C("dtype and shape are kept by " \o e.fn, e.kept)
      [] e.op = "relcos" -> C("so3_relative_angle cosine", All(e, LAMBDA x, o : LET a == QR(x[1]) b == QR(x[2]) IN
                Close(o, RDiv(SumSeq([i \in 1..3 |-> RDiv(Dot(a[i], b[i]), T)]) - T, 2), Tol)))
      [] e.op = "relangle" -> C("rotation angle", All(e, LAMBDA x, o : AcosOk(x, e.cb, o, IF e.cb < 10 THEN 60 ELSE 25)))
      [] e.op = "acos" -> C("acos_linear_extrapolation", All(e, LAMBDA x, o : AcosOk(x, e.cb, o[1], IF e.cb < 10 THEN 40 ELSE 15)))
                     \cup C("derivative of acos_linear_extrapolation", All(e, LAMBDA x, o : DAcosOk(x, e.cb, o[2])))
      [] e.op = "hat" -> C("hat", All(e, LAMBDA x, o : o = Hat(x)))
      [] e.op = "hat_inv" -> C("hat_inv", All(e, LAMBDA x, o : o = x))
      [] e.op = "expgrad" -> C("derivative at the identity of " \o e.fn \o " is the hat operator", e.o = [k \in 1..3 |-> Hat([j \in 1..3 |-> IF j = k THEN T ELSE 0])])
      [] e.op = "se3_exp" -> C("se3_exp_map", All(e, LAMBDA x, o : LET m == SE3(x) IN
                /\ MClose([i \in 1..3 |-> SubSeq(o[i], 1, 3)], FT(m.r), Tol)
                /\ VClose(SubSeq(o[4], 1, 3), VScale(10, m.t), 60) /\ o[4][4] = T /\ \A i \in 1..3 : o[i][4] = 0))
      [] e.op = "se3_log" -> C("se3_log_map undoes se3_exp_map", All(e, LAMBDA x, o : LenT(SubSeq(x, 4, 6)) < 31300 => VClose(o, x, 6)))
      [] e.op = "se3_explog" -> C("se3_exp_map undoes se3_log_map", All(e, LAMBDA x, o : \A i \in 1..4 : \A j \in 1..4 :
                Close(o[i][j], IF i <= 3 /\ j <= 3 THEN QR(x[1])[j][i] ELSE IF i = 4 /\ j <= 3 THEN T * x[2][j] ELSE IF i = 4 THEN T ELSE 0, 25)))
      [] e.op = "rotate_axis_angle" -> C("RotateAxisAngle rotates row vectors counterclockwise", All(e, LAMBDA x, o : MClose(o, FT(AxisR(e.ax, x)), Tol)))
      [] e.op = "input" -> C("inputs are not modified", e.same)
      [] e.op = "rejects" -> C("invalid " \o e.what \o " is rejected", e.rejected)
      [] OTHER -> {"unknown event " \o e.op}
=============================================================================
