------------------------------- MODULE Align -------------------------------
(* Alignment: similarity transforms between corresponding points (Umeyama), iterative closest points as a state machine over its
   recorded history, perspective-n-points and camera alignment.  Optimality is decided by a certificate: with M = SUM w xc' yc, the
   rotation R maximises tr(R' M) over SO(d) iff P = R' M is symmetric and every two eigenvalues of P have a sum >= 0 (over O(d): iff
   P is symmetric and positive semidefinite).  Points are integers; R * 10^4, T and points * 1000, scales * 10^4. *)
EXTENDS Trig
Dim(x) == Len(x[1])
WSum(w) == SumSeq(w)
WVec(x, w, d) == [k \in 1..d |-> SumSeq([i \in 1..Len(x) |-> w[i] * x[i][k]])]
(* W * SUM w (x - mean)' (y - mean), exact *)
Cov(x, y, w, d) == LET W == WSum(w) a == WVec(x, w, d) b == WVec(y, w, d) IN
    TLCEval([i \in 1..d |-> [j \in 1..d |-> W * SumSeq([p \in 1..Len(x) |-> w[p] * x[p][i] * y[p][j]]) - a[i] * b[j]]])
Tr(m) == SumSeq([i \in 1..Len(m) |-> m[i][i]])
MaxAbs(m) == LET S == {Abs(m[i][j]) : i, j \in 1..Len(m)} IN CHOOSE x \in S : \A y \in S : y <= x
IntMul(a, b) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> SumSeq([k \in 1..Len(b) |-> a[i][k] * b[k][j]])]])
Sym(p, tol) == \A i, j \in 1..Len(p) : Abs(p[i][j] - p[j][i]) <= tol
Shrink(p, to) == LET m == MaxAbs(p) IN IF m <= to THEN p ELSE TLCEval([i \in 1..Len(p) |-> [j \in 1..Len(p) |-> RDiv(p[i][j], (m + to - 1) \div to)]])
Det2(p, i, j) == p[i][i] * p[j][j] - p[i][j] * p[j][i]
Det3(p) == Dot(p[1], Cross(p[2], p[3]))
(* positive semidefinite up to rounding; entries at most 400 *)
Psd(p) == LET d == Len(p) IN
    /\ \A i \in 1..d : p[i][i] >= -2
    /\ \A i, j \in 1..d : i < j => Det2(p, i, j) >= -2000
    /\ (d = 3) => (Det3(p) >= -1000000)
Pairs(p) == LET t == Tr(p) IN TLCEval([i \in 1..Len(p) |-> [j \in 1..Len(p) |-> (IF i = j THEN t ELSE 0) - p[i][j]]])
Best(R, M, refl) == LET P == IntMul(FT(R), M) m == MaxAbs(P) IN
    /\ Sym(P, m \div 400 + 2)
    /\ IF refl THEN Psd(Shrink(P, 400)) ELSE IF Len(R) = 2 THEN Tr(P) >= -4 - m \div 400 ELSE Psd(Pairs(Shrink(P, 120)))
Orth(R) == MClose(FMul(R, FT(R)), [i \in 1..Len(R) |-> [j \in 1..Len(R) |-> IF i = j THEN T ELSE 0]], 12)
DetR(R) == IF Len(R) = 2 THEN M2(R[1][1], R[2][2]) - M2(R[1][2], R[2][1])
           ELSE IF Len(R) = 1 THEN R[1][1] ELSE SumSeq([j \in 1..3 |-> M2(R[1][j], LET k == (j % 3) + 1 l == ((j + 1) % 3) + 1 IN M2(R[2][k], R[3][l]) - M2(R[2][l], R[3][k]))])
(* scale: s * Var = tr P;   units: P * 10^4, s * 10^4 *)
Var(x, w, d) == LET a == WVec(x, w, d) IN WSum(w) * SumSeq([p \in 1..Len(x) |-> w[p] * N2(x[p])]) - N2(a)
ScaleOk(s, P, v) == Abs(s * v - Tr(P)) <= v * 4 + MaxAbs(P) \div 300 + 4
RowMul(v, R) == [j \in 1..Len(R) |-> SumSeq([k \in 1..Len(v) |-> v[k] * R[k][j]])]
(* T = mean y - s mean x R, times W, in thousandths *)
ShiftOk(t, s, R, x, y, w, d) == LET W == WSum(w) a == RowMul(WVec(x, w, d), R) b == WVec(y, w, d) IN
    \A k \in 1..d : Abs(W * t[k] - (1000 * b[k] - M2(s, RDiv(a[k], 10)))) <= W * 4 + Abs(a[k]) \div 5000
UmeyamaC(x, y, w, est, refl, o) == LET d == Len(o.R) M == Cov(x, y, w, d) P == IntMul(FT(o.R), M) v == Var(x, w, d) IN
    C("the linear part is an orthonormal matrix, and a rotation unless reflections are allowed", Orth(o.R) /\ (refl \/ DetR(o.R) > 0))
    \cup (IF WSum(w) = 0 \/ ~Orth(o.R) THEN {} ELSE
         C("the rotation is the least squares optimum", Best(o.R, M, refl))
         \cup C("the scale is the least squares optimum (one unless it is estimated)", IF ~est THEN o.s = T ELSE v = 0 \/ ScaleOk(o.s, P, v))
         \cup C("the translation maps the weighted mean onto the weighted mean", (est /\ v = 0) \/ ShiftOk(o.t, o.s, o.R, x, y, w, d)))
RECURSIVE Union(_, _)
Union(f, n) == IF n = 0 THEN {} ELSE f[n] \cup Union(f, n - 1)
(* ------------------------------ iterative closest points ------------------------------ *)
(* state: [on |-> within a run, x, y, est, refl, pts |-> transformed points * 1000 of every cloud, k |-> steps so far,
           err |-> sequence over steps of per-cloud rmse * 1000 (-1: unknown)] *)
Idle == [on |-> FALSE]
Move(x, o) == TLCEval([i \in 1..Len(x) |-> LET v == RowMul(x[i], o.R) IN [k \in 1..Len(v) |-> M2(o.s, RDiv(v[k], 10)) + o.t[k]]])
DistT(a, b) == SumSeq([k \in 1..Len(a) |-> (a[k] - 1000 * b[k]) * (a[k] - 1000 * b[k])])
(* nearest neighbours of the points a (thousandths) among b (integers): <<unambiguous, indices>> *)
Nearest(a, b) == LET d == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(b) |-> DistT(a[i], b[j])]])
                     m == TLCEval([i \in 1..Len(a) |-> CHOOSE j \in 1..Len(b) : \A h \in 1..Len(b) : d[i][j] <= d[i][h]])
                 IN [ok |-> \A i \in 1..Len(a) : \A j \in 1..Len(b) : b[j] = b[m[i]] \/ d[i][j] > d[i][m[i]] + 60000, ix |-> m]
Rmse(a, b, ix) == IF Len(a) = 0 THEN 0 ELSE ISqrt(100 * RDiv(SumSeq([i \in 1..Len(a) |-> RDiv(DistT(a[i], b[ix[i]]), 100)]), Len(a)))
InBox(a) == \A i \in 1..Len(a) : \A k \in 1..Len(a[i]) : Abs(a[i][k]) <= 9000
Start(e) == [on |-> TRUE, x |-> e.x, y |-> e.y, est |-> e.est, refl |-> e.refl, max |-> e.max, thr |-> e.thr, k |-> 0,
             last |-> e.init, err |-> <<>>, pts |-> [n \in 1..Len(e.x) |-> Move(e.x[n], e.init[n])]]
StepC(s, e, n) == IF Len(s.x[n]) = 0 \/ Len(s.y[n]) = 0 \/ ~InBox(s.pts[n]) THEN {} ELSE
    LET q == Nearest(s.pts[n], s.y[n]) IN
    IF ~q.ok THEN {} ELSE
    UmeyamaC(s.x[n], [i \in 1..Len(s.x[n]) |-> s.y[n][q.ix[i]]], Rep(Len(s.x[n]), 1), s.est, s.refl, e.o[n])
StepErr(s, e, n) == IF Len(s.x[n]) = 0 THEN 0 ELSE IF Len(s.y[n]) = 0 \/ ~InBox(s.pts[n]) THEN -1 ELSE
    LET q == Nearest(s.pts[n], s.y[n]) p == Move(s.x[n], e.o[n]) IN IF q.ok /\ InBox(p) THEN Rmse(p, s.y[n], q.ix) ELSE -1
Step(s, e) == [s EXCEPT !.k = @ + 1, !.last = e.o, !.err = Append(@, [n \in 1..Len(s.x) |-> StepErr(s, e, n)]),
               !.pts = [n \in 1..Len(s.x) |-> Move(s.x[n], e.o[n])]]
(* did step k of cloud n improve by more than the threshold (thousandths)?  yes / no / unknown *)
Gain(s, k, n) == LET a == s.err[k - 1][n] b == s.err[k][n] IN
    IF a < 0 \/ b < 0 THEN "unknown" ELSE
    LET g == 1000 * (a - b) - s.thr * a slack == 4000 + a * 2 IN IF g > slack THEN "yes" ELSE IF g < -slack THEN "no" ELSE "unknown"
EndC(s, e) ==
    C("at most max_iterations steps, all of them unless converged", s.k <= s.max /\ (e.conv \/ s.k = s.max))
    \cup C("the result is the last transform of the history", e.o = s.last)
    \cup C("the returned points are the transformed points", Len(e.xt) = Len(s.x) /\ \A n \in 1..Len(s.x) : Len(e.xt[n]) = Len(s.x[n])
           /\ \A i \in 1..Len(s.x[n]) : VClose(e.xt[n][i], s.pts[n][i], 12))
    \cup C("converged only when no cloud improves", e.conv => s.k >= 2 /\ \A n \in 1..Len(s.x) : Gain(s, s.k, n) # "yes")
    \cup C("iterates while some cloud improves, and stops then", \A k \in 2..(IF e.conv THEN s.k - 1 ELSE s.k) : \E n \in 1..Len(s.x) : Gain(s, k, n) # "no")
    \cup C("the error never increases", \A k \in 2..s.k : \A n \in 1..Len(s.x) : LET a == s.err[k - 1][n] b == s.err[k][n] IN a < 0 \/ b < 0 \/ b <= a + 4 + a \div 200)
    \cup C("the root mean squared error of the last step", (s.k > 0) => \A n \in 1..Len(s.x) : LET b == s.err[s.k][n] IN b < 0 \/ Abs(e.rmse[n] - b) <= 6 + b \div 100)
(* ------------------------------ perspective-n-points ------------------------------ *)
(* x: integers; pose: integer quaternion and translation; the projections were computed exactly from them *)
Pose(e, i) == LET R == QR(e.q) IN [k \in 1..3 |-> SumSeq([j \in 1..3 |-> RDiv(e.x[i][j] * R[k][j], 10)]) + 1000 * e.t[k]]
PnpC(e) == LET R == FT(QR(e.q)) IN
    C("the pose is recovered from exact projections", MClose(e.R, R, 40) /\ VClose(e.T, [k \in 1..3 |-> 1000 * e.t[k]], 60))
    \cup C("the points in camera coordinates", \A i \in 1..Len(e.x) : (e.w[i] = 0) \/ VClose(e.xc[i], TLCEval(Pose(e, i)), 90))
    \cup C("the errors vanish for exact projections", e.e2 <= 20 /\ e.e3 <= 20)
(* any projections: the reported errors are those of the returned pose *)
ProjC(e) == LET p(i) == LET v == RowMul(e.x[i], e.R) IN [k \in 1..3 |-> RDiv(v[k], 10) + e.T[k]]
                pp == TLCEval([i \in 1..Len(e.x) |-> p(i)])
                d2(i) == LET z == pp[i][3] u == RDiv(1000 * pp[i][1], z) - e.y[i][1] v == RDiv(1000 * pp[i][2], z) - e.y[i][2] IN ISqrt(u * u + v * v)
                d3(i) == LET v == [k \in 1..3 |-> pp[i][k] - e.xc[i][k]] IN RDiv(N2(v), 1000)
                W == WSum(e.w)
                front == \A i \in 1..Len(e.x) : pp[i][3] > 1000 /\ Abs(pp[i][1]) < 60000 /\ Abs(pp[i][2]) < 60000
                a == SumSeq([i \in 1..Len(e.x) |-> e.w[i] * d2(i)]) b == SumSeq([i \in 1..Len(e.x) |-> e.w[i] * d3(i)])
            IN C("the solution is a rotation", Orth(e.R) /\ DetR(e.R) > 0)
               \cup (IF ~front THEN {} ELSE C("the reported mean reprojection error is that of the returned pose", Abs(W * e.e2 - a) <= W * 8 + a \div 50)
                     \cup C("the reported algebraic error is that of the returned pose", Abs(W * e.e3 - b) <= W * 8 + b \div 20))
(* ------------------------------ cameras ------------------------------ *)
ColMul(R, v) == [i \in 1..Len(R) |-> Dot(R[i], v)]
Tp(R) == TLCEval([i \in 1..3 |-> [j \in 1..3 |-> R[j][i]]])
CamC(e) == LET N == Len(e.R1)
               RA == TLCEval(IntMul(e.R3[1], Tp(e.R1[1])))                                       \* * 10^4
               one == Rep(N, 1)
               M == TLCEval([i \in 1..3 |-> [j \in 1..3 |-> SumSeq([n \in 1..N |-> IntMul(e.R1[n], Tp(e.R2[n]))[i][j]])]])
               A == TLCEval([n \in 1..N |-> ColMul(e.R1[n], e.T1[n])])
               B == TLCEval([n \in 1..N |-> ColMul(e.R1[n], e.T2[n])])
               c1 == TLCEval([n \in 1..N |-> [k \in 1..3 |-> 0 - A[n][k]]])
               c2 == TLCEval([n \in 1..N |-> [k \in 1..3 |-> 0 - ColMul(e.R2[n], e.T2[n])[k]]])
               rigid == C("the alignment is one rotation for all cameras", Orth(RA) /\ DetR(RA) > 0 /\ \A n \in 1..N : IntMul(RA, e.R1[n]) = e.R3[n]
                           \/ MClose(IntMul(RA, e.R1[n]), e.R3[n], 12))
               mv == Var(A, one, 3)
               num == Tr(Cov(A, B, one, 3))
               (* T3_n = T_A R_n + s T_n;  10^4 s *)
               res(s, TA) == \A n \in 1..N : VClose(e.T3[n], [k \in 1..3 |-> SumSeq([j \in 1..3 |-> TA[j] * e.R1[n][j][k]]) + RDiv(s * e.T1[n][k], 10)], 12 + Abs(s) \div 1500)
               sX == IF e.est /\ N > 1 /\ mv > 0 THEN RDiv(T * num, mv) ELSE T
               TX == [k \in 1..3 |-> RDiv(1000 * SumSeq([n \in 1..N |-> B[n][k]]) - RDiv(sX * SumSeq([n \in 1..N |-> A[n][k]]), 10), N)]
               RU == FT(RA)
               P == IntMul(RA, Cov(c1, c2, one, 3))
               cv == Var(c1, one, 3)
               sC == IF e.est /\ cv > 0 THEN RDiv(Tr(P), cv) ELSE T
               tU == [k \in 1..3 |-> RDiv(1000 * WVec(c2, one, 3)[k] - M2(sC, RDiv(RowMul(WVec(c1, one, 3), RU)[k], 10)), N)]
               TC == [k \in 1..3 |-> 0 - RDiv(RowMul(tU, RA)[k], T)]
           IN rigid \cup C("other camera parameters are kept", e.rest) \cup (IF rigid # {} THEN {} ELSE
              IF e.mode = "extrinsics" THEN C("the rotation aligns the camera rotations in the least squares sense", Best(Tp(RA), M, FALSE))
                   \cup C("scale and translation align the camera translations", (e.est /\ N > 1 /\ mv = 0) \/ res(sX, TX))
              ELSE C("the rotation aligns the camera centres in the least squares sense", Best(RU, Cov(c1, c2, one, 3), FALSE))
                   \cup C("scale and translation align the camera centres", (e.est /\ cv = 0) \/ res(sC, TC)))
(* Cameras that follow a similarity of the scene x -> s (x A + a) see it as before, at s times the distance. *)
CamSim(e) == \A n \in 1..Len(e.R) : \A i \in 1..Len(e.p) :
    LET x == e.p[i]
        y == [k \in 1..3 |-> e.s[n] * (SumSeq([j \in 1..3 |-> x[j] * e.A[n][j][k]]) + e.a[n][k])]
    IN \A k \in 1..3 : Abs(SumSeq([j \in 1..3 |-> y[j] * e.R3[n][j][k]]) + e.T3[n][k]
                           - 1000 * e.s[n] * (SumSeq([j \in 1..3 |-> x[j] * e.R[n][j][k]]) + e.T[n][k])) <= 5
(* one random similarity for all cameras: a rotation by at most the given angle, a shift and a scale *)
CamJit(e) == LET Q == TLCEval([n \in 1..Len(e.R) |-> IntMul(e.R[n], Tp(e.R3[n]))]) IN        \* units 10^-4
    C("cameras are jittered by one rotation", Orth(Q[1]) /\ DetR(Q[1]) > 0 /\ \A n \in 1..Len(e.R) : MClose(Q[n], Q[1], 4))
    \cup C("the rotation is by at most the given angle", Tr(Q[1]) >= T + 20 * e.cos - 40)
    \cup C("translations are kept but for the shift and scale asked for",
            IF e.shift THEN TRUE
            ELSE IF e.scale THEN \A n \in 1..Len(e.R) : \A m \in 1..Len(e.R) : \A k \in 1..3 : \A l \in 1..3 :
                     (e.T[n][k] * e.T3[n][k] >= 0) /\ Abs(e.T[n][k] * e.T3[m][l] - e.T[m][l] * e.T3[n][k]) <= 12
            ELSE \A n \in 1..Len(e.R) : e.T3[n] = [k \in 1..3 |-> 1000 * e.T[n][k]])
(* near and far bounds of the depth of a scene of the given extent around c: distance of the camera -/+ extent *)
DepthB(e) == Len(e.lo) = Len(e.R) /\ \A n \in 1..Len(e.R) :
    LET o == ColMul(e.R[n], e.T[n])
        d2 == SumSeq([k \in 1..3 |-> (e.c[k] + o[k]) * (e.c[k] + o[k])])
        D == (e.lo[n] + e.hi[n]) \div 2
    IN Abs(e.hi[n] - e.lo[n] - 2000 * e.ext) <= 3
       /\ (IF d2 > e.ext * e.ext THEN Abs(D * D - 1000000 * d2) <= 4 * D ELSE Abs(D - 1000 * e.ext - 1) <= 2)
(* Cameras of an evaluation video: units of positions 1/1000, of rotations 1/10000. *)
FlyC(e) ==
    C("number of evaluation cameras", e.n = e.M /\ Len(e.R) = e.M /\ Len(e.ctr) = e.M /\ Len(e.eye) = e.M)
    \cup C("evaluation cameras look at the centre of the scene",
            \A n \in 1..Len(e.ctr) : Abs(e.ctr[n][1]) <= 10 /\ Abs(e.ctr[n][2]) <= 10 /\ e.ctr[n][3] > 0 /\ Orth(e.R[n]) /\ DetR(e.R[n]) > 0)
    \cup C("evaluation cameras are upright", e.infer \/ \A n \in 1..Len(e.R) : Abs(e.R[n][3][1]) <= 10 /\ e.R[n][3][2] > 0)
    \cup C("intrinsics of the evaluation cameras are those given or the mean ones",
            \A n \in 1..e.M : \A k \in 1..2 : Abs(e.f[n][k] - 1000 * e.fw[n][k]) <= 2 /\ Abs(e.pp[n][k] - 1000 * e.pw[n][k]) <= 2)
    \cup C("the offset moves the trajectory", \A n \in 1..e.M : \A k \in 1..3 : Abs(e.eye1[n][k] - e.eye[n][k] - 1000 * e.off[k]) <= 25)
    \cup C("the canonical offset moves the trajectory along its own axes",
            LET d(n) == [k \in 1..3 |-> e.eye2[n][k] - e.eye[n][k]]
                w == [k \in 1..3 |-> 1000 * SumSeq([j \in 1..3 |-> e.can[j] * e.mid[k][j]])]
            IN \A n \in 1..e.M :
                 IF e.circ THEN Abs((d(n)[1] * d(n)[1]) \div 1000 + (d(n)[2] * d(n)[2]) \div 1000 + (d(n)[3] * d(n)[3]) \div 1000 - 1000 * N2(e.can)) <= 400 /\ ((\A i \in 1..Len(e.C) : e.C[i][3] = e.C[1][3]) => Abs(d(n)[3] - 1000 * e.can[3]) <= 25)
                 ELSE e.unique => \A k \in 1..3 : Abs(d(n)[k] - w[k]) <= 25)
    \cup C("a circular trajectory passes through the plane and at the distance of the training cameras",
            e.circ => \A n \in 1..e.M : LET k == CHOOSE k \in 1..3 : \A i \in 1..Len(e.C) : e.C[i][k] = e.C[1][k] IN Abs(e.eye[n][k] - 1000 * e.C[1][k]) <= 25)
S0(tr) == Idle
Apply(s, e) == CASE e.op = "icp" -> Start(e) [] e.op = "step" -> Step(s, e) [] e.op = "done" -> Idle [] OTHER -> s
Conf(s, e) ==
    CASE e.op = "umeyama" -> Union([n \in 1..Len(e.x) |-> UmeyamaC(e.x[n], e.y[n], e.w[n], e.est, e.refl, e.o[n])], Len(e.x))
      [] e.op = "icp" -> {}
      [] e.op = "step" -> Union([n \in 1..Len(s.x) |-> StepC(s, e, n)], Len(s.x))
      [] e.op = "done" -> EndC(s, e)
      [] e.op = "pnp" -> PnpC(e)
      [] e.op = "proj" -> ProjC(e)
      [] e.op = "cams" -> CamC(e)
      [] e.op = "camsim" -> C("moved cameras see the moved scene as before", CamSim(e))
      [] e.op = "camjit" -> CamJit(e)
      [] e.op = "depthb" -> C("depth bounds of a scene", DepthB(e))
      [] e.op = "fly" -> FlyC(e)
      [] e.op = "same" -> C(e.what, e.same)
      [] e.op = "rejects" -> C("invalid arguments raise: " \o e.what, e.rejected)
=============================================================================
