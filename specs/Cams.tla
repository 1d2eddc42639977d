-------------------------------- MODULE Cams --------------------------------
(* Cameras as batches of projective maps on row vectors.  A camera object is
     [kind, n, R, T, prm, sz, ndc]  with R: n rational matrices, T: n rational rows, prm: per-camera parameter
   records (numbers are rationals <<num, den>>), sz: image sizes <<h, w>> or <<>>, ndc: defined in NDC space.
   Passing R or T to a method replaces them (documented); passing other parameters does not. *)
EXTENDS Trig

S0(tr) == [objs |-> <<>>]
Apply0(s) == s
PyIdx(i, n) == IF i < 0 THEN i + n + 1 ELSE i + 1
Put(s, o) == [s EXCEPT !.objs = Append(s.objs, o)]
O(s, e) == s.objs[e.a]
Bc(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]
(* rationals <<p, q>> *)
Rt(p, q) == IF q < 0 THEN <<-p, -q>> ELSE <<p, q>>
QG(r) == LET g == Gcd(Abs(r[1]), r[2]) IN <<r[1] \div g, r[2] \div g>>
QMulR(a, b) == QG(Rt(a[1] * b[1], a[2] * b[2]))
QDiv(a, b) == QG(Rt(a[1] * b[2], a[2] * b[1]))
QAdd(a, b) == QG(Rt(a[1] * b[2] + b[1] * a[2], a[2] * b[2]))
QNeg(a) == <<-a[1], a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QI(k) == <<k, 1>>
(* a matrix of rationals -> common denominator *)
Lcm(a, b) == (a \div Gcd(a, b)) * b
OfQ(m) == LET d == FoldLeft(LAMBDA acc, row : FoldLeft(LAMBDA a2, x : Lcm(a2, x[2]), acc, row), 1, m) IN
    Norm([i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> m[i][j][1] * (d \div m[i][j][2])]], d)
Z == QI(0)
I1 == QI(1)
(* 1000 * a / b without leaving 32 bits; S = 1000 or 10000 *)
QS(a, b, sc) == LET x == IF b < 0 THEN -a ELSE a y == Abs(b) k == x \div y r == x % y IN
    IF Abs(k) > 200000000 \div sc THEN 0 ELSE sc * k + (IF sc > 1 /\ y > 200000 THEN ((r \div (y \div 100000)) * (sc \div 1000)) \div 100 ELSE RDiv(sc * r, y))

(* world to view: x R + T *)
W2V(c, i) == LET R == Bc(c.R, i) t == Bc(c.T, i) IN
    OfQ(<< <<Rt(R.n[1][1], R.d), Rt(R.n[1][2], R.d), Rt(R.n[1][3], R.d), Z>>,
           <<Rt(R.n[2][1], R.d), Rt(R.n[2][2], R.d), Rt(R.n[2][3], R.d), Z>>,
           <<Rt(R.n[3][1], R.d), Rt(R.n[3][2], R.d), Rt(R.n[3][3], R.d), Z>>,
           <<t[1], t[2], t[3], I1>> >>)
(* view to camera space, on row vectors *)
Proj(kind, p) ==
    CASE kind = "fovp" -> LET d == QSub(p.zf, p.zn) IN
            OfQ(<< <<QDiv(I1, QMulR(p.tan, p.asp)), Z, Z, Z>>, <<Z, QDiv(I1, p.tan), Z, Z>>,
                   <<Z, Z, QDiv(p.zf, d), I1>>, <<Z, Z, QNeg(QDiv(QMulR(p.zf, p.zn), d)), Z>> >>)
      [] kind = "fovo" -> LET d == QSub(p.zf, p.zn) wx == QSub(p.x1, p.x0) wy == QSub(p.y1, p.y0) IN
            OfQ(<< <<QDiv(QMulR(QI(2), p.s[1]), wx), Z, Z, Z>>, <<Z, QDiv(QMulR(QI(2), p.s[2]), wy), Z, Z>>,
                   <<Z, Z, QDiv(p.s[3], d), Z>>,
                   <<QNeg(QDiv(QAdd(p.x1, p.x0), wx)), QNeg(QDiv(QAdd(p.y1, p.y0), wy)), QNeg(QDiv(p.zn, d)), I1>> >>)
      [] kind = "persp" -> OfQ(<< <<p.f[1], Z, Z, Z>>, <<Z, p.f[2], Z, Z>>, <<p.p[1], p.p[2], Z, I1>>, <<Z, Z, I1, Z>> >>)
      [] OTHER -> OfQ(<< <<p.f[1], Z, Z, Z>>, <<Z, p.f[2], Z, Z>>, <<Z, Z, I1, Z>>, <<p.p[1], p.p[2], Z, I1>> >>)
Half(k) == QG(<<k, 2>>)
Sc(sz) == Half(Min2(sz[1], sz[2]))
(* camera space -> NDC.  Screen space cameras: principal point in image axes, so it is mirrored first *)
ToNdc(c, i, prm, szs) ==
    IF c.ndc THEN Eye(4)
    ELSE LET p == Bc(prm, i) sz == Bc(szs, i) s == Sc(sz) IN
         OfQ(<< <<QDiv(I1, s), Z, Z, Z>>, <<Z, QDiv(I1, s), Z, Z>>, <<Z, Z, I1, Z>>,
                <<QDiv(QSub(Half(sz[2]), QMulR(QI(2), p.p[1])), s), QDiv(QSub(Half(sz[1]), QMulR(QI(2), p.p[2])), s), Z, I1>> >>)
ToScreen(i, szs, flip) == LET sz == Bc(szs, i) s == Sc(sz) g == IF flip THEN QI(-1) ELSE I1 IN
    OfQ(<< <<QMulR(g, s), Z, Z, Z>>, <<Z, QMulR(g, s), Z, Z>>, <<Z, Z, I1, Z>>,
           <<QNeg(QMulR(g, Half(sz[2]))), QNeg(QMulR(g, Half(sz[1]))), Z, I1>> >>)
Row4(v, w, m) == TLCEval([j \in 1..4 |-> v[1] * m.n[1][j] + v[2] * m.n[2][j] + v[3] * m.n[3][j] + w * m.n[4][j]])
(* homogeneous divide, eps in eighths (0: none); result in units 1/sc *)
Dehom(v, m, eps, sc) == LET r == Row4(v, 1, m) w == r[4] small == eps > 0 /\ 8 * Abs(w) < eps * m.d IN
    TLCEval([j \in 1..3 |-> IF small THEN QS((IF w < 0 THEN -8 ELSE 8) * r[j], eps * m.d, sc) ELSE QS(r[j], w, sc)])
Near(a, b, sc) == Close(a, b, 3 + Abs(b) \div 5000)
SameDims(c, e) == e.rdim = (IF e.dim2 /\ c.n = 1 THEN 2 ELSE 3)
(* e.p : batches of integer points (one batch when the argument was two-dimensional) *)
PtsOk(r, c, e, P(_), F(_, _, _)) == LET n == Max2(c.n, Len(e.p)) IN
    /\ SameDims(c, e) /\ Len(r) = n
    /\ \A i \in 1..n : LET ci == IF c.n = 1 THEN 1 ELSE i m == P(ci) IN Len(r[i]) = Len(Bc(e.p, i)) /\ \A j \in 1..Len(r[i]) :
          LET x == F(Bc(e.p, i)[j], ci, m) IN Len(r[i][j]) = 3 /\ \A k \in 1..3 : Near(r[i][j][k], x[k], 1000)
(* after dividing by the clamped w, the image plane point continues through affine maps *)
Full(c, i, e) == Mul(W2V(c, i), Proj(c.kind, Bc(IF e.kw THEN e.prm ELSE c.prm, i)))
FullN(c, i, e) == Mul(Full(c, i, e), ToNdc(c, i, IF e.kw THEN e.prm ELSE c.prm, IF Len(e.sz) > 0 THEN e.sz ELSE c.sz))
(* screen points are the image of the (already divided) NDC points *)
Scr(c, v, i, e, fm) == LET nd == Dehom(v, fm, e.eps, 1000)
                       m == ToScreen(i, IF Len(e.sz) > 0 THEN e.sz ELSE c.sz, e.flip) IN
    <<QS(nd[1] * m.n[1][1] + 1000 * m.n[4][1], m.d, 1), QS(nd[2] * m.n[2][2] + 1000 * m.n[4][2], m.d, 1), nd[3]>>
ScrOk(r, c, e) == LET n == Max2(c.n, Len(e.p)) IN
    /\ SameDims(c, e) /\ Len(r) = n
    /\ \A i \in 1..n : LET k == IF c.n = 1 THEN 1 ELSE i fm == FullN(c, k, e) IN Len(r[i]) = Len(Bc(e.p, i)) /\ \A j \in 1..Len(r[i]) :
          LET x == Scr(c, Bc(e.p, i)[j], k, e, fm) h == MaxSeq(Bc(IF Len(e.sz) > 0 THEN e.sz ELSE c.sz, k), 0) IN
          \A d \in 1..3 : Close(r[i][j][d], x[d], 3 + h + Abs(x[d]) \div 2000)
(* unprojection of (x, y, depth): e.p holds x, y in eighths and the depth in eighths *)
View(c, i, prm, p, e) ==
    LET q == Bc(prm, i) x == QG(<<p[1], 8>>) y == QG(<<p[2], 8>>) z == QG(<<p[3], 8>>) IN
    CASE c.kind = "fovp" -> <<QMulR(QMulR(x, z), QMulR(q.tan, q.asp)), QMulR(QMulR(y, z), q.tan), z>>
      [] c.kind = "fovo" -> LET wx == QSub(q.x1, q.x0) wy == QSub(q.y1, q.y0) IN
            <<QDiv(QAdd(QMulR(x, wx), QAdd(q.x1, q.x0)), QMulR(QI(2), q.s[1])), QDiv(QAdd(QMulR(y, wy), QAdd(q.y1, q.y0)), QMulR(QI(2), q.s[2])), z>>
      [] OTHER -> LET sz == IF c.ndc \/ ~e.fromndc THEN <<2, 2>> ELSE Bc(IF Len(e.sz) > 0 THEN e.sz ELSE c.sz, i)
                      conv == ~c.ndc /\ e.fromndc
                      (* NDC -> screen camera space: x s - W/2 + 2 px *)
                      u == IF conv THEN QAdd(QSub(QMulR(x, Sc(sz)), Half(sz[2])), QMulR(QI(2), q.p[1])) ELSE x
                      v == IF conv THEN QAdd(QSub(QMulR(y, Sc(sz)), Half(sz[1])), QMulR(QI(2), q.p[2])) ELSE y
                      g == IF c.kind = "persp" THEN z ELSE I1
                  IN <<QMulR(g, QDiv(QSub(u, q.p[1]), q.f[1])), QMulR(g, QDiv(QSub(v, q.p[2]), q.f[2])), z>>
(* (v - T) R^T *)
ToWorld(c, i, v) == LET R == Bc(c.R, i) t == Bc(c.T, i) w == <<QSub(v[1], t[1]), QSub(v[2], t[2]), QSub(v[3], t[3])>> IN
    [j \in 1..3 |-> QAdd(QAdd(QMulR(w[1], Rt(R.n[j][1], R.d)), QMulR(w[2], Rt(R.n[j][2], R.d))), QMulR(w[3], Rt(R.n[j][3], R.d)))]
QVal(q, sc) == QS(q[1], q[2], sc)
Unproj(c, i, p, e) == LET v == View(c, i, IF e.kw THEN e.prm ELSE c.prm, p, e) w == IF e.world THEN ToWorld(c, i, v) ELSE v IN
    [j \in 1..3 |-> QVal(w[j], 1000)]
Center(c, i) == [j \in 1..3 |-> QVal(ToWorld(c, i, <<Z, Z, Z>>)[j], 1000)]
MatOk(r, c, F(_)) == Len(r) = c.n /\ \A i \in 1..c.n : LET m == F(i) IN \A k \in 1..4 : \A j \in 1..4 : Near(r[i][k][j], QS(m.n[k][j], m.d, 1000), 1000)

SetRT(c, e) == [c EXCEPT !.R = IF Len(e.R) > 0 THEN e.R ELSE c.R, !.T = IF Len(e.T) > 0 THEN e.T ELSE c.T]
Sel(s, ix, n) == IF Len(s) = 0 THEN s ELSE [k \in 1..Len(ix) |-> Bc(s, PyIdx(ix[k], n))]
Expd(s, n) == IF Len(s) = 0 THEN s ELSE [i \in 1..n |-> Bc(s, i)]
Apply(s, e) ==
    CASE e.op = "new" -> Put(s, e.cam)
      [] e.op = "getitem" -> LET c == O(s, e) IN
            Put(s, [c EXCEPT !.n = Len(e.idx), !.R = Sel(c.R, e.idx, c.n), !.T = Sel(c.T, e.idx, c.n), !.prm = Sel(c.prm, e.idx, c.n), !.sz = Sel(c.sz, e.idx, c.n)])
      [] e.op = "clone" -> Put(s, O(s, e))
      [] e.op = "join" -> LET cs == [k \in 1..Len(e.as) |-> s.objs[e.as[k]]] IN
            Put(s, [cs[1] EXCEPT !.n = SumSeq([k \in 1..Len(cs) |-> cs[k].n]),
                !.R = Flat([k \in 1..Len(cs) |-> Expd(cs[k].R, cs[k].n)]), !.T = Flat([k \in 1..Len(cs) |-> Expd(cs[k].T, cs[k].n)]),
                !.prm = Flat([k \in 1..Len(cs) |-> Expd(cs[k].prm, cs[k].n)]), !.sz = Flat([k \in 1..Len(cs) |-> Expd(cs[k].sz, cs[k].n)])])
      [] e.op = "obs" -> [s EXCEPT !.objs[e.a] = SetRT(O(s, e), e)]
      [] OTHER -> s
ObsConf(c, e) ==
    LET r == e.o ok(x) == C("camera: " \o e.acc, x) IN
    CASE e.acc = "len" -> ok(r = c.n)
      [] e.acc = "center" -> ok(Len(r) = c.n /\ \A i \in 1..c.n : \A k \in 1..3 : Near(r[i][k], Center(c, i)[k], 1000))
      [] e.acc = "world_to_view" -> ok(MatOk(r, c, LAMBDA i : W2V(c, i)))
      [] e.acc = "projection" -> ok(MatOk(r, c, LAMBDA i : Proj(c.kind, Bc(IF e.kw THEN e.prm ELSE c.prm, i))))
      [] e.acc = "full" -> ok(MatOk(r, c, LAMBDA i : Full(c, i, e)))
      [] e.acc = "points" -> ok(PtsOk(r, c, e, LAMBDA i : Full(c, i, e), LAMBDA v, i, m : Dehom(v, m, e.eps, 1000)))
      [] e.acc = "points_ndc" -> ok(PtsOk(r, c, e, LAMBDA i : FullN(c, i, e), LAMBDA v, i, m : Dehom(v, m, e.eps, 1000)))
      [] e.acc = "points_screen" -> ok(ScrOk(r, c, e))
      [] e.acc = "unproject" -> ok(PtsOk(r, c, e, LAMBDA i : 0, LAMBDA v, i, m : Unproj(c, i, v, e)))
      [] e.acc = "unproject_scaled" -> C("camera: unprojecting a projected point with its projected depth returns it",
                PtsOk(r, c, e, LAMBDA i : 0, LAMBDA v, i, m : [j \in 1..3 |-> 1000 * v[j]]))
      [] e.acc = "flags" -> ok(r.persp = (c.kind \in {"fovp", "persp"}) /\ r.ndc = c.ndc)
      [] e.acc = "pp" -> ok(Len(r) = c.n /\ \A i \in 1..c.n : \A k \in 1..2 : Near(r[i][k], QVal(Bc(IF e.kw THEN e.prm ELSE c.prm, i).p[k], 1000), 1000))
      [] e.acc = "znear" -> ok(Len(r) = c.n /\ \A i \in 1..c.n : Near(r[i], QVal(Bc(c.prm, i).zn, 1000), 1000))
      [] e.acc = "image_size" -> ok(IF c.sz = <<>> THEN ~e.has ELSE e.has /\ Len(r) = c.n /\ \A i \in 1..c.n : r[i] = Bc(c.sz, i))
      [] OTHER -> {"unknown accessor " \o e.acc}

(* ---- constructions of extrinsics ---- *)
UnitV(v) == UnitT(v)
LookOk(e) == LET z == UnitV(VSub(e.at, e.eye)) ux == Cross(e.up, VSub(e.at, e.eye)) x == UnitV(ux) y == UnitV(Cross(VSub(e.at, e.eye), ux))
                 R == e.o.R   \* 1e-4, columns x y z
                 Tn == [j \in 1..3 |-> -SumSeq([k \in 1..3 |-> R[k][j] * e.eye[k]])] IN
    /\ IsRot(R, 12)
    /\ \A k \in 1..3 : Close(R[k][3], z[k], 8)
    /\ (ux # <<0, 0, 0>> => \A k \in 1..3 : Close(R[k][1], x[k], 8) /\ Close(R[k][2], y[k], 8))
    /\ (e.hasT => VClose(e.o.T, Tn, 40))
Sph(e) == LET se == Sin(e.elev) ce == Cos(e.elev) IN <<M2(ce, Sin(e.azim)) * e.dist, se * e.dist, M2(ce, Cos(e.azim)) * e.dist>>
(* OpenCV pinhole projection of an integer point, thousandths of a pixel *)
CvPix(e, i, p) == LET R == e.R[i] v == [j \in 1..3 |-> R.n[j][1] * p[1] + R.n[j][2] * p[2] + R.n[j][3] * p[3] + R.d * e.t[i][j]] IN
    <<1000 * e.c[i][1] + QS(e.f[i][1] * v[1], v[3], 1000), 1000 * e.c[i][2] + QS(e.f[i][2] * v[2], v[3], 1000)>>
CvConf(e) ==
    C("cameras_from_opencv_projection projects to the OpenCV pixel", \A i \in 1..Len(e.R) : \A j \in 1..Len(e.p) :
         LET x == CvPix(e, i, e.p[j]) IN Close(e.o.px[i][j][1], x[1], 100 + Abs(x[1]) \div 2000) /\ Close(e.o.px[i][j][2], x[2], 100 + Abs(x[2]) \div 2000))
    \cup C("opencv_from_cameras_projection is the inverse conversion", \A i \in 1..Len(e.R) :
         /\ \A a \in 1..3 : \A b \in 1..3 : Close(e.o.R[i][a][b], RDiv(1000 * e.R[i].n[a][b], e.R[i].d), 2)
         /\ VClose(e.o.t[i], VScale(1000, e.t[i]), 2)
         /\ MClose(e.o.K[i], << <<1000 * e.f[i][1], 0, 1000 * e.c[i][1]>>, <<0, 1000 * e.f[i][2], 1000 * e.c[i][2]>>, <<0, 0, 1000>> >>, 60))
    \cup C("pulsar conversion", \A i \in 1..Len(e.R) : LET R == e.R[i] w == e.o.pulsar[i] IN
         /\ Len(w) = 13
         (* camera position -R^T t; 6D rotation: the first two rows of R^T *)
         /\ \A k \in 1..3 : Close(w[k], RDiv(-1000 * (R.n[1][k] * e.t[i][1] + R.n[2][k] * e.t[i][2] + R.n[3][k] * e.t[i][3]), R.d), 5)
         /\ \A k \in 1..3 : Close(w[3 + k], RDiv(1000 * R.n[k][1], R.d), 2) /\ Close(w[6 + k], RDiv(1000 * R.n[k][2], R.d), 2)
         (* focal length = znear (0.1), sensor width : focal length = image width : focal length in pixels *)
         /\ Close(w[10], 100, 1)
         /\ Close(e.o.sw[i], RDiv(2000 * e.sz[i][2], e.f[i][1] + e.f[i][2]), 3 + RDiv(2000 * e.sz[i][2], e.f[i][1] + e.f[i][2]) \div 500)
         /\ Close(w[12], 500 * e.sz[i][2] - 1000 * e.c[i][1], 60) /\ Close(w[13], 1000 * e.c[i][2] - 500 * e.sz[i][1], 60))
    \cup C("inputs of conversions are not modified", e.o.same)
Conf(s, e) ==
    CASE e.op = "obs" -> ObsConf(SetRT(O(s, e), e), e)
      [] e.op = "input" -> C("tensors given by the user are not modified", e.same)
      [] e.op = "rejects" -> C("invalid " \o e.what \o " is rejected", e.rejected)
      [] e.op = "look_at" -> C("look_at: right-handed rotation, z towards the target, y up, T = -C R", LookOk(e))
      [] e.op = "spherical" -> C("camera position from distance, elevation, azimuth", VClose(e.o, VAdd(Sph(e), VScale(T, e.at)), 20 * e.dist))
      [] e.op = "eye_at_up" -> C("camera_to_eye_at_up", LET c == O(s, e) IN Len(e.o.eye) = c.n /\ \A i \in 1..c.n : \A k \in 1..3 :
              LET R == Bc(c.R, i) IN /\ Near(e.o.eye[i][k], Center(c, i)[k], 1000)
                 /\ Near(e.o.at[i][k], Center(c, i)[k] + RDiv(1000 * R.n[k][3], R.d), 1000)
                 /\ Near(e.o.up[i][k], RDiv(1000 * R.n[k][2], R.d), 1000))
      [] e.op = "on_spot" -> C("rotate_on_spot keeps the centre and turns the camera", LET c == O(s, e) IN \A i \in 1..Max2(c.n, Len(e.rot)) :
              LET nR == Mul(Bc(c.R, i), MT(Bc(e.rot, i))) ce == Center(c, i) IN
              /\ RatClose(e.o.R[i], nR, 2)
              /\ \A k \in 1..3 : Close(e.o.T[i][k], -SumSeq([j \in 1..3 |-> QS(ce[j] * nR.n[j][k], nR.d, 1)]), 6 + Abs(e.o.T[i][k]) \div 2000))
      [] e.op = "opencv" -> CvConf(e)
      [] OTHER -> C("operation " \o e.op \o " succeeds", e.res = "ok")
=============================================================================
