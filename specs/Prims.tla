------------------------------- MODULE Prims -------------------------------
(* Mesh generators, face geometry with gradients, feature sampling at vertices, covariances and eigen-frames of point
   neighbourhoods, list/padded/packed conversion, circle fitting and collation of meshes. *)
EXTENDS Trig
S0(tr) == 0
Apply(s, e) == s
Tri(f, k) == f[k] + 1
V3(v, i) == v[i + 1]
(* ---- areas, normals, gradients: unit normals * T, areas * 1000, gradients * T ---- *)
FN(v, f) == Cross(VSub(V3(v, f[2]), V3(v, f[1])), VSub(V3(v, f[3]), V3(v, f[1])))
LenK(n) == LET k == SK(n) IN <<ISqrt(n * k * k), k>>                            \* length * k, k
FArea(v, f) == LET n == N2(FN(v, f)) r == LenK(n) IN IF n = 0 THEN 0 ELSE RDiv(500 * RDiv(r[1] * 10, r[2] \div 100), 1000)
FNorm(v, f) == LET c == FN(v, f) IN IF N2(c) = 0 THEN <<0, 0, 0>> ELSE UnitT(c)
FD(v, f, ga, gn) == LET c == FN(v, f) n == N2(c) r == LenK(n) u == UnitT(c) p == Dot(u, gn)
                    IN IF n = 0 THEN <<0, 0, 0>>
                       ELSE [k \in 1..3 |-> RDiv((gn[k] * T - M2(u[k], p)) * r[2], r[1]) + RDiv(ga * u[k], 2)]
FGrad(e) == LET D == TLCEval([j \in 1..Len(e.faces) |-> FD(e.v, e.faces[j], e.ga[j], e.gn[j])])
                at(j, k) == LET f == e.faces[j] a == VSub(V3(e.v, f[2]), V3(e.v, f[1])) b == VSub(V3(e.v, f[3]), V3(e.v, f[1]))
                                g1 == Cross(b, D[j]) g2 == Cross(D[j], a)
                            IN IF k = 2 THEN g1 ELSE IF k = 3 THEN g2 ELSE VScale(-1, VAdd(g1, g2))
                P == TLCEval([j \in 1..Len(e.faces) |-> [k \in 1..3 |-> at(j, k)]])
            IN [i \in 1..Len(e.v) |-> VSum(Flat([j \in 1..Len(e.faces) |-> SelectSeq([k \in 1..3 |-> IF e.faces[j][k] = i - 1 THEN P[j][k] ELSE <<>>], LAMBDA x : Len(x) > 0)]), <<0, 0, 0>>)]
FanOk(e) == C("face areas", \A j \in 1..Len(e.faces) : Close(e.area[j], FArea(e.v, e.faces[j]), 3 + e.area[j] \div 1000))
       \cup C("face normals", \A j \in 1..Len(e.faces) : VClose(e.normal[j], FNorm(e.v, e.faces[j]), 12))
       \cup C("gradients of areas and normals", LET G == FGrad(e) IN Len(e.g) = Len(e.v) /\ \A i \in 1..Len(e.v) : \A k \in 1..3 :
                Close(e.g[i][k], G[i][k], 150 + Abs(G[i][k]) \div 300))
(* ---- sampling of feature maps at vertices; coordinates * 8, pixel positions * 16, values * 256 ---- *)
Pix(a, W, al) == IF al THEN (a + 8) * (W - 1) ELSE (a + 8) * W - 8
Refl(x, lo, hi) == IF hi = lo THEN 0 ELSE LET span == hi - lo y == Abs(x - lo) k == y \div span r == y % span IN IF k % 2 = 0 THEN r + lo ELSE hi - r
PadPix(x, W, al, pad) == IF pad = "border" THEN Clamp(x, 0, 16 * (W - 1))
                         ELSE IF pad = "reflection" THEN Clamp(IF al THEN Refl(x, 0, 16 * (W - 1)) ELSE Refl(x, -8, 16 * W - 8), 0, 16 * (W - 1))
                         ELSE x
Near(x) == LET f == x \div 16 r == x % 16 IN IF r < 8 THEN f ELSE IF r > 8 THEN f + 1 ELSE IF f % 2 = 0 THEN f ELSE f + 1
At(m, y, x) == IF y < 0 \/ x < 0 \/ y >= Len(m) \/ x >= Len(m[1]) THEN 0 ELSE m[y + 1][x + 1]
Sample(m, p, e) == LET x == PadPix(Pix(p[1], Len(m[1]), e.al), Len(m[1]), e.al, e.pad) y == PadPix(Pix(p[2], Len(m), e.al), Len(m), e.al, e.pad)
                       x0 == x \div 16 y0 == y \div 16 fx == x % 16 fy == y % 16
                   IN IF e.mode = "nearest" THEN 256 * At(m, Near(y), Near(x))
                      ELSE (16 - fy) * ((16 - fx) * At(m, y0, x0) + fx * At(m, y0, x0 + 1)) + fy * ((16 - fx) * At(m, y0 + 1, x0) + fx * At(m, y0 + 1, x0 + 1))
ValignRow(e, n, p) == Flat([f \in 1..Len(e.feats) |-> [c \in 1..Len(e.feats[f][n]) |-> Sample(e.feats[f][n][c], p, e)]])
Valign(e) == IF e.packed THEN Flat([n \in 1..Len(e.pts) |-> [i \in 1..e.lens[n] |-> ValignRow(e, n, e.pts[n][i])]])
             ELSE [n \in 1..Len(e.pts) |-> [i \in 1..Len(e.pts[n]) |-> ValignRow(e, n, e.pts[n][i])]]
(* ---- closed oriented surfaces ---- *)
HalfEdges(fs) == Flat([j \in 1..Len(fs) |-> <<<<fs[j][1], fs[j][2]>>, <<fs[j][2], fs[j][3]>>, <<fs[j][3], fs[j][1]>>>>])
Closed(fs) == LET h == TLCEval(HalfEdges(fs)) S == TLCEval(SeqToSet(h)) IN Cardinality(S) = Len(h) /\ \A x \in S : <<x[2], x[1]>> \in S /\ x[1] # x[2]
Used(fs) == UNION {{fs[j][1], fs[j][2], fs[j][3]} : j \in 1..Len(fs)}
Und(fs) == {x \in SeqToSet(HalfEdges(fs)) : x[1] < x[2]}
Pow4(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 4 ELSE IF n = 2 THEN 16 ELSE 64
MidDir(a, b) == UnitT([k \in 1..3 |-> RDiv(a[k] + b[k], 4)])
IcoOk(e) == C("counts", Len(e.v) = 10 * Pow4(e.level) + 2 /\ Len(e.f) = 20 * Pow4(e.level))
       \cup C("closed and consistently oriented", Closed(e.f) /\ Used(e.f) = 0..(Len(e.v) - 1))
       \cup C("vertices on the unit sphere", \A i \in 1..Len(e.v) : Abs(N2(e.v[i]) - T * T) <= 60000)
       \cup C("outward", \A j \in 1..Len(e.f) : LET a == [k \in 1..3 |-> V3(e.v, e.f[j][1])[k] \div 20] b == [k \in 1..3 |-> V3(e.v, e.f[j][2])[k] \div 20]
                                                c == [k \in 1..3 |-> V3(e.v, e.f[j][3])[k] \div 20] IN Dot(a, Cross(b, c)) > 0)
       \cup C("regular icosahedron or its subdivision", IF e.level = 0
              THEN \A x \in Und(e.f) : Close(N2(VSub(V3(e.v, x[1]), V3(e.v, x[2]))) \div 100, 1105573, 500)     \* edge length 1.05146
              ELSE /\ \A i \in 1..Len(e.pv) : VClose(e.v[i], e.pv[i], 2)
                   /\ LET M == TLCEval({MidDir(V3(e.pv, x[1]), V3(e.pv, x[2])) : x \in Und(e.pf)})
                      IN \A i \in (Len(e.pv) + 1)..Len(e.v) : \E m \in M : VClose(e.v[i], m, 8))
(* torus: radii * 10, coordinates * 1000 *)
TorV(e, i, j) == LET ph == RDiv(62832 * i, e.rings) th == RDiv(62832 * j, e.sides) d == e.R * 1000 + RDiv(e.r * Cos(th), 10)    \* * 10000
                 IN <<RDiv(RDiv(d, 10) * RDiv(Cos(ph), 10), 1000), RDiv(RDiv(d, 10) * RDiv(Sin(ph), 10), 1000), RDiv(e.r * Sin(th), 100)>>
QuadOf(e, i, j) == {((i + a) % e.rings) * e.sides + ((j + b) % e.sides) : a \in {0, 1}, b \in {0, 1}}
Det20(v, f) == LET p(k) == [c \in 1..3 |-> V3(v, f[k])[c] \div 50] IN Dot(p(1), Cross(p(2), p(3)))
TorOk(e) == C("vertices on the torus", Len(e.v) = e.sides * e.rings /\ \A i \in 0..(e.rings - 1) : \A j \in 0..(e.sides - 1) :
                 VClose(e.v[i * e.sides + j + 1], TorV(e, i, j), 4))
       \cup C("two triangles per patch", Len(e.f) = 2 * e.sides * e.rings /\ \A i \in 0..(e.rings - 1) : \A j \in 0..(e.sides - 1) :
                 Cardinality({k \in 1..Len(e.f) : {e.f[k][1], e.f[k][2], e.f[k][3]} \subseteq QuadOf(e, i, j)}) = 2)
       \cup C("closed and consistently oriented", Closed(e.f))
       \cup C("outward", SumSeq([k \in 1..Len(e.f) |-> Det20(e.v, e.f[k])]) > 0)
ChkOk(e) == LET n == 2 * e.radius
                sq(x, y) == {<<x, y>>, <<x + 1, y>>, <<x, y + 1>>, <<x + 1, y + 1>>}
                xy(i) == <<e.v[i + 1][1], e.v[i + 1][2]>>
                ks(x, y) == {k \in 1..Len(e.f) : {xy(e.f[k][1]), xy(e.f[k][2]), xy(e.f[k][3])} \subseteq sq(x, y)}
                area(k) == LET a == VSub(xy(e.f[k][2]), xy(e.f[k][1])) b == VSub(xy(e.f[k][3]), xy(e.f[k][1])) IN a[1] * b[2] - a[2] * b[1]
                diag(k) == {xy(e.f[k][1]), xy(e.f[k][2]), xy(e.f[k][3])}
            IN C("size", Len(e.f) = 2 * n * n /\ Len(e.col) = Len(e.f) /\ \A i \in 1..Len(e.v) : e.v[i][3] = 0)
          \cup C("every square is covered by two triangles", \A x, y \in -e.radius..(e.radius - 1) : LET S == ks(x, y) IN
                    Cardinality(S) = 2 /\ (\A k \in S : Abs(area(k)) = 1) /\ (\A k, l \in S : k = l \/ (Cardinality(diag(k) \cap diag(l)) = 2 /\ area(k) = area(l))))
          \cup C("adjacent squares have opposite colours", LET c0 == e.col[CHOOSE k \in ks(0, 0) : TRUE] c1 == IF c0 = e.c1 THEN e.c2 ELSE e.c1 IN
                    c0 \in {e.c1, e.c2} /\ \A x, y \in -e.radius..(e.radius - 1) : \A k \in ks(x, y) : e.col[k] = (IF (x + y) % 2 = 0 THEN c0 ELSE c1))
(* ---- neighbourhoods ---- *)
D2(a, b) == N2(VSub(a, b))
Sorted(q) == SortSeq(q, LAMBDA x, y : x < y)
Dists(cl, p) == Sorted([j \in 1..Len(cl) |-> D2(cl[j], p)])
CntIn(q, x) == Cardinality({j \in 1..Len(q) : q[j] = x})
CovK(nn) == LET K == Len(nn) sm == VSum(nn, <<0, 0, 0>>) IN
            [a \in 1..3 |-> [b \in 1..3 |-> K * SumSeq([i \in 1..K |-> nn[i][a] * nn[i][b]]) - sm[a] * sm[b]]]     \* covariance * K^2
CovOk(e) == \A n \in 1..Len(e.pts) : \A i \in 1..Len(e.pts[n]) : LET cl == e.pts[n] nn == e.nn[n][i] IN
    /\ Len(nn) = e.K
    /\ [k \in 1..e.K |-> D2(nn[k], cl[i])] = SubSeq(Dists(cl, cl[i]), 1, e.K)
    /\ \A k \in 1..e.K : CntIn(nn, nn[k]) <= CntIn(cl, nn[k])
    /\ MClose(e.cov[n][i], CovK(nn), 1)
(* eigen-decomposition: A integer, values * 1000, vectors (columns) * T *)
Col(m, j) == [i \in 1..3 |-> m[i][j]]
EigPair(A, val, v, tol) == \A i \in 1..3 : LET l == Dot(A[i], v) r == RDiv(RDiv(val * v[i], 10), 100) IN Close(l, r, tol)
Ortho(V, tol) == \A a, b \in 1..3 : Close(RDiv(Dot(Col(V, a), Col(V, b)), T), IF a = b THEN T ELSE 0, tol)
EigOk(A, val, V, tol) == val[1] <= val[2] + 1 /\ val[2] <= val[3] + 1 /\ Ortho(V, 30) /\ \A j \in 1..3 : EigPair(A, val[j], Col(V, j), tol)
NormA(A) == MaxSeq([i \in 1..3 |-> MaxSeq([j \in 1..3 |-> Abs(A[i][j])], 0)], 1)
(* gradient of the sum of w[j] * value[j]: sum of w[j] v v^T when the values are separate *)
EigGrad(e, n) == [a \in 1..3 |-> [b \in 1..3 |-> SumSeq([j \in 1..3 |-> e.w[j] * M2(e.vec[n][a][j], e.vec[n][b][j])])]]
Gap(e, n) == e.val[n][2] - e.val[n][1] >= 500 /\ e.val[n][3] - e.val[n][2] >= 500
(* frames of a cloud: eigenvalues of the covariance * K^2 in units, times 10 *)
EigPair10(A, val, v, tol) == \A i \in 1..3 : Close(Dot(A[i], v), RDiv(val * v[i], 10), tol)
Nbrs(cl, p, K) == LET d == Dists(cl, p) IN IF d[K] = d[K + 1] THEN <<>> ELSE SelectSeq(cl, LAMBDA x : D2(x, p) <= d[K])
Majority(v, nn, p) == LET K == Len(nn) IN 2 * Cardinality({k \in 1..K : Dot(v, VSub(nn[k], p)) > -150}) >= K
FrameAt(e, cl, i, val, V) == LET nn == Nbrs(cl, cl[i], e.K) A == CovK(nn) tol == 800 + 60 * NormA(A) IN
    \/ nn = <<>>
    \/ /\ Ortho(V, 30)
       /\ \A j \in 1..3 : EigPair10(A, val[j], Col(V, j), tol)
       /\ val[1] <= val[2] + 1 + NormA(A) \div 50 /\ val[2] <= val[3] + 1 + NormA(A) \div 50
       /\ ~e.dis \/ (Majority(Col(V, 1), nn, cl[i]) /\ Majority(Col(V, 3), nn, cl[i])
                     /\ VClose([k \in 1..3 |-> RDiv(Cross(Col(V, 1), Col(V, 3))[k], T)], Col(V, 2), 40))
FramesOk(e) == \A n \in 1..Len(e.pts) : \A i \in 1..Len(e.pts[n]) : FrameAt(e, e.pts[n], i, e.val[n][i], e.frame[n][i])
(* ---- lists, padded, packed ---- *)
RECURSIVE PadD(_, _, _)
PadD(x, dims, p) == IF Len(dims) = 0 THEN x
                    ELSE [i \in 1..dims[1] |-> IF i <= Len(x) THEN PadD(x[i], Tail(dims), p) ELSE
                            PadD(IF Len(dims) = 1 THEN p ELSE <<>>, Tail(dims), p)]
RECURSIVE CutD(_, _)
CutD(x, dims) == IF Len(dims) = 0 THEN x ELSE [i \in 1..Min2(dims[1], Len(x)) |-> CutD(x[i], Tail(dims))]
ConvOk(e) == C("list to padded", e.padded = [i \in 1..Len(e.x) |-> PadD(e.x[i], e.dims, e.pv)])
        \cup C("padded to list", e.back = [i \in 1..Len(e.x) |-> CutD(e.padded[i], e.cut[i])])
        \cup C("list to packed", e.packed = Flat(e.y) /\ e.num = Lens(e.y) /\ e.first = First(Lens(e.y)) /\ e.owner = Owner(Lens(e.y)))
        \cup C("packed to list", e.unpacked = e.y)
        \cup C("padded to packed", e.p2p = e.packed /\ e.p3 = [i \in 1..Len(e.y) |-> PadD(e.y[i], e.d3, e.pv)]
                                   /\ e.p2pv = SelectSeq(Flat(e.p3), LAMBDA r : \E k \in 1..Len(r) : r[k] # e.pv) /\ e.p2pn = Flat(e.p3))
GatherOk(e) == LET row(n, i) == IF i < 0 THEN Rep(e.D, 0) ELSE e.x[n][i + 1] IN
    e.out = [n \in 1..Len(e.idx) |-> IF e.nd = 2 THEN [k \in 1..Len(e.idx[n]) |-> row(n, e.idx[n][k])]
                                     ELSE [p \in 1..Len(e.idx[n]) |-> [k \in 1..Len(e.idx[n][p]) |-> row(n, e.idx[n][p][k])]]]
WmeanOk(e) == \A n \in 1..Len(e.x) : \A d \in 1..Len(e.x[n][1]) :
    LET w == IF Len(e.w) = 0 THEN Rep(Len(e.x[n]), 1) ELSE e.w[IF Len(e.w) = 1 THEN 1 ELSE n] s == SumSeq(w)
    IN Close(e.out[n][d], IF s = 0 THEN 0 ELSE RDiv(1000 * SumSeq([i \in 1..Len(w) |-> w[i] * e.x[n][i][d]]), s), 1)
(* means over the points of every cloud, over the clouds, or over all, the weights broadcast to all points *)
WmeanBOk(e) ==
    LET N == Len(e.x) P == Len(e.x[1]) D == Len(e.x[1][1])
        w(n, i) == LET r == e.w[IF Len(e.w) = 1 THEN 1 ELSE n] IN r[IF Len(r) = 1 THEN 1 ELSE i]
        groups == CASE e.over = "points" -> [n \in 1..N |-> [i \in 1..P |-> <<n, i>>]]
                    [] e.over = "batch" -> [i \in 1..P |-> [n \in 1..N |-> <<n, i>>]]
                    [] OTHER -> <<[k \in 1..(N * P) |-> <<((k - 1) \div P) + 1, ((k - 1) % P) + 1>>]>>
    IN Len(e.out) = Len(groups) /\ \A g \in 1..Len(groups) : \A d \in 1..D :
         LET G == groups[g]
             s == SumSeq([k \in 1..Len(G) |-> w(G[k][1], G[k][2])])
         IN Close(e.out[g][d], IF s = 0 THEN 0 ELSE RDiv(1000 * SumSeq([k \in 1..Len(G) |-> w(G[k][1], G[k][2]) * e.x[G[k][1]][G[k][2]][d]]), s), 1)
(* ---- circles: points integers, centre and radius * 10000 ---- *)
CircLsq(e) == LET c == RDiv(RDiv(e.r, 10) * RDiv(e.r, 10), 100) - RDiv(RDiv(e.c[1], 10) * RDiv(e.c[1], 10), 100) - RDiv(RDiv(e.c[2], 10) * RDiv(e.c[2], 10), 100)
                  res(p) == T * N2(p) - 2 * e.c[1] * p[1] - 2 * e.c[2] * p[2] - c
              IN \A b \in 0..2 : Abs(SumSeq([i \in 1..Len(e.p) |-> res(e.p[i]) * (IF b = 0 THEN 1 ELSE e.p[i][b])])) <= 8000 * Len(e.p)
SArea2(p) == SumSeq([i \in 1..(Len(p) - 1) |-> LET a == VSub(p[i], p[1]) b == VSub(p[i + 1], p[1]) IN a[1] * b[2] - a[2] * b[1]])
CircGen(e, k) == LET d == [i \in 1..2 |-> T * e.p[1][i] - e.c[i]]
                     l == ISqrt(N2([i \in 1..2 |-> RDiv(d[i], 10)])) * 10
                     u == [i \in 1..2 |-> RDiv(RDiv(d[i], 10) * RDiv(e.r, 10), RDiv(l, 100))]     \* on the circle, * T
                     t == IF SArea2(e.p) > 0 THEN e.ang[k] ELSE -e.ang[k]
                 IN <<e.c[1] + M2(u[1], Cos(t)) - M2(u[2], Sin(t)), e.c[2] + M2(u[1], Sin(t)) + M2(u[2], Cos(t))>>
Circ2Ok(e) == C("least squares circle", CircLsq(e))
         \cup C("generated points", Len(e.gen) = Len(e.ang) /\ \A k \in 1..Len(e.ang) : VClose(e.gen[k], CircGen(e, k), 60))
(* points exactly on a circle: centre, two orthogonal radius vectors (integers), everything observed * 1000 *)
SumCross(p) == VSum([i \in 1..(Len(p) - 1) |-> Cross(VSub(p[i], p[1]), VSub(p[i + 1], p[1]))], <<0, 0, 0>>)
Circ3Ok(e) == LET m == UnitT(SumCross(e.p)) up == IF Dot(e.up, m) < 0 THEN VScale(-1, m) ELSE m
                  q == VSub(e.p[1], e.ctr) r2 == N2(q)
                  g(k) == LET x == Cross(m, q) IN [i \in 1..3 |-> 1000 * e.ctr[i] + RDiv(Cos(e.ang[k]) * q[i], 10) + M2(Sin(e.ang[k]), RDiv(x[i], 10)) + RDiv(e.off * up[i], 10)]
              IN C("centre", VClose(e.c, VScale(1000, e.ctr), 8))
            \cup C("radius", Close(RDiv(e.r * e.r, 1000), 1000 * r2, 30 + 4 * r2))
            \cup C("normal", VClose(e.n, m, 30) \/ VClose(VScale(-1, e.n), m, 30))
            \cup C("generated points", Len(e.gen) = Len(e.ang) /\ \A k \in 1..Len(e.ang) : VClose(e.gen[k], g(k), 25))
Scat(p, c) == [a \in 1..3 |-> [b \in 1..3 |-> SumSeq([i \in 1..Len(p) |-> (p[i][a] - c[a]) * (p[i][b] - c[b])])]]
Th(v) == [i \in 1..3 |-> RDiv(v[i], 10)]                                             \* a unit vector, * 1000
Ray(A, v) == SumSeq([i \in 1..3 |-> RDiv(v[i] * Dot(A[i], v), 1000)])                \* v^T A v, * 1000
BestOk(e) == \A n \in 1..Len(e.p) : LET A == Scat(e.p[n], e.c[n]) R == e.R[n] v == Th(Col(R, 3)) l == Ray(A, v) tol == 6 + 4 * NormA(A) IN
    /\ IsRot(R, 25)
    /\ \A i \in 1..3 : Close(Dot(A[i], v), RDiv(l * v[i], 1000), tol)
    /\ l <= Ray(A, Th(Col(R, 1))) + tol /\ l <= Ray(A, Th(Col(R, 2))) + tol
CollOk(e) == LET M == Len(e.items) IN
    e.keys = e.wkeys /\ e.mesh = e.wmesh /\ (e.mesh => /\ e.verts = [i \in 1..M |-> e.items[i].verts] /\ e.faces = [i \in 1..M |-> e.items[i].faces]
                                                      /\ e.atlas = (IF e.hast THEN [i \in 1..M |-> e.items[i].atlas] ELSE <<>>))
SplitOk(e) == LET st(k) == SumSeq(SubSeq(e.sizes, 1, k - 1)) IN
    Len(e.out) = Len(e.sizes) /\ \A k \in 1..Len(e.sizes) : e.out[k] = SubSeq(e.all, st(k) + 1, st(k) + e.sizes[k])
Conf(s, e) ==

    CASE e.op = "fan" -> FanOk(e)
      [] e.op = "valign" -> C("features sampled at vertices", LET X == TLCEval(Valign(e)) IN
            IF e.packed THEN MClose(e.out, X, 1) ELSE Len(e.out) = Len(X) /\ \A n \in 1..Len(X) : MClose(e.out[n], X[n], 1))
      [] e.op = "ico" -> IcoOk(e)
      [] e.op = "torus" -> TorOk(e)
      [] e.op = "checker" -> ChkOk(e)
      [] e.op = "cov" -> C("covariances of nearest neighbours", CovOk(e))
      [] e.op = "eig" -> C("eigenvalues and eigenvectors", \A n \in 1..Len(e.A) : EigOk(e.A[n], e.val[n], e.vec[n], 80))
                    \cup C("gradient of the eigenvalues", \A n \in 1..Len(e.A) : Gap(e, n) => MClose(e.g[n], EigGrad(e, n), 100))
                    \cup C("eigenvalues alone", MClose(e.alone, e.val, 1))
      [] e.op = "frames" -> C("local frames are signed principal directions", FramesOk(e))
      [] e.op = "conv" -> ConvOk(e)
      [] e.op = "gather" -> C("masked gather", GatherOk(e))
      [] e.op = "wmean" -> C("weighted mean", WmeanOk(e))
      [] e.op = "wmeanb" -> C("weighted mean over any dimensions", WmeanBOk(e))
      [] e.op = "circle2" -> Circ2Ok(e)
      [] e.op = "circle3" -> Circ3Ok(e)
      [] e.op = "bestxy" -> C("rotation to the best fit plane", BestOk(e))
      [] e.op = "collate" -> C("collated meshes", CollOk(e))
      [] e.op = "split" -> C("pieces of a split batch", SplitOk(e))
      [] e.op = "same" -> C(e.what, e.same)
      [] e.op = "rejects" -> C("invalid " \o e.what \o " is rejected", e.rejected)
=============================================================================
