------------------------------- MODULE Points -------------------------------
(* Point rasterization, compositing and the points renderer.  Units as in Rast; radii are in units of 1/(4m).
   Compositing weights are integers over e.ad (their denominator). *)
EXTENDS RastGeo
S0(tr) == 0
Apply(s, e) == s
PV(e, n, x) == IF e.mode = "raw" THEN [X |-> <<x[1], x[2]>>, Z |-> 1, z |-> x[3]] ELSE
    LET c == Bc(e.cams, n) w == View(c, x) m2 == 2 * MM(e) IN
    IF c.persp THEN [X |-> <<m2 * (c.f[1] * w[1] + c.p[1] * w[3]), m2 * (c.f[2] * w[2] + c.p[2] * w[3])>>, Z |-> w[3], z |-> 4 * w[3]]
    ELSE [X |-> <<m2 * (c.f[1] * w[1] + c.p[1]), m2 * (c.f[2] * w[2] + c.p[2])>>, Z |-> 1, z |-> 4 * w[3]]
PixP(e, y, x) == <<2 * (2 * (e.W - 1 - x) + 1 - e.W), 2 * (2 * (e.H - 1 - y) + 1 - e.H)>>
(* squared distance times Z^2 in squared units *)
D2(p, P) == (p.X[1] - P[1] * p.Z) * (p.X[1] - P[1] * p.Z) + (p.X[2] - P[2] * p.Z) * (p.X[2] - P[2] * p.Z)
Rad(e, n, i) == IF Len(e.radius) = 1 /\ Len(e.radius[1]) = 1 THEN e.radius[1][1] ELSE e.radius[n][i]
PAt(e, n, i, p, P) == LET d == D2(p, P) R == Rad(e, n, i) h == 4 * d - R * R * p.Z * p.Z
                          exact == p.Z \in {1, 2, 4, 8} /\ Pow2(MM(e)) IN
    [st |-> IF p.z < 0 \/ h > 0 THEN "no" ELSE IF h < 0 THEN "yes" ELSE IF exact THEN "no" ELSE "maybe",
     z |-> 2500 * p.z, d |-> RDiv(LDiv(d, p.Z * p.Z, 4), 4 * MM(e) * MM(e)), d2 |-> d, R |-> R, Z |-> p.Z]
FirstP(e, n) == SumSeq([k \in 1..(n - 1) |-> Len(e.pts[k])])
PPixOk(e, n, ps, y, x) ==
    LET P == PixP(e, y, x) hs == TLCEval([i \in 1..Len(ps) |-> PAt(e, n, i, ps[i], P)])
        L == e.o[n][y + 1][x + 1] base == FirstP(e, n)
        cnt == Cardinality({k \in 1..Len(L) : L[k][1] >= 0})
        id(k) == L[k][1] - base + 1
        yes == {k \in 1..Len(ps) : hs[k].st = "yes"} may == {k \in 1..Len(ps) : hs[k].st # "no"}
        listed == {id(k) : k \in 1..cnt}
    IN  /\ Len(L) = e.K
        /\ \A k \in 1..Len(L) : IF k <= cnt THEN L[k][1] >= 0 ELSE L[k] = <<-1, -10000, -10000>>
        /\ listed \subseteq may /\ Cardinality(listed) = cnt
        /\ (cnt < e.K => yes \subseteq listed)
        /\ \A k \in 1..(cnt - 1) : L[k][2] <= L[k + 1][2]
        /\ \A k \in 1..cnt : Close(L[k][2], hs[id(k)].z, 3) /\ Close(L[k][3], hs[id(k)].d, 3)
        /\ (cnt = e.K => \A j \in yes \ listed : hs[j].z >= L[cnt][2] - 3)
PShapeOk(e) == Len(e.o) = Len(e.pts) /\ \A n \in 1..Len(e.o) : Len(e.o[n]) = e.H /\ \A y \in 1..e.H : Len(e.o[n][y]) = e.W
Proj(e, n) == TLCEval([i \in 1..Len(e.pts[n]) |-> PV(e, n, e.pts[n][i])])
PRasterOk(e) == \A n \in 1..Len(e.pts) : LET ps == Proj(e, n) IN \A y \in 0..(e.H - 1) : \A x \in 0..(e.W - 1) : PPixOk(e, n, ps, y, x)
(* gradient of sum(gz * zbuf + gd * dists) for integer weights: d z_p = sum gz,  d x_p = sum 2 gd (x_p - pixel) *)
SumF(F(_, _, _), H, W, K) == SumSeq([y \in 1..H |-> SumSeq([x \in 1..W |-> SumSeq([k \in 1..K |-> F(y, x, k)])])])
PGradOk(e) == \A n \in 1..Len(e.pts) : \A i \in 1..Len(e.pts[n]) :
    LET id == FirstP(e, n) + i - 1 g == e.g[n][i]
        hit(y, x, k) == e.idx[n][y][x][k] = id
        gz(y, x, k) == IF hit(y, x, k) THEN e.gz[n][y][x][k] ELSE 0
        gx(y, x, k) == IF hit(y, x, k) THEN 2 * e.gd[n][y][x][k] * (e.pts[n][i][1] - PixP(e, y - 1, x - 1)[1]) ELSE 0
        gy(y, x, k) == IF hit(y, x, k) THEN 2 * e.gd[n][y][x][k] * (e.pts[n][i][2] - PixP(e, y - 1, x - 1)[2]) ELSE 0
    IN  /\ g[3] = 1000 * SumF(gz, e.H, e.W, e.K)
        /\ Close(g[1], RDiv(1000 * SumF(gx, e.H, e.W, e.K), 2 * MM(e)), 2)
        /\ Close(g[2], RDiv(1000 * SumF(gy, e.H, e.W, e.K), 2 * MM(e)), 2)
(* ------------------------------ compositing ------------------------------
   f[c][p] features, a[k] weights over e.ad, ix[k] point indices (-1: none) of one pixel *)
RECURSIVE PowI(_, _)
PowI(b, k) == IF k = 0 THEN 1 ELSE b * PowI(b, k - 1)
Live(ix) == SelectSeq([k \in 1..Len(ix) |-> k], LAMBDA k : ix[k] >= 0)
(* product of (ad - a_l) for l in ks *)
RECURSIVE Trans(_, _, _)
Trans(ad, a, ks) == IF Len(ks) = 0 THEN 1 ELSE (ad - a[ks[1]]) * Trans(ad, a, Tail(ks))
(* sum_k a_k T_k v_k over ad^n, n = number of live points; all terms brought to the denominator ad^n *)
AlphaSum(ad, a, ks, v) == SumSeq([j \in 1..Len(ks) |-> a[ks[j]] * Trans(ad, a, SubSeq(ks, 1, j - 1)) * v[ks[j]] * PowI(ad, Len(ks) - j)])
SumA(a, ks) == SumSeq([j \in 1..Len(ks) |-> a[ks[j]]])
MinA(ad, t) == MaxI(t, ad \div 10000)                                     \* the sum of weights is bounded below by 1e-4
NormSum(a, ks, v) == SumSeq([j \in 1..Len(ks) |-> a[ks[j]] * v[ks[j]]])
(* numerator and denominator of the composited value *)
CompV(how, ad, a, ks, v) ==
    CASE how = "alpha" -> <<AlphaSum(ad, a, ks, v), PowI(ad, Len(ks))>>
      [] how = "norm" -> LET t == SumA(a, ks) IN IF ad < 10000 THEN <<NormSum(a, ks, v), IF t = 0 THEN 1 ELSE t>> ELSE <<NormSum(a, ks, v), MinA(ad, t)>>
      [] OTHER -> <<NormSum(a, ks, v), ad>>
FeatAt(e, c, ix) == [k \in 1..Len(ix) |-> IF ix[k] >= 0 THEN e.f[c][ix[k] + 1] ELSE 0]
Col(t, n, y, x) == TLCEval([k \in 1..Len(t[n]) |-> t[n][k][y][x]])
CompOk(e) == \A n \in 1..Len(e.ix) : \A y \in 1..e.H : \A x \in 1..e.W :
    LET ix == Col(e.ix, n, y, x) a == Col(e.a, n, y, x) ks == Live(ix) IN \A c \in 1..Len(e.f) :
    LET v == CompV(e.how, e.ad, a, ks, FeatAt(e, c, ix)) IN
    Close(e.o[n][c][y][x], IF e.bg # <<>> /\ ix[1] < 0 THEN 10000 * e.bg[c] ELSE LDiv(v[1], v[2], 4), 2)
(* derivative of the composited value of feature values v with respect to a[ks[j]] : <<numerator, denominator>> *)
DA(how, ad, a, ks, v, j) ==
    CASE how = "alpha" -> LET pre == SubSeq(ks, 1, j - 1) post == SubSeq(ks, j + 1, Len(ks)) IN
                <<Trans(ad, a, pre) * (v[ks[j]] * PowI(ad, Len(post)) - AlphaSum(ad, a, post, v)), PowI(ad, Len(ks) - 1)>>
      [] how = "norm" -> LET t == SumA(a, ks) lim == IF ad < 10000 THEN 0 ELSE ad \div 10000 IN
                IF t < lim \/ t = 0 THEN <<v[ks[j]] * 10000, 1>> ELSE <<ad * (v[ks[j]] * t - NormSum(a, ks, v)), t * t>>
      [] OTHER -> <<v[ks[j]], 1>>
CloseR(x, y, tol) == Abs(x - y) <= tol + Abs(y) \div 5000
CompGradOk(e) ==
    /\ \A n \in 1..Len(e.ix) : \A y \in 1..e.H : \A x \in 1..e.W :
        LET ix == Col(e.ix, n, y, x) a == Col(e.a, n, y, x) ks == Live(ix) IN \A k \in 1..Len(ix) :
            IF ix[k] < 0 THEN e.ga[n][k][y][x] = 0 ELSE LET j == CHOOSE jj \in 1..Len(ks) : ks[jj] = k
                d == SumSeq([c \in 1..Len(e.f) |-> LET r == DA(e.how, e.ad, a, ks, FeatAt(e, c, ix), j) IN e.go[n][c][y][x] * LDiv(r[1], r[2], e.gs)]) IN
            CloseR(e.ga[n][k][y][x], d, 5)
    /\ \A c \in 1..Len(e.f) : \A p \in 1..Len(e.f[1]) :
        LET d == SumSeq([n \in 1..Len(e.ix) |-> SumSeq([y \in 1..e.H |-> SumSeq([x \in 1..e.W |->
                    LET ix == Col(e.ix, n, y, x) a == Col(e.a, n, y, x) ks == Live(ix)
                        one == TLCEval([k \in 1..Len(ix) |-> IF ix[k] = p - 1 THEN 1 ELSE 0])
                        v == CompV(e.how, e.ad, a, ks, one) IN e.go[n][c][y][x] * LDiv(v[1], v[2], 3)])])]) IN
        CloseR(e.gf[c][p], d, 20)
(* ------------------------------ renderer ------------------------------
   weights 1 - d^2/r^2 of the K nearest points (distinct depths, exact arithmetic); result in thousandths *)
RECURSIVE ZSort(_, _)
ZSort(hs, S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE k \in S : \A j \in S : hs[k].z <= hs[j].z IN <<i>> \o ZSort(hs, S \ {i})
M4(a, b) == RDiv(a * b, 10000)
RenderOk(e) == \A n \in 1..Len(e.pts) : LET ps == Proj(e, n) IN \A y \in 0..(e.H - 1) : \A x \in 0..(e.W - 1) :
    LET P == PixP(e, y, x) hs == TLCEval([i \in 1..Len(ps) |-> PAt(e, n, i, ps[i], P)])
        near == ZSort(hs, {i \in 1..Len(ps) : hs[i].st = "yes"})
        L == SubSeq(near, 1, MinI(e.K, Len(near)))
        w == TLCEval([k \in 1..Len(L) |-> LDiv(hs[L[k]].R * hs[L[k]].R - 4 * hs[L[k]].d2, hs[L[k]].R * hs[L[k]].R, 4)])
        base == FirstP(e, n)
        (* transmitted light in front of the k-th point *)
        tr[k \in 1..(Len(L) + 1)] == IF k = 1 THEN 10000 ELSE M4(tr[k - 1], 10000 - w[k - 1])
        tot == SumSeq(w)
    IN  \A c \in 1..Len(e.f[1]) :
        LET fv(k) == e.f[base + L[k]][c]
            v == IF Len(L) = 0 THEN (IF e.bg = <<>> THEN 0 ELSE 1000 * e.bg[c])
                 ELSE IF e.how = "alpha" THEN RDiv(SumSeq([k \in 1..Len(L) |-> M4(w[k], tr[k]) * fv(k)]), 10)
                 ELSE LDiv(SumSeq([k \in 1..Len(L) |-> w[k] * fv(k)]), tot, 3)
        IN  Close(e.o[n][y + 1][x + 1][c], v, 12)
Conf(s, e) ==
    CASE e.op = "praster" -> C("point rasterization output shapes", PShapeOk(e)) \cup (IF PShapeOk(e) THEN C("each pixel lists its nearest covering points", PRasterOk(e)) ELSE {})
      [] e.op = "pgrad" -> C("point rasterization gradient", PGradOk(e))
      [] e.op = "comp" -> C("composited values", CompOk(e))
      [] e.op = "compgrad" -> C("compositing gradients", CompGradOk(e))
      [] e.op = "render" -> C("rendered points", Len(e.o) = Len(e.pts) /\ RenderOk(e))
      [] e.op = "same" -> C(e.what, e.same)
      [] e.op = "rejects" -> C("invalid " \o e.what \o " is rejected", e.rejected)
      [] OTHER -> C("operation " \o e.op \o " succeeds", e.res = "ok")
=============================================================================
