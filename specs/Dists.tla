------------------------------- MODULE Dists -------------------------------
(* Distances between point sets and between points and meshes: chamfer distance and point-to-mesh losses.
   Coordinates are integers; losses are fixed point numbers. *)
EXTENDS Trig
S0(tr) == 0
Apply(s, e) == s
Sub(a, b) == [k \in 1..Len(a) |-> a[k] - b[k]]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
(* ------------------------------ chamfer ------------------------------ *)
(* clouds: sequences of integer points (only the real ones); weights: integers; units of the losses: 1e-4 *)
D(e, a, b) == IF e.norm = 1 THEN SumSeq([k \in 1..Len(a) |-> Abs(a[k] - b[k])]) ELSE N2(Sub(a, b))
Nbr(e, a, ys) == LET m == MinOf({D(e, a, ys[j]) : j \in 1..Len(ys)}) IN {j \in 1..Len(ys) : D(e, a, ys[j]) = m}
Terms(e, xs, ys) == TLCEval([i \in 1..Len(xs) |-> IF Len(ys) = 0 THEN 0 ELSE LET m == CHOOSE j \in Nbr(e, xs[i], ys) : TRUE IN D(e, xs[i], ys[m])])
Cos4(a, b) == LET u == UnitT(a) v == UnitT(b) IN RDiv(Dot([k \in 1..3 |-> u[k]], v), T)
NT(e, a, b) == LET c == Cos4(a, b) IN T - (IF e.abs THEN Abs(c) ELSE c)
Clear(e, xs, ys) == \A i \in 1..Len(xs) : Len(ys) > 0 /\ Cardinality(Nbr(e, xs[i], ys)) = 1
NTerms(e, xs, ys, xn, yn) == TLCEval([i \in 1..Len(xs) |-> NT(e, xn[i], yn[CHOOSE j \in Nbr(e, xs[i], ys) : TRUE])])
RedP(e, t) == CASE e.point = "sum" -> T * SumSeq(t)
               [] e.point = "mean" -> RDiv(T * SumSeq(t), IF Len(t) = 0 THEN 1 ELSE Len(t))
               [] OTHER -> IF Len(t) = 0 THEN 0 ELSE T * MaxOf({t[i] : i \in 1..Len(t)})
RedN(e, t) == IF e.point = "sum" THEN SumSeq(t) ELSE RDiv(SumSeq(t), IF Len(t) = 0 THEN 1 ELSE Len(t))
Two(e, a, b) == IF e.single THEN a ELSE IF e.point = "max" THEN (IF a > b THEN a ELSE b) ELSE a + b
Per(e) == TLCEval([n \in 1..Len(e.x) |-> e.w[n] * Two(e, RedP(e, Terms(e, e.x[n], e.y[n])), IF e.single THEN 0 ELSE RedP(e, Terms(e, e.y[n], e.x[n])))])
PerN(e) == TLCEval([n \in 1..Len(e.x) |-> e.w[n] * Two(e, RedN(e, NTerms(e, e.x[n], e.y[n], e.xn[n], e.yn[n])), IF e.single THEN 0 ELSE RedN(e, NTerms(e, e.y[n], e.x[n], e.yn[n], e.xn[n])))])
Batch(e, p) == CASE e.batch = "none" -> p
                 [] e.batch = "sum" -> <<SumSeq(p)>>
                 [] OTHER -> LET W == IF e.hasw THEN SumSeq(e.w) ELSE Len(e.w) IN <<RDiv(SumSeq(p), IF W = 0 THEN 1 ELSE W)>>
VTol(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= tol + Abs(b[i]) \div 20000
(* per-point terms, padded with zeros *)
Raw(e, o, f) == Len(o) = Len(e.x) /\ \A n \in 1..Len(o) : \A i \in 1..Len(o[n]) : Abs(o[n][i] - (IF i <= Len(f[n]) THEN e.w[n] * f[n][i] ELSE 0)) <= 8
AllClear(e) == \A n \in 1..Len(e.x) : Clear(e, e.x[n], e.y[n]) /\ (e.single \/ Clear(e, e.y[n], e.x[n]))
ChamC(e) ==
    IF e.point = "none" THEN
        C("distance terms of every point of x", Raw(e, e.ox, [n \in 1..Len(e.x) |-> [i \in 1..Len(e.x[n]) |-> T * Terms(e, e.x[n], e.y[n])[i]]]))
        \cup C("distance terms of every point of y", e.single \/ Raw(e, e.oy, [n \in 1..Len(e.x) |-> [i \in 1..Len(e.y[n]) |-> T * Terms(e, e.y[n], e.x[n])[i]]]))
        \cup (IF ~e.hasn \/ ~AllClear(e) THEN {} ELSE
              C("normal terms of every point", Raw(e, e.nx, [n \in 1..Len(e.x) |-> NTerms(e, e.x[n], e.y[n], e.xn[n], e.yn[n])])
                /\ (e.single \/ Raw(e, e.ny, [n \in 1..Len(e.x) |-> NTerms(e, e.y[n], e.x[n], e.yn[n], e.xn[n])]))))
    ELSE C("chamfer distance", VTol(e.o, Batch(e, Per(e)), 3))
         \cup (IF ~e.hasn \/ ~AllClear(e) THEN {} ELSE C("chamfer distance of normals", VTol(e.on, Batch(e, PerN(e)), 40)))
         \cup C("no normal loss without normals", e.hasn = e.gotn)
(* gradient of the batch sum with point reduction sum or mean, norm 2, unique neighbours; units 1e-4 *)
Near1(e, a, ys) == CHOOSE j \in Nbr(e, a, ys) : TRUE
GradX(e, xs, ys, w, back) == LET cx == IF e.point = "mean" THEN RDiv(2 * T * w, IF Len(xs) = 0 THEN 1 ELSE Len(xs)) ELSE 2 * T * w
                                 cy == IF e.point = "mean" THEN RDiv(2 * T * w, IF Len(ys) = 0 THEN 1 ELSE Len(ys)) ELSE 2 * T * w
                                 nx == TLCEval([i \in 1..Len(xs) |-> Near1(e, xs[i], ys)])
                                 ny == TLCEval([j \in 1..Len(ys) |-> Near1(e, ys[j], xs)])
    IN [i \in 1..Len(xs) |-> [k \in 1..Len(xs[1]) |->
            (IF back = 2 THEN 0 ELSE cx * (xs[i][k] - ys[nx[i]][k])) +
            (IF back = 1 THEN 0 ELSE SumSeq([j \in 1..Len(ys) |-> IF ny[j] = i THEN cy * (xs[i][k] - ys[j][k]) ELSE 0]))]]
Fits(e, g, want, n) == \A i \in 1..Len(g) : \A k \in 1..Len(g[i]) : Abs(g[i][k] - (IF i <= n THEN want[i][k] ELSE 0)) <= 60
ChamGrad(e) == \A n \in 1..Len(e.x) : (Clear(e, e.x[n], e.y[n]) /\ Clear(e, e.y[n], e.x[n])) =>
    /\ Fits(e, e.gx[n], GradX(e, e.x[n], e.y[n], e.w[n], IF e.single THEN 1 ELSE 0), Len(e.x[n]))
    /\ Fits(e, e.gy[n], GradX(e, e.y[n], e.x[n], e.w[n], IF e.single THEN 2 ELSE 0), Len(e.y[n]))
(* ------------------------------ points and segments / triangles ------------------------------ *)
(* a foot: [d |-> squared distance * 1000, b |-> barycentric weights * 1000 per corner] *)
Foot2(p, a, b) == LET u == Sub(b, a) v == Sub(p, a) l == N2(u) t == Dot(u, v) IN
    IF l = 0 THEN [d |-> 1000 * N2(v), b |-> <<500, 500>>, deg |-> TRUE]
    ELSE IF t <= 0 THEN [d |-> 1000 * N2(v), b |-> <<1000, 0>>, deg |-> FALSE]
    ELSE IF t >= l THEN [d |-> 1000 * N2(Sub(p, b)), b |-> <<0, 1000>>, deg |-> FALSE]
    ELSE [d |-> RDiv(1000 * (N2(v) * l - t * t), l), b |-> <<1000 - RDiv(1000 * t, l), RDiv(1000 * t, l)>>, deg |-> FALSE]
Foot3(p, f, amin) ==   \* amin: triangles with |cross product|^2 <= amin count as their edges
    LET n == Cross(Sub(f[2], f[1]), Sub(f[3], f[1])) nn == N2(n)
        s1 == Dot(n, Cross(Sub(f[3], f[2]), Sub(p, f[2])))
        s2 == Dot(n, Cross(Sub(f[1], f[3]), Sub(p, f[3])))
        s3 == Dot(n, Cross(Sub(f[2], f[1]), Sub(p, f[1])))
        h == Dot(n, Sub(p, f[1]))
        e12 == Foot2(p, f[1], f[2]) e13 == Foot2(p, f[1], f[3]) e23 == Foot2(p, f[2], f[3])
        m == MinOf({e12.d, e13.d, e23.d})
    IN IF nn > amin /\ s1 >= 0 /\ s2 >= 0 /\ s3 >= 0
       THEN [d |-> IF Abs(h) > 1400 THEN 100 * RDiv(10 * h * h, nn) ELSE RDiv(1000 * h * h, nn),
             b |-> <<RDiv(1000 * s1, nn), RDiv(1000 * s2, nn), RDiv(1000 * s3, nn)>>, deg |-> FALSE]
       ELSE IF e12.d = m THEN [d |-> m, b |-> <<e12.b[1], e12.b[2], 0>>, deg |-> e12.deg]
       ELSE IF e13.d = m THEN [d |-> m, b |-> <<e13.b[1], 0, e13.b[2]>>, deg |-> e13.deg]
       ELSE [d |-> m, b |-> <<0, e23.b[1], e23.b[2]>>, deg |-> e23.deg]
Foot(e, p, h) == IF Len(h) = 2 THEN Foot2(p, h[1], h[2]) ELSE Foot3(p, h, e.amin)
Hull(e, n, h) == [c \in 1..Len(h) |-> e.v[n][h[c] + 1]]
(* table of feet of mesh n: point x hull; hulls e.h[n] are sequences of vertex indices *)
Table(e, n) == TLCEval([i \in 1..Len(e.p[n]) |-> [j \in 1..Len(e.h[n]) |-> Foot(e, e.p[n][i], Hull(e, n, e.h[n][j]))]])
Ok(n, e) == Len(e.p[n]) > 0 /\ Len(e.h[n]) > 0
(* contribution of the pair (point i, hull j) to the gradients: 2 (p - foot), * 1000 *)
Dir(e, tab, n, i, j) == LET x == Hull(e, n, e.h[n][j]) b == tab[n][i][j].b IN
    [k \in 1..3 |-> 2 * (1000 * e.p[n][i][k] - SumSeq([c \in 1..Len(x) |-> b[c] * x[c][k]]))]
(* the weights of a foot on the vertices of the mesh: feet of equal weights have equal gradients *)
Wts(e, tab, n, i, j) == [v \in 1..Len(e.v[n]) |-> SumSeq([c \in 1..Len(e.h[n][j]) |-> IF e.h[n][j][c] = v - 1 THEN tab[n][i][j].b[c] ELSE 0])]
NearW(a, b) == \A v \in 1..Len(a) : Abs(a[v] - b[v]) <= 2
GradP(e, r, n, i, k) == RDiv(RDiv(r.dP[n][i][k], Len(e.p[n])) + RDiv(SumSeq([j \in 1..Len(e.h[n]) |-> IF r.ix[n][j] = i THEN r.dH[n][j][k] ELSE 0]), Len(e.h[n])), Len(e.p))
GradV(e, r, n, v, k) == 0 - RDiv(RDiv(SumSeq([i \in 1..Len(e.p[n]) |-> RDiv(r.wP[n][i][v] * r.dP[n][i][k], 1000)]), Len(e.p[n]))
                                 + RDiv(SumSeq([j \in 1..Len(e.h[n]) |-> RDiv(r.wH[n][j][v] * r.dH[n][j][k], 1000)]), Len(e.h[n])), Len(e.p))
GradC(e, tab, bj, bi) ==
    LET clear == ~e.thin /\ \A n \in 1..Len(e.p) :
            /\ \A i \in 1..Len(e.p[n]) : LET m == CHOOSE j \in bj[n][i] : TRUE w == Wts(e, tab, n, i, m) IN
                  \A j \in bj[n][i] : ~tab[n][i][j].deg /\ NearW(Wts(e, tab, n, i, j), w)
            /\ \A j \in 1..Len(e.h[n]) : Cardinality(bi[n][j]) = 1 /\ \A i \in bi[n][j] : ~tab[n][i][j].deg
        P(n, i) == CHOOSE j \in bj[n][i] : TRUE
        H(n, j) == CHOOSE i \in bi[n][j] : TRUE
        rec == [dP |-> [n \in 1..Len(e.p) |-> [i \in 1..Len(e.p[n]) |-> Dir(e, tab, n, i, P(n, i))]],
                wP |-> [n \in 1..Len(e.p) |-> [i \in 1..Len(e.p[n]) |-> Wts(e, tab, n, i, P(n, i))]],
                ix |-> [n \in 1..Len(e.p) |-> [j \in 1..Len(e.h[n]) |-> H(n, j)]],
                dH |-> [n \in 1..Len(e.p) |-> [j \in 1..Len(e.h[n]) |-> Dir(e, tab, n, H(n, j), j)]],
                wH |-> [n \in 1..Len(e.p) |-> [j \in 1..Len(e.h[n]) |-> Wts(e, tab, n, H(n, j), j)]]]
    IN IF ~clear THEN {} ELSE UNION {
         C("gradient with respect to the points", \A n \in 1..Len(e.p) : \A i \in 1..Len(e.p[n]) : \A k \in 1..3 :
             LET g == GradP(e, r, n, i, k) IN Abs(e.gp[n][i][k] - g) <= 40 + Abs(g) \div 200)
         \cup C("gradient with respect to the vertices", \A n \in 1..Len(e.p) : \A v \in 1..Len(e.v[n]) : \A k \in 1..3 :
             LET g == GradV(e, r, n, v, k) IN Abs(e.gv[n][v][k] - g) <= 60 + Abs(g) \div 200) : r \in {TLCEval(rec)}}
DistT(e, tab, pd, hd) ==
    LET per(n) == RDiv(SumSeq(pd[n]), Len(e.p[n])) + RDiv(SumSeq(hd[n]), Len(e.h[n]))
        want == RDiv(SumSeq([n \in 1..Len(e.p) |-> per(n)]), Len(e.p))
    IN C("mean squared distance of the points to the mesh and of the mesh to the points", Abs(e.o - want) <= 4 + want \div 1000)
       \cup UNION {GradC(e, tab, b[1], b[2]) : b \in {TLCEval(<<[n \in 1..Len(e.p) |-> [i \in 1..Len(e.p[n]) |-> {j \in 1..Len(e.h[n]) : tab[n][i][j].d <= pd[n][i] + 2}]],
                                                              [n \in 1..Len(e.p) |-> [j \in 1..Len(e.h[n]) |-> {i \in 1..Len(e.p[n]) : tab[n][i][j].d <= hd[n][j] + 2}]]>>)}}
DistT2(e, tab) == UNION {DistT(e, tab, d[1], d[2]) : d \in {TLCEval(<<
    [n \in 1..Len(e.p) |-> [i \in 1..Len(e.p[n]) |-> MinOf({tab[n][i][j].d : j \in 1..Len(e.h[n])})]],
    [n \in 1..Len(e.p) |-> [j \in 1..Len(e.h[n]) |-> MinOf({tab[n][i][j].d : i \in 1..Len(e.p[n])})]]>>)}}
DistC(e) == UNION {DistT2(e, tab) : tab \in {TLCEval([n \in 1..Len(e.p) |-> Table(e, n)])}}
(* element-wise distances: every point (hull) against the hulls (points) of its own batch element *)
EachC(e) == C("distance of every element to the nearest element of its own mesh", \A n \in 1..Len(e.p) :
    IF e.topoint THEN \A j \in 1..Len(e.h[n]) : Len(e.p[n]) = 0 \/ LET m == MinOf({Foot(e, e.p[n][i], Hull(e, n, e.h[n][j])).d : i \in 1..Len(e.p[n])}) IN Abs(e.r[n][j] - m) <= 4 + m \div 1000
    ELSE \A i \in 1..Len(e.p[n]) : Len(e.h[n]) = 0 \/ LET m == MinOf({Foot(e, e.p[n][i], Hull(e, n, e.h[n][j])).d : j \in 1..Len(e.h[n])}) IN Abs(e.r[n][i] - m) <= 4 + m \div 1000)
Conf(s, e) ==
    CASE e.op = "cham" -> ChamC(e)
      [] e.op = "chamgrad" -> C("gradient of the chamfer distance", ChamGrad(e))
      [] e.op = "mesh" -> DistC(e)
      [] e.op = "each" -> EachC(e)
      [] e.op = "same" -> C(e.what, e.same)
      [] e.op = "rejects" -> C("invalid arguments raise: " \o e.what, e.rejected)
=============================================================================
