------------------------------- MODULE Boxes -------------------------------
(* Volume of the intersection of two convex hexahedra with integer corners: every face of one is clipped by the planes of the
   other (coordinates * 1000) and the volume follows from the divergence theorem. *)
EXTENDS Trig
S0(tr) == 0
Apply(s, e) == s
Faces6 == <<<<1, 2, 3, 4>>, <<4, 3, 7, 8>>, <<1, 2, 6, 5>>, <<1, 4, 8, 5>>, <<2, 3, 7, 6>>, <<5, 6, 7, 8>>>>
Sub3(a, b) == [k \in 1..3 |-> a[k] - b[k]]
Sum8(b) == [k \in 1..3 |-> SumSeq([i \in 1..8 |-> b[i][k]])]
(* outward faces: polygons of 4 corners, counter-clockwise seen from outside *)
Out(b) == LET c == Sum8(b) IN [j \in 1..6 |->
    LET f == [i \in 1..4 |-> b[Faces6[j][i]]]
        n == Cross(Sub3(f[2], f[1]), Sub3(f[3], f[1]))
    IN IF Dot(n, [k \in 1..3 |-> 8 * f[1][k] - c[k]]) > 0 THEN f ELSE <<f[4], f[3], f[2], f[1]>>]
Plane(f) == LET n == Cross(Sub3(f[2], f[1]), Sub3(f[3], f[1])) IN [n |-> n, p |-> f[1]]
Up(f) == [i \in 1..Len(f) |-> [k \in 1..3 |-> 1000 * f[i][k]]]
Side(pl, v) == Dot(pl.n, [k \in 1..3 |-> v[k] - 1000 * pl.p[k]])                 \* > 0 outside
Cut(a, b, sa, sb) == LET d == sa - sb k == 1 + (Abs(d) \div 100000)
                         x == RDiv(sa, k) y == RDiv(d, k)
                     IN [i \in 1..3 |-> a[i] + RDiv((b[i] - a[i]) * x, y)]
(* corners of earlier cuts are rounded: closer than that to the plane counts as on it *)
Near(pl) == Abs(pl.n[1]) + Abs(pl.n[2]) + Abs(pl.n[3])
Clip(poly, pl) == LET n == Len(poly)
                      s == TLCEval([i \in 1..n |-> LET d == Side(pl, poly[i]) IN IF Abs(d) <= Near(pl) THEN 0 ELSE d])
                      piece(i) == LET j == (i % n) + 1 IN
                          IF s[i] <= 0 THEN (IF s[j] > 0 /\ s[i] < 0 THEN <<poly[i], Cut(poly[i], poly[j], s[i], s[j])>> ELSE <<poly[i]>>)
                          ELSE IF s[j] < 0 THEN <<Cut(poly[i], poly[j], s[i], s[j])>> ELSE <<>>
                  IN IF n = 0 THEN <<>> ELSE TLCEval(FoldLeft(LAMBDA acc, i : acc \o piece(i), <<>>, [i \in 1..n |-> i]))
ClipAll(f, pls) == FoldLeft(LAMBDA acc, pl : Clip(acc, pl), Up(f), pls)
(* 6 * volume below the polygon, relative to o; coordinates * 250, cross products * 100 *)
Fan(poly, o) == LET v == TLCEval([i \in 1..Len(poly) |-> [k \in 1..3 |-> RDiv(poly[i][k] - o[k], 4)]])
                IN SumSeq([i \in 1..Len(poly) |-> IF i < 2 \/ i >= Len(poly) THEN 0 ELSE
                     LET c == Cross(v[i], v[i + 1]) IN RDiv(Dot(v[1], [k \in 1..3 |-> RDiv(c[k], 625)]), 25)])
Par(p, q) == Cross(p.n, q.n) = <<0, 0, 0>> /\ Dot(p.n, q.n) > 0 /\ Dot(p.n, Sub3(q.p, p.p)) = 0
(* 1000 * volume *)
Vol1(b) == LET o == Up(<<b[1]>>)[1] F == TLCEval(Out(b)) IN RDiv(SumSeq([j \in 1..6 |-> Fan(Up(F[j]), o)]), 6)
Inter(a, b) == LET A == TLCEval(Out(a)) B == TLCEval(Out(b))
                   P == TLCEval([j \in 1..6 |-> Plane(A[j])]) Q == TLCEval([j \in 1..6 |-> Plane(B[j])])
                   fa == TLCEval([j \in 1..6 |-> ClipAll(A[j], Q)])
                   fb == TLCEval([j \in 1..6 |-> IF \E i \in 1..6 : Par(P[i], Q[j]) THEN <<>> ELSE ClipAll(B[j], P)])
                   all == fa \o fb
                   in == {j \in 1..12 : Len(all[j]) > 0}
                   o == all[CHOOSE j \in in : TRUE][1]             \* a point of the intersection keeps the terms small
               IN IF in = {} THEN 0 ELSE RDiv(SumSeq([j \in 1..12 |-> Fan(all[j], o)]), 6)
(* nearly parallel but distinct planes are beyond the documented tolerance of the implementation *)
NearPar(a, b) == \E i, j \in 1..6 : LET p == Plane(Out(a)[i]) q == Plane(Out(b)[j]) d == Dot(p.n, q.n) c == N2(Cross(p.n, q.n))
                 IN c # 0 /\ c * 200 < d * d
Scale3(v, s) == RDiv(v, s * s * s)
VolOk(e) == \A n \in 1..Len(e.a) : \A m \in 1..Len(e.b) :
    LET v == Scale3(Inter(e.a[n], e.b[m]), e.s) IN NearPar(e.a[n], e.b[m]) \/ Abs(e.vol[n][m] - v) <= 12 + v \div 100
IouOk(e) == \A n \in 1..Len(e.a) : \A m \in 1..Len(e.b) :
    LET v == Scale3(Inter(e.a[n], e.b[m]), e.s)
        u == Scale3(Vol1(e.a[n]), e.s) + Scale3(Vol1(e.b[m]), e.s) - v
    IN NearPar(e.a[n], e.b[m]) \/ Abs(RDiv(e.iou[n][m] * RDiv(u, 10), 1000) - RDiv(v, 10)) <= 3 + v \div 500

Conf(s, e) ==
    CASE e.op = "iou" -> C("volume of the intersection", VolOk(e)) \cup C("intersection over union", IouOk(e))
      [] e.op = "same" -> C(e.what, e.same)
      [] e.op = "rejects" -> C("invalid " \o e.what \o " is rejected", e.rejected)
      [] OTHER -> C("operation " \o e.op \o " succeeds", e.res = "ok")
=============================================================================
