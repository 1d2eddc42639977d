-------------------------------- MODULE Regs --------------------------------
(* Mesh regularisers (edge length, Laplacian smoothing, normal consistency) and surface sampling.
   Vertices are integers, losses * 10^4. *)
EXTENDS Trig
S0(tr) == 0
Apply(s, e) == s
Sub(a, b) == [k \in 1..Len(a) |-> a[k] - b[k]]
Corners == <<<<1, 2>>, <<2, 3>>, <<3, 1>>>>
(* edges of a list of faces: sets of two vertices *)
EdgesOf(f) == {{f[i][c[1]], f[i][c[2]]} : i \in 1..Len(f), c \in {Corners[k] : k \in 1..3}}
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
V(e, n, i) == e.v[n][i + 1]
Ends(ed) == LET a == CHOOSE x \in ed : \A y \in ed : x <= y b == CHOOSE x \in ed : \A y \in ed : x >= y IN <<a, b>>
Len3(v) == LET n == N2(v) k == SK(n) IN RDiv(T * ISqrt(n * k * k), k)            \* length * 10^4 of an integer vector
MeanOver(e, f) == RDiv(SumSeq([n \in 1..Len(e.v) |-> f[n]]), Len(e.v))
(* (|edge| - target)^2 averaged over the edges of a mesh, then over the batch; target in tenths *)
EdgeSq(e, n, ed) == LET p == Ends(ed) l == RDiv(ISqrt(1000000 * N2(Sub(V(e, n, p[1]), V(e, n, p[2])))), 1) d == l - 100 * e.t IN RDiv(RDiv(d * d, 10), 10)
EdgeLoss(e) == MeanOver(e, TLCEval([n \in 1..Len(e.v) |-> LET E == EdgesOf(e.f[n]) IN IF E = {} THEN 0 ELSE RDiv(SumOver(E, [x \in E |-> EdgeSq(e, n, x)]), Cardinality(E))]))
(* d loss / d vertex, target 0: 2 (v - w) / (edges * meshes) *)
EdgeGrad(e) == \A n \in 1..Len(e.v) : LET E == EdgesOf(e.f[n]) IN \A i \in 1..Len(e.v[n]) : \A k \in 1..3 :
    LET s == SumOver(E, [x \in E |-> IF i - 1 \in x THEN LET j == CHOOSE y \in x : y # i - 1 IN V(e, n, i - 1)[k] - V(e, n, j)[k] ELSE 0])
    IN Abs(e.g[n][i][k] - (IF E = {} THEN 0 ELSE RDiv(2 * T * s, Cardinality(E) * Len(e.v)))) <= 3
(* uniform Laplacian: mean of the neighbours minus the vertex *)
UniTerm(e, n, i) == LET E == {x \in EdgesOf(e.f[n]) : i - 1 \in x}
                        nb == {CHOOSE y \in x : y # i - 1 : x \in E}
                        d == Cardinality(nb)
                        s == [k \in 1..3 |-> SumOver(nb, [j \in nb |-> V(e, n, j)[k]]) - (IF d = 0 THEN 1 ELSE d) * V(e, n, i - 1)[k]]
                    IN RDiv(Len3(s), IF d = 0 THEN 1 ELSE d)
Area2(e, n, f) == Len3(Cross(Sub(V(e, n, f[2]), V(e, n, f[1])), Sub(V(e, n, f[3]), V(e, n, f[1]))))   \* twice the area, 1e-4
(* cotangent * 1000 at p in p, q, r *)
Cot(e, n, p, q, r, a2) == RDiv(10000 * Dot(Sub(V(e, n, q), V(e, n, p)), Sub(V(e, n, r), V(e, n, p))), RDiv(a2, 1000))
CotW(e, n, i, j) == SumSeq([x \in 1..Len(e.f[n]) |-> LET f == e.f[n][x] a2 == Area2(e, n, f) IN
    SumSeq([c \in 1..3 |-> LET p == f[c] q == f[(c % 3) + 1] r == f[((c + 1) % 3) + 1] IN IF {q, r} = {i - 1, j - 1} THEN Cot(e, n, p, q, r, a2) ELSE 0])])
MaxC(v) == LET S == {Abs(v[k]) : k \in 1..3} IN CHOOSE x \in S : \A y \in S : x >= y
BigLen(v) == LET k == MaxC(v) \div 15000 + 1 IN k * LenT([c \in 1..3 |-> RDiv(v[c], k)])
CotRow(e, n, i) == TLCEval([j \in 1..Len(e.v[n]) |-> IF j = i THEN 0 ELSE CotW(e, n, i, j)])
(* cot: weighted mean of the neighbours minus the vertex (where the weights have a positive sum), cotcurv: scaled by the inverse area *)
CotTerm(e, n, i) == LET w == CotRow(e, n, i) W == SumSeq(w)
                        s == [k \in 1..3 |-> SumSeq([j \in 1..Len(w) |-> w[j] * (e.v[n][j][k] - (IF W > 0 THEN e.v[n][i][k] ELSE 0))])]
                    IN IF W > 0 THEN [v |-> BigLen(s), d |-> W, sure |-> TRUE]
                       ELSE [v |-> 0, d |-> 1, sure |-> FALSE]
AreaAt(e, n, i) == SumSeq([x \in 1..Len(e.f[n]) |-> IF \E c \in 1..3 : e.f[n][x][c] = i - 1 THEN Area2(e, n, e.f[n][x]) ELSE 0])
CurvTerm(e, n, i) == LET w == CotRow(e, n, i) W == SumSeq(w) a == AreaAt(e, n, i)
                         s == [k \in 1..3 |-> SumSeq([j \in 1..Len(w) |-> w[j] * (e.v[n][j][k] - e.v[n][i][k])])]
                     IN IF a = 0 THEN 0 ELSE RDiv(RDiv(BigLen(s), 10) * 500, RDiv(a, 100))      \* 0.25 |s| / (a / 2)
LapSure(e) == e.method = "uniform" \/ \A n \in 1..Len(e.v) : \A i \in 1..Len(e.v[n]) : LET w == CotRow(e, n, i) IN
    (e.method = "cotcurv" \/ SumSeq(w) > 250) /\ \A j \in 1..Len(w) : Abs(w[j]) <= 4000
LapTerm(e, n, i) == CASE e.method = "uniform" -> UniTerm(e, n, i)
                      [] e.method = "cot" -> LET t == CotTerm(e, n, i) IN RDiv(500 * t.v, RDiv(t.d, 2))
                      [] OTHER -> CurvTerm(e, n, i)
LapLoss(e) == MeanOver(e, TLCEval([n \in 1..Len(e.v) |-> IF Len(e.v[n]) = 0 THEN 0 ELSE RDiv(SumSeq([i \in 1..Len(e.v[n]) |-> LapTerm(e, n, i)]), Len(e.v[n]))]))
(* normal consistency: over all pairs of faces at a common edge *)
Opp(f, ed) == CHOOSE x \in {f[1], f[2], f[3]} : x \notin ed
Has(f, ed) == ed \subseteq {f[1], f[2], f[3]}
PairTerm(e, n, ed, a, b) == LET p == Ends(ed) u == Sub(V(e, n, p[2]), V(e, n, p[1]))
                                x == UnitT(Cross(u, Sub(V(e, n, Opp(e.f[n][a], ed)), V(e, n, p[1]))))
                                y == UnitT(Cross(u, Sub(V(e, n, Opp(e.f[n][b], ed)), V(e, n, p[1]))))
                            IN T + RDiv(Dot(x, y), T)
Pairs(e, n) == UNION {{<<ed, a, b>> : a \in {x \in 1..Len(e.f[n]) : Has(e.f[n][x], ed)}, b \in {x \in 1..Len(e.f[n]) : Has(e.f[n][x], ed)}} : ed \in EdgesOf(e.f[n])}
NCLoss(e) == MeanOver(e, TLCEval([n \in 1..Len(e.v) |-> LET Q == {q \in Pairs(e, n) : q[2] < q[3]} IN
    IF Q = {} THEN 0 ELSE RDiv(SumOver(Q, [q \in Q |-> PairTerm(e, n, q[1], q[2], q[3])]), Cardinality(Q))]))
(* ------------------------------ sampling ------------------------------ *)
(* samples * 1000 of a mesh with integer vertices: each lies on a face of positive area of its own mesh *)
OnFace(e, n, p, f) == LET a == V(e, n, f[1]) b == V(e, n, f[2]) c == V(e, n, f[3])
                          m == Cross(Sub(b, a), Sub(c, a)) nn == N2(m)
                          up(x) == [k \in 1..3 |-> p[k] - 1000 * x[k]]
                          h == Dot(m, up(a))
                          s1 == Dot(m, [k \in 1..3 |-> RDiv(Cross(Sub(c, b), up(b))[k], 100)])
                          s2 == Dot(m, [k \in 1..3 |-> RDiv(Cross(Sub(a, c), up(c))[k], 100)])
                          s3 == Dot(m, [k \in 1..3 |-> RDiv(Cross(Sub(b, a), up(a))[k], 100)])
                          tol == 20 + nn
                      IN nn > 0 /\ Abs(h) <= 4 * ISqrt(nn) + 4 /\ s1 >= -tol /\ s2 >= -tol /\ s3 >= -tol
FacesAt(e, n, p) == {i \in 1..Len(e.f[n]) : OnFace(e, n, p, e.f[n][i])}
Normal(e, n, i) == LET f == e.f[n][i] IN UnitT(Cross(Sub(V(e, n, f[2]), V(e, n, f[1])), Sub(V(e, n, f[3]), V(e, n, f[1]))))
Zero3 == <<0, 0, 0>>
(* texture: the affine image  a x + b  of the position (vertex features chosen that way); units 1000 *)
Tex(e, n, p) == [k \in 1..Len(e.ta) |-> Dot(e.ta[k], p) + 1000 * e.ofs[k] * n]
SampC(e) ==
    C("number of samples", Len(e.s) = Len(e.v) /\ \A n \in 1..Len(e.v) : Len(e.s[n]) = e.S)
    \cup C("samples lie on the surface of their own mesh, zeros for empty meshes", \A n \in 1..Len(e.v) : \A i \in 1..e.S :
            IF Len(e.f[n]) = 0 THEN e.s[n][i] = Zero3 ELSE FacesAt(e, n, e.s[n][i]) # {})
    \cup (IF ~e.hasn THEN {} ELSE C("the normal of a sample is the unit normal of its face", \A n \in 1..Len(e.v) : \A i \in 1..e.S :
            IF Len(e.f[n]) = 0 THEN e.n[n][i] = Zero3 ELSE \E j \in FacesAt(e, n, e.s[n][i]) : VClose(e.n[n][i], Normal(e, n, j), 8)))
    \cup (IF ~e.hast THEN {} ELSE C("the texture of a sample is that of the surface point", \A n \in 1..Len(e.v) : \A i \in 1..e.S :
            IF Len(e.f[n]) = 0 THEN \A k \in 1..Len(e.tx[n][i]) : e.tx[n][i][k] = 0 ELSE VClose(e.tx[n][i], Tex(e, n, e.s[n][i]), 16)))
    \cup (IF ~e.hasg THEN {} ELSE C("gradients distribute over the vertices of the faces", \A n \in 1..Len(e.v) : \A k \in 1..3 :
            Abs(SumSeq([i \in 1..Len(e.v[n]) |-> e.g[n][i][k]]) - (IF Len(e.f[n]) = 0 THEN 0 ELSE 1000 * e.S)) <= 20 * Len(e.v[n]) + 20))
(* counts of the samples per face, and per quarter of a face (the four triangles of its midpoints): 6 standard deviations *)
CountC(e) == LET A == SumSeq(e.area) IN
    C("faces are sampled in proportion to their area", SumSeq(e.cnt) = e.S /\ \A i \in 1..Len(e.area) :
        LET m == RDiv(e.S * e.area[i], A) d == e.cnt[i] - m IN IF e.area[i] = 0 THEN e.cnt[i] = 0 ELSE d * d <= 36 * m + 100)
    \cup C("samples are uniform within a face", \A k \in 1..4 : LET m == e.S \div 4 d == e.quart[k] - m IN d * d <= 36 * m + 100)
Num(a, w, tol) == Abs(a - w) <= tol + w \div 500
Conf(s, e) ==
    CASE e.op = "edge" -> C("mean squared deviation of the edge lengths", Num(e.o, EdgeLoss(e), 40)) \cup (IF e.hasg THEN C("gradient of the edge loss", EdgeGrad(e)) ELSE {})
      [] e.op = "lap" -> IF ~LapSure(e) THEN {} ELSE C("mean length of the Laplacian of the vertices", Num(e.o, LapLoss(e), IF e.method = "uniform" THEN 6 ELSE 60))
      [] e.op = "normal" -> C("mean deviation of the normals at shared edges", Num(e.o, NCLoss(e), 12))
      [] e.op = "sample" -> SampC(e)
      [] e.op = "count" -> CountC(e)
      [] e.op = "same" -> C(e.what, e.same)
      [] e.op = "rejects" -> C("invalid arguments raise: " \o e.what, e.rejected)
=============================================================================
