------------------------------- MODULE Neigh -------------------------------
(* Neighbour queries on padded clouds: knn_points, knn_gather, ball_query, masked_gather and farthest point sampling.
   Coordinates are integers in half units, so squared distances are integers in quarter units. *)
EXTENDS Trig
S0(tr) == 0
Apply(s, e) == s
D2(a, b) == SumSeq([k \in 1..Len(a) |-> (a[k] - b[k]) * (a[k] - b[k])])
D1(a, b) == SumSeq([k \in 1..Len(a) |-> Abs(a[k] - b[k])])
Dist(norm, a, b) == IF norm = 1 THEN 2 * D1(a, b) ELSE D2(a, b)        \* quarter units in both cases
MinI(a, b) == IF a < b THEN a ELSE b
Zero(n) == [i \in 1..n |-> 0]
(* ------------------------------ k nearest neighbours ------------------------------ *)
KnnRow(e, n, i) ==
    LET l2 == e.l2[n]
        m == MinI(e.K, l2)
        d == TLCEval([j \in 1..l2 |-> Dist(e.norm, e.p1[n][i], e.p2[n][j])])
        ix == e.idx[n][i]
        dd == e.d[n][i]
    IN IF i > e.l1[n] THEN [pad |-> dd = Zero(e.K) /\ ix = Zero(e.K), val |-> TRUE, near |-> TRUE, sort |-> TRUE]
       ELSE LET okix == \A k \in 1..m : ix[k] \in 0..(l2 - 1) IN
            [pad |-> \A k \in (m + 1)..e.K : dd[k] = 0 /\ ix[k] = 0,
             val |-> okix /\ \A k \in 1..m : dd[k] = d[ix[k] + 1],
             near |-> okix /\ Cardinality({ix[k] : k \in 1..m}) = m
                      /\ \A j \in (1..l2) \ {ix[k] + 1 : k \in 1..m} : \A k \in 1..m : d[j] >= d[ix[k] + 1],
             sort |-> ~e.sorted \/ \A k \in 1..(m - 1) : dd[k] <= dd[k + 1]]
KnnOk(e, f) == \A n \in 1..e.N : \A i \in 1..e.P1 : KnnRow(e, n, i)[f]
NnOk(e) == \A n \in 1..e.N : \A i \in 1..e.l1[n] : \A k \in 1..e.K :
    e.nn[n][i][k] = IF k <= e.l2[n] THEN e.p2[n][e.idx[n][i][k] + 1] ELSE Zero(e.D)
(* gradient of SUM g*d with respect to both clouds, eighth... half units: d(quarter)/d(half) *)
Used(e, n, i) == IF i > e.l1[n] THEN {} ELSE {k \in 1..MinI(e.K, e.l2[n]) : e.idx[n][i][k] >= 0}
Slope(norm, a, b) == IF norm = 1 THEN (IF a > b THEN 1 ELSE -1) ELSE a - b        \* 2 * (difference in half units / 2)
RECURSIVE SumFn(_, _)
SumFn(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumFn(S \ {x}, f)
Grad1Ok(e) == \A n \in 1..e.N : \A i \in 1..e.P1 : \A c \in 1..e.D :
    LET U == Used(e, n, i)
        v == [k \in U |-> e.g[n][i][k] * Slope(e.norm, e.p1[n][i][c], e.p2[n][e.idx[n][i][k] + 1][c])]
    IN e.g1[n][i][c] = SumFn(U, v)
Grad2Ok(e) == \A n \in 1..e.N : \A j \in 1..e.P2 : \A c \in 1..e.D :
    LET U == UNION {{<<i, k>> : k \in {x \in Used(e, n, i) : e.idx[n][i][x] = j - 1}} : i \in 1..e.P1}
        v == [u \in U |-> e.g[n][u[1]][u[2]] * Slope(e.norm, e.p1[n][u[1]][c], e.p2[n][j][c])]
    IN e.g2[n][j][c] = 0 - SumFn(U, v)
(* ------------------------------ ball query ------------------------------ *)
BallHits(e, n, i) == IF i > e.l1[n] THEN <<>>
    ELSE SelectSeq([j \in 1..e.l2[n] |-> j], LAMBDA j : D2(e.p1[n][i], e.p2[n][j]) < e.r4)
BallOk(e, f) == \A n \in 1..e.N : \A i \in 1..e.P1 :
    LET h == TLCEval(BallHits(e, n, i)) IN \A k \in 1..e.K :
    CASE f = "idx" -> e.idx[n][i][k] = IF k <= Len(h) THEN h[k] - 1 ELSE -1
      [] f = "d" -> e.d[n][i][k] = IF k <= Len(h) THEN D2(e.p1[n][i], e.p2[n][h[k]]) ELSE 0
      [] f = "nn" -> e.nn[n][i][k] = IF k <= Len(h) THEN e.p2[n][h[k]] ELSE Zero(e.D)
(* ------------------------------ gathering ------------------------------ *)
GatherOk(e) == \A n \in 1..Len(e.idx) : \A i \in 1..Len(e.idx[n]) : \A k \in 1..Len(e.idx[n][i]) :
    e.o[n][i][k] = IF (e.knn /\ k > e.len[n]) \/ e.idx[n][i][k] = -1 THEN Zero(e.D) ELSE e.x[n][e.idx[n][i][k] + 1]
GatherGradOk(e) == \A n \in 1..Len(e.x) : \A j \in 1..Len(e.x[n]) : \A c \in 1..e.D :
    LET U == {u \in (1..Len(e.idx[n])) \X (1..e.K) : e.idx[n][u[1]][u[2]] = j - 1 /\ ~(e.knn /\ u[2] > e.len[n])}
        v == [u \in U |-> e.g[n][u[1]][u[2]][c]]
    IN e.gx[n][j][c] = SumFn(U, v)
(* ------------------------------ farthest point sampling ------------------------------ *)
Near(p, S, j) == IF j - 1 \in S THEN 0 ELSE LET m == CHOOSE i \in S : \A h \in S : D2(p[i + 1], p[j]) <= D2(p[h + 1], p[j]) IN D2(p[m + 1], p[j])
MaxK(e) == IF Len(e.k) = 0 THEN 0 ELSE CHOOSE x \in {e.k[n] : n \in 1..Len(e.k)} : \A n \in 1..Len(e.k) : e.k[n] <= x
FpsShape(e) == \A n \in 1..e.N : Len(e.idx[n]) = MaxK(e) /\
    LET m == MinI(e.k[n], e.len[n]) IN \A k \in 1..MaxK(e) : IF k <= m THEN e.idx[n][k] \in 0..(e.len[n] - 1) ELSE e.idx[n][k] = -1
FpsFirst(e) == \A n \in 1..e.N : (MinI(e.k[n], e.len[n]) > 0) => IF e.rand THEN e.idx[n][1] \in 0..(e.len[n] - 1) ELSE e.idx[n][1] = 0
FpsNext(e) == \A n \in 1..e.N : \A k \in 2..MinI(e.k[n], e.len[n]) :
    LET S == {e.idx[n][x] : x \in 1..(k - 1)}
        d == TLCEval([j \in 1..e.len[n] |-> Near(e.p[n], S, j)])
    IN \A j \in 1..e.len[n] : d[j] <= d[e.idx[n][k] + 1]
FpsPts(e) == \A n \in 1..e.N : \A k \in 1..MaxK(e) : e.o[n][k] = IF e.idx[n][k] = -1 THEN Zero(e.D) ELSE e.p[n][e.idx[n][k] + 1]
FpsGrad(e) == \A n \in 1..e.N : \A j \in 1..e.P : \A c \in 1..e.D :
    LET U == {k \in 1..MaxK(e) : e.idx[n][k] = j - 1} IN e.gp[n][j][c] = SumFn(U, [k \in U |-> e.g[n][k][c]])

Conf(s, e) ==
    CASE e.op = "knn" -> LET ok == KnnOk(e, "val") IN
             C("neighbour distances are those of the indices", ok) \cup C("padding is zero", KnnOk(e, "pad"))
             \cup C("the K nearest points are found", KnnOk(e, "near")) \cup C("neighbours are sorted", KnnOk(e, "sort"))
             \cup (IF ok /\ e.hasnn THEN C("returned neighbours", NnOk(e)) ELSE {})
             \cup (IF ok /\ e.hasg THEN C("gradient of the queries", Grad1Ok(e)) \cup C("gradient of the neighbours", Grad2Ok(e)) ELSE {})
      [] e.op = "ball" -> LET ok == BallOk(e, "idx") IN
             C("the first K points in the ball", ok) \cup C("ball distances", BallOk(e, "d"))
             \cup (IF e.hasnn THEN C("returned neighbours", BallOk(e, "nn")) ELSE {})
             \cup (IF ok /\ e.hasg THEN C("gradient of the queries", Grad1Ok(e)) \cup C("gradient of the neighbours", Grad2Ok(e)) ELSE {})
      [] e.op = "gather" -> C("gathered features", GatherOk(e)) \cup C("gradient of gathering", GatherGradOk(e))
      [] e.op = "fps" -> LET ok == FpsShape(e) IN
             C("as many samples as requested and available", ok) \cup
             (IF ok THEN C("start point", FpsFirst(e)) \cup C("every sample is farthest from the previous ones", FpsNext(e))
                         \cup C("sampled points", FpsPts(e)) \cup C("gradient of sampled points", FpsGrad(e)) ELSE {})
      [] e.op = "starts" -> C("every point can be the random start", {e.o[i] : i \in 1..Len(e.o)} = 0..(e.n - 1))
      [] e.op = "same" -> C(e.what, e.same)
      [] e.op = "rejects" -> C("invalid " \o e.what \o " is rejected", e.rejected)
      [] OTHER -> C("operation " \o e.op \o " succeeds", e.res = "ok")
=============================================================================
