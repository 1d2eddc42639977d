------------------------------ MODULE PointVol ------------------------------
(* Casting weighted points into voxel grids.  Locations are in 8ths of a voxel step, weights in 512ths. *)
EXTENDS Lists

S0(tr) == [none |-> 0]
Apply(s, e) == s

(* weight, along one axis, that a point at location l (8ths) gives voxel k *)
W1(e, l, k) == IF e.mode = "trilinear" THEN Max2(0, 8 - Abs(l - 8 * k)) ELSE IF Abs(l - 8 * k) < 4 THEN 8 ELSE 0
(* derivative of the weight with respect to the location (defined off the voxel centres) *)
D1(l, k) == IF Abs(l - 8 * k) >= 8 THEN 0 ELSE IF l < 8 * k THEN 1 ELSE -1
Wt(e, i, p, z, y, x) == IF e.valid[i][p] THEN LET l == e.loc[i][p] IN W1(e, l[1], x) * W1(e, l[2], y) * W1(e, l[3], z) ELSE 0
In(e, i, z, y, x) == z < e.sz[i][1] /\ y < e.sz[i][2] /\ x < e.sz[i][3]
(* total weight received by a voxel, and weighted feature sum (512ths) *)
Got(e, i, z, y, x) == IF In(e, i, z, y, x) THEN SumSeq([p \in 1..Len(e.loc[i]) |-> Wt(e, i, p, z, y, x)]) ELSE 0
GotF(e, i, c, z, y, x) == IF In(e, i, z, y, x) THEN SumSeq([p \in 1..Len(e.loc[i]) |-> Wt(e, i, p, z, y, x) * e.feat[i][p][c]]) ELSE 0
Dens(e, i, z, y, x) == 512 * e.d[i][1][z + 1][y + 1][x + 1] + Got(e, i, z, y, x)
Feat(e, i, c, z, y, x) == (IF e.hasf THEN 512 * e.f[i][c][z + 1][y + 1][x + 1] ELSE 0) + GotF(e, i, c, z, y, x)
(* result feature times 1000; e.mw = min_weight in 512ths (0 when negligible) *)
FeatOut(e, i, c, z, y, x) ==
    LET F == Feat(e, i, c, z, y, x) D == Dens(e, i, z, y, x) IN
    IF ~e.rescale THEN RDiv(1000 * F, 512)
    ELSE LET den == IF e.mode = "trilinear" THEN Max2(D, e.mw) ELSE Max2(D, 512) IN RDiv(1000 * F, den)
AllVox(r, P(_, _, _)) == \A z \in 1..Len(r) : \A y \in 1..Len(r[1]) : \A x \in 1..Len(r[1][1]) : P(z, y, x)

AddConf(e) ==
    LET n == Len(e.loc) r == e.o IN
    C("density = initial density + received weight",
       Len(r.d) = n /\ \A i \in 1..n : AllVox(r.d[i][1], LAMBDA z, y, x : Close(r.d[i][1][z][y][x], RDiv(1000 * Dens(e, i, z - 1, y - 1, x - 1), 512), 2)))
    \cup C("features are the weighted sums (averages when rescaled)",
       Len(r.f) = n /\ \A i \in 1..n : Len(r.f[i]) = e.C /\ \A c \in 1..e.C : AllVox(r.f[i][c], LAMBDA z, y, x :
             (e.mw = 0 /\ e.rescale /\ e.mode = "trilinear" /\ Dens(e, i, z - 1, y - 1, x - 1) = 0)
             \/ Close(r.f[i][c][z][y][x], FeatOut(e, i, c, z - 1, y - 1, x - 1), 2 + Abs(FeatOut(e, i, c, z - 1, y - 1, x - 1)) \div 20000)))
    \cup C("the given volumes and points are not modified", r.same)
    \cup C("sizes and placement of the volumes are kept", r.kept)
(* a scalar  sum gd*density + sum gf*feature  (rescale off) differentiated *)
GradConf(e) ==
    LET r == e.o
        Vox(i) == {v \in (0..e.sz[i][1] - 1) \X (0..e.sz[i][2] - 1) \X (0..e.sz[i][3] - 1) : TRUE}
        Sum(i, F(_, _, _)) == FoldSet(LAMBDA v, acc : acc + F(v[1], v[2], v[3]), 0, Vox(i))
        Src(i, p, z, y, x) == e.gd[i][1][z + 1][y + 1][x + 1] + SumSeq([c \in 1..e.C |-> e.feat[i][p][c] * e.gf[i][c][z + 1][y + 1][x + 1]])
        GF(i, p, c) == Sum(i, LAMBDA z, y, x : Wt(e, i, p, z, y, x) * e.gf[i][c][z + 1][y + 1][x + 1])
        (* d location / d local coordinate = (size - align)/2; all times 128 *)
        GP(i, p, ax) == IF ~e.valid[i][p] THEN 0 ELSE (e.sz[i][4 - ax] - (IF e.align THEN 1 ELSE 0)) * Sum(i, LAMBDA z, y, x :
                LET l == e.loc[i][p] IN Src(i, p, z, y, x) *
                (CASE ax = 1 -> D1(l[1], x) * W1(e, l[2], y) * W1(e, l[3], z)
                  [] ax = 2 -> W1(e, l[1], x) * D1(l[2], y) * W1(e, l[3], z)
                  [] OTHER -> W1(e, l[1], x) * W1(e, l[2], y) * D1(l[3], z)))
    IN  C("gradient of the point features", \A i \in 1..Len(e.loc) : \A p \in 1..Len(e.loc[i]) : \A c \in 1..e.C :
              Close(r.feat[i][p][c], RDiv(1000 * GF(i, p, c), 512), 3 + Abs(GF(i, p, c)) \div 10000))
        \cup C("gradient of the point locations", e.mode = "nearest" \/ \A i \in 1..Len(e.loc) : \A p \in 1..Len(e.loc[i]) : \A ax \in 1..3 :
              Close(r.pts[i][p][ax], RDiv(1000 * GP(i, p, ax), 128), 5 + Abs(GP(i, p, ax)) \div 2000))
        \cup C("gradient of the initial volumes", r.d = e.gd /\ (e.hasf => r.f = e.gf))
Conf(s, e) ==
    CASE e.op = "add" -> AddConf(e)
      [] e.op = "grad" -> GradConf(e)
      [] e.op = "rejects" -> C("invalid " \o e.what \o " is rejected", e.rejected)
      [] OTHER -> {"unknown event"}
=============================================================================
