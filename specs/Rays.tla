-------------------------------- MODULE Rays --------------------------------
(* Ray sampling, ray marching, sampling of volumes along rays.  Fixed point, T = 10000.
   A camera: [persp, f2, p4, R, T]: focal length f2/2, principal point p4/4 (x,y), x_view = x_world R + T.
   Rays are rows: ids[r] camera of the ray (1-based), xy[r], org[r], dir[r] in T, len[r] in T. *)
EXTENDS Trig
S0(tr) == 0
Apply(s, e) == s
MaxZ(a, b) == IF a > b THEN a ELSE b
(* ------------------------------ geometry of one ray ------------------------------ *)
Unrot(R, v) == [i \in 1..3 |-> SumSeq([j \in 1..3 |-> v[j] * R[i][j]])]
Ray(c, xy) == LET a == [k \in 1..2 |-> RDiv(2 * (xy[k] - 2500 * c.p4[k]), c.f2)]
                  o == [k \in 1..3 |-> -T * c.T[k]] IN
    IF c.persp THEN [o |-> Unrot(c.R, o), d |-> Unrot(c.R, <<a[1], a[2], T>>)]
    ELSE [o |-> Unrot(c.R, <<a[1] + o[1], a[2] + o[2], o[3]>>), d |-> Unrot(c.R, <<0, 0, T>>)]
GeomOk(e) == \A r \in 1..Len(e.ids) : LET g == Ray(e.cams[e.ids[r]], e.xy[r]) IN
    /\ VClose(e.org[r], g.o, 15)
    /\ IF e.unit THEN VClose(e.dir[r], UnitT([k \in 1..3 |-> RDiv(g.d[k], 8)]), 20) ELSE VClose(e.dir[r], g.d, 15)
(* ------------------------------ depths along a ray: mn, mx in T ------------------------------ *)
Lin(a, b, k, n) == IF n = 1 THEN a ELSE a + RDiv((b - a) * (k - 1), n - 1)
LensOk(e) == \A r \in 1..Len(e.ids) :
    /\ Len(e.len[r]) = e.P
    /\ \A k \in 1..e.P : LET z(j) == Lin(e.mn, e.mx, j, e.P) x == e.len[r][k] IN
         IF ~e.strat THEN Close(x, z(k), 5)
         ELSE /\ x >= (IF k = 1 THEN z(1) ELSE (z(k - 1) + z(k)) \div 2) - 5
              /\ x <= (IF k = e.P THEN z(k) ELSE (z(k) + z(k + 1)) \div 2) + 5
(* ------------------------------ pixels ------------------------------ *)
(* centre of pixel <<row, column>> (0-based) *)
PixXY(e, p) == IF e.ndc THEN LET m == Min2(e.H, e.W) IN <<RDiv(T * (e.W - 2 * p[2] - 1), m), RDiv(T * (e.H - 2 * p[1] - 1), m)>>
               ELSE <<Lin(e.box[1], e.box[2], p[2] + 1, e.W), Lin(e.box[3], e.box[4], p[1] + 1, e.H)>>
FullOk(e) == \A r \in 1..Len(e.ids) : LET q == (r - 1) % (e.H * e.W) IN
    /\ e.ids[r] = (r - 1) \div (e.H * e.W) + 1
    /\ VClose(e.xy[r], PixXY(e, <<q \div e.W, q % e.W>>), 3)
(* the sampled pixels of every camera lie in its mask and are distinct when the mask has enough of them *)
MaskOk(e) == \A c \in 1..Len(e.cams) :
    LET rs == {r \in 1..Len(e.ids) : e.ids[r] = c}
        hit(r) == {k \in 1..Len(e.allow[c]) : VClose(e.xy[r], PixXY(e, e.allow[c][k]), 3)} IN
    /\ \A r \in rs : hit(r) # {}
    /\ (e.distinct /\ Cardinality(rs) <= Len(e.allow[c])) => Cardinality(UNION {hit(r) : r \in rs}) = Cardinality(rs)
    /\ e.cover => Cardinality(UNION {hit(r) : r \in rs}) = Len(e.allow[c])
BoxOk(e) == /\ \A r \in 1..Len(e.ids) : \A k \in 1..2 : LET a == e.box[2 * k - 1] b == e.box[2 * k] IN
                  e.xy[r][k] >= Min2(a, b) - 2 /\ e.xy[r][k] <= Max2(a, b) + 2
            /\ e.cover => \A k \in 1..2 : LET a == e.box[2 * k - 1] b == e.box[2 * k] IN          \* both halves are reached
                  \E r, t \in 1..Len(e.ids) : 2 * e.xy[r][k] < a + b /\ 2 * e.xy[t][k] > a + b
CountOk(e) == \A c \in 1..Len(e.cams) : Cardinality({r \in 1..Len(e.ids) : e.ids[r] = c}) = e.per
HetOk(e) == /\ Len(e.cid) = Len(e.cnt)
            /\ \A k \in 1..Len(e.cid) : e.cid[k] >= 0 /\ e.cid[k] < Len(e.cams) /\ e.cnt[k] >= 1
            /\ \A k \in 1..(Len(e.cid) - 1) : e.cid[k] < e.cid[k + 1]
            /\ SumSeq(e.cnt) = e.total /\ Len(e.ids) = e.total
(* ------------------------------ marching: densities in quarters, features integers ------------------------------ *)
PowQ(d, a, b) == FoldLeft(LAMBDA x, k : M2(x, T - 2500 * d[k]), T, [k \in 1..MaxZ(0, b - a + 1) |-> a + k - 1])
EA(d, f, sh) == LET n == Len(d) w == TLCEval([k \in 1..n |-> RDiv(d[k] * PowQ(d, 1, k - sh), 4)]) IN
    [c \in 1..Len(f[1]) |-> SumSeq([k \in 1..n |-> w[k] * f[k][c]])] \o <<T - PowQ(d, 1, n)>>
MarchOk(e) == \A r \in 1..Len(e.d) : VClose(e.o[r], IF e.ea THEN EA(e.d[r], e.f[r], e.sh) ELSE <<T - PowQ(e.d[r], 1, Len(e.d[r]))>>, 25)
PointsOk(e) == \A r \in 1..Len(e.p) : \A k \in 1..Len(e.l[r]) : e.o[r][k] = [i \in 1..3 |-> e.p[r][i] + e.l[r][k] * e.v[r][i]]
(* ------------------------------ volumes ------------------------------
   e.vol[n] = [d, f: C x D x H x W lists (densities in quarters, integer features), v (voxel size xyz, quarters), t (xyz, quarters)];
   local coordinates in eighths; positions inside the grid in sixteenths of a voxel *)
Sz(g, ax) == IF ax = 1 THEN Len(g[1][1][1]) ELSE IF ax = 2 THEN Len(g[1][1]) ELSE Len(g[1])
Idx16(al, s, l8) == IF al THEN (l8 + 8) * (s - 1) ELSE (l8 + 8) * s - 8
Tap(p16, s, k, mode) == \* weight of voxel k (0-based) along one axis
    LET q == IF mode = "border" THEN Clamp(p16, 0, 16 * (s - 1)) ELSE p16 IN MaxZ(0, 16 - Abs(q - 16 * k))
Near(p16, k) == IF 2 * Abs(p16 - 16 * k) < 16 THEN 16 ELSE 0
(* value * 4096 *)
Sample(g, al, l, mode, pad) ==
    LET p == TLCEval([ax \in 1..3 |-> Idx16(al, Sz(g, ax), l[ax])])
        w(ax, k) == IF mode = "nearest" THEN Near(IF pad = "border" THEN Clamp(p[ax], 0, 16 * (Sz(g, ax) - 1)) ELSE p[ax], k) ELSE Tap(p[ax], Sz(g, ax), k, pad)
        wt == TLCEval([ax \in 1..3 |-> [k \in 1..Sz(g, ax) |-> w(ax, k - 1)]])
        ks(ax) == {k \in 1..Sz(g, ax) : wt[ax][k] > 0} IN
    TLCEval([c \in 1..Len(g) |-> SumSeq([i \in 1..Sz(g, 3) |-> IF wt[3][i] = 0 THEN 0 ELSE wt[3][i] * SumSeq([j \in 1..Sz(g, 2) |-> IF wt[2][j] = 0 THEN 0 ELSE wt[2][j] *
                  SumSeq([k \in 1..Sz(g, 1) |-> wt[1][k] * g[c][i][j][k]])])])])
Tie(g, al, l) == \E ax \in 1..3 : Idx16(al, Sz(g, ax), l[ax]) % 16 = 8
VolOk(e) == \A n \in 1..Len(e.vol) : \A r \in 1..Len(e.m[n]) : \A k \in 1..Len(e.l[n][r]) :
    LET l == [ax \in 1..3 |-> e.m[n][r][ax] + e.l[n][r][k] * e.k[n][r][ax]] g == e.vol[n] IN
    (e.mode = "nearest" /\ Tie(g.d, e.al, l)) \/
    /\ e.od[n][r][k] = Sample(g.d, e.al, l, e.mode, e.pad)
    /\ e.of[n][r][k] = IF e.hasf THEN Sample(g.f, e.al, l, e.mode, e.pad) ELSE <<>>
(* rendering of volumes by orthographic cameras; world coordinates in quarters *)
RenderOk(e) == \A r \in 1..Len(e.ids) :
    LET c == e.cams[e.ids[r]] g == e.vol[e.ids[r]] q == (r - 1) % (e.H * e.W) m == Min2(e.H, e.W)
        x4 == (4 \div m) * (e.W - 2 * (q % e.W) - 1) y4 == (4 \div m) * (e.H - 2 * (q \div e.W) - 1)
        pt(z4) == Unrot(c.R, <<x4 - 4 * c.T[1], y4 - 4 * c.T[2], z4 - 4 * c.T[3]>>)
        \* local (eighths) = (world + t) / (v (s-1) / 16)
        l(z4) == LET w == pt(z4) IN [ax \in 1..3 |-> (16 * (w[ax] + g.t[ax])) \div (g.v[ax] * (Sz(g.d, ax) - 1))]
        zs == [k \in 1..e.P |-> e.z0 + (k - 1) * e.dz]
        d == TLCEval([k \in 1..e.P |-> RDiv(T * Sample(g.d, e.al, l(zs[k]), "bilinear", "zeros")[1], 16384)])      \* T
        f == TLCEval([k \in 1..e.P |-> LET s == Sample(g.f, e.al, l(zs[k]), "bilinear", "zeros") IN [i \in 1..Len(s) |-> RDiv(1000 * s[i], 4096)]])
        tr[k \in 0..e.P] == IF k = 0 THEN T ELSE M2(tr[k - 1], T - d[k])
        img == [i \in 1..Len(f[1]) |-> SumSeq([k \in 1..e.P |-> RDiv(M2(d[k], tr[k - 1]) * f[k][i], 1000)])] \o <<T - tr[e.P]>>
    IN  VClose(e.o[r], img, 60)
BundleOk(e) == /\ e.lens = [r \in 1..Len(e.bins) |-> [k \in 1..(Len(e.bins[r]) - 1) |-> e.bins[r][k] + e.bins[r][k + 1]]]      \* midpoints, doubled
(* base radius of the cone of a pixel: 2/sqrt(12) times half the sum of its sides (2/min(h,w) in NDC) at depth 1 *)
RadOk(e) == \A r \in 1..Len(e.ids) : LET w == RDiv(23094, e.mhw * e.cams[e.ids[r]].f2) IN Close(e.rad[r], w, 3 + w \div 500)
Conf(s, e) ==
    CASE e.op = "rays" -> C("ray bundle has the documented shape", e.shape) \cup
           (IF ~e.shape THEN {} ELSE
            C("rays pass through their image location", GeomOk(e)) \cup C("depths along the rays", LensOk(e))
            \cup C("sampled image locations", CASE e.grid = "full" -> FullOk(e) [] e.grid = "mask" -> MaskOk(e) [] OTHER -> BoxOk(e))
            \cup C("radii of pixel cones", ("rad" \in DOMAIN e) => RadOk(e))
            \cup C("number of rays of every camera", IF e.het THEN HetOk(e) ELSE CountOk(e)))
      [] e.op = "march" -> C("ray marching", MarchOk(e))
      [] e.op = "points" -> C("points along rays", PointsOk(e))
      [] e.op = "vol" -> C("volumes sampled along rays", VolOk(e))
      [] e.op = "render" -> C("rendered volumes", RenderOk(e))
      [] e.op = "bundle" -> C("lengths are the midpoints of the bins", BundleOk(e))
      [] e.op = "bounds" ->
          LET d(m) == ISqrt(N2([k \in 1..3 |-> 100 * (e.c[m][k] - e.s[k])]))
              has(n, m) == Close(e.lo[n], d(m) - 100 * e.ext, 3) /\ Close(e.hi[n], d(m) + 100 * e.ext, 3)
          IN C("depth range of the first camera", has(1, 1)) \cup C("depth range of some camera", \A n \in 1..Len(e.c) : has(n, n) \/ has(n, 1))
             \cup C("depth range of every camera", \A n \in 1..Len(e.c) : has(n, n))
      [] e.op = "same" -> C(e.what, e.same)
      [] e.op = "rejects" -> C("invalid " \o e.what \o " is rejected", e.rejected)
      [] OTHER -> C("operation " \o e.op \o " succeeds", e.res = "ok")
=============================================================================
