-------------------------------- MODULE Rast --------------------------------
(* Mesh rasterization.  Lengths in the image plane are integers in units of 1/(2m) NDC (m = the shorter image
   side), depths are integers in quarters.  "raw" faces are given in NDC; "cam" meshes in world coordinates with an
   integer camera.  A face and a pixel P yield integers t (proportional to the barycentric coordinates) and s = t1+t2+t3. *)
EXTENDS RastGeo
S0(tr) == 0
Apply(s, e) == s
(* vertices of a face: [q |-> image points or homogeneous points, z |-> depths in quarters] *)
Geo(e, n, f) ==
    LET vs == [i \in 1..3 |-> e.verts[n][f[i] + 1]] IN
    IF e.mode = "raw" THEN [hom |-> FALSE, q |-> TLCEval([i \in 1..3 |-> <<vs[i][1], vs[i][2]>>]), z |-> TLCEval([i \in 1..3 |-> vs[i][3]])]
    ELSE LET c == Bc(e.cams, n) w == TLCEval([i \in 1..3 |-> View(c, vs[i])]) m2 == 2 * MM(e) IN
         IF c.persp THEN [hom |-> TRUE, q |-> TLCEval([i \in 1..3 |-> <<c.f[1] * w[i][1] + c.p[1] * w[i][3], c.f[2] * w[i][2] + c.p[2] * w[i][3], w[i][3]>>]),
                          z |-> TLCEval([i \in 1..3 |-> 4 * w[i][3]])]
         ELSE [hom |-> FALSE, q |-> TLCEval([i \in 1..3 |-> <<m2 * (c.f[1] * w[i][1] + c.p[1]), m2 * (c.f[2] * w[i][2] + c.p[2])>>]),
               z |-> TLCEval([i \in 1..3 |-> 4 * w[i][3]])]
(* orientation of the visible part: positive = counter-clockwise on the screen (x to the left) *)
Orient(e, g) == IF g.hom THEN -Det3(g.q[1], g.q[2], g.q[3]) ELSE Edge(g.q[1], g.q[2], g.q[3]) * (IF e.pc THEN Sgn(g.z[1]) * Sgn(g.z[2]) * Sgn(g.z[3]) ELSE 1)
Behind(e, g, i) == e.zclip # <<>> /\ g.z[i] < e.zclip[1]
NBehind(e, g) == Cardinality({i \in 1..3 : Behind(e, g, i)})
Face(e, n, k) ==
    LET g == Geo(e, n, e.faces[n][k]) A == Orient(e, g) nb == NBehind(e, g)
        dropped == \/ A = 0 \/ (e.cull /\ A < 0) \/ nb = 3
                   \/ (e.zclip = <<>> /\ \E i \in 1..3 : g.z[i] <= 0)
        (* almost edge-on faces of perspective cameras are beyond float32 *)
        thin == g.hom /\ 2 * Abs(A) < Abs(g.q[1][3] * g.q[2][3] * g.q[3][3]) \div 25
    IN  [g |-> g, A |-> A, dropped |-> dropped, thin |-> thin, clipped |-> nb > 0,
         seam |-> IF nb = 1 THEN CHOOSE i \in 1..3 : Behind(e, g, i) ELSE 0]
Tv(e, f, P) == LET q == f.g.q z == f.g.z IN
    IF f.g.hom THEN LET R == <<P[1], P[2], 2 * MM(e)>> d == <<-Det3(R, q[2], q[3]), -Det3(R, q[3], q[1]), -Det3(R, q[1], q[2])>> IN
                    IF e.pc THEN d ELSE <<d[1] * q[1][3], d[2] * q[2][3], d[3] * q[3][3]>>
    ELSE LET d == <<Edge(P, q[2], q[3]), Edge(P, q[3], q[1]), Edge(P, q[1], q[2])>> IN
         IF e.pc THEN <<d[1] * z[2] * z[3], d[2] * z[1] * z[3], d[3] * z[1] * z[2]>> ELSE d
Dot2(a, b) == a[1] * b[1] + a[2] * b[2]
Sub2(a, b) == <<a[1] - b[1], a[2] - b[2]>>
(* squared distance of P to the segment ab, in 1e-4 of a squared unit *)
SegD(P, a, b) == LET d == Sub2(b, a) l == Dot2(d, d) t == Dot2(d, Sub2(P, a)) c == Edge(P, a, b) IN
    IF l = 0 \/ t <= 0 THEN 10000 * Dot2(Sub2(P, a), Sub2(P, a)) ELSE IF t >= l THEN 10000 * Dot2(Sub2(P, b), Sub2(P, b)) ELSE LDiv(c * c, l, 4)
(* squared distance of the pixel to the outline of the face in 1e-4 NDC^2 *)
Dist(e, f, P) == LET q == f.g.q m == MM(e) IN RDiv(MinI(SegD(P, q[1], q[2]), MinI(SegD(P, q[1], q[3]), SegD(P, q[2], q[3]))), 4 * m * m)
(* ---- one face at one pixel: [st |-> "no" / "yes" / "maybe" / "wild", inside, z (1e-4), b (1e-4), d] ---- *)
NoHit == [st |-> "no", inside |-> FALSE, z |-> 0, b |-> <<0, 0, 0>>, d |-> 0]
Clip0(sg, t) == TLCEval([i \in 1..3 |-> MaxI(0, sg * t[i])])
At(e, f, P) ==
    IF f.dropped THEN [NoHit EXCEPT !.st = IF f.A = 0 /\ e.blur > 0 /\ ~Pow2(MM(e)) THEN "wild" ELSE "no"] ELSE   \* area 0 is not exact in float32
    LET t == Tv(e, f, P) s == t[1] + t[2] + t[3] sg == Sgn(s)
        exact == e.mode = "raw" /\ Pow2(MM(e)) /\ ~f.clipped
        inside == s # 0 /\ \A i \in 1..3 : sg * t[i] > 0
        onedge == ~exact /\ s # 0 /\ (\A i \in 1..3 : sg * t[i] >= 0) /\ ~inside
        z == f.g.z
        zsum == t[1] * z[1] + t[2] * z[2] + t[3] * z[3]                                  \* depth = zsum / s
        blurry == e.blur > 0
    IN  IF inside THEN
            LET zz == RDiv(LDiv(zsum, s, 4), 4)
                vis == IF ~f.clipped THEN 1 ELSE Sgn(sg * zsum - e.zclip[1] * sg * s)
                p1 == f.seam p3 == ((p1 + 1) % 3) + 1
                onseam == p1 # 0 /\ Abs(t[p1] * (z[p1] - e.zclip[1]) + t[p3] * (z[p3] - e.zclip[1])) <= Abs(s) \div 500
            IN  IF vis < 0 THEN NoHit
                ELSE [st |-> IF vis = 0 \/ onseam \/ f.thin THEN "maybe" ELSE "yes", inside |-> TRUE, z |-> zz,
                      b |-> TLCEval([i \in 1..3 |-> LDiv(t[i], s, 4)]), d |-> IF f.clipped \/ f.g.hom THEN 0 ELSE Dist(e, f, P)]
        ELSE IF onedge \/ (f.thin /\ e.zclip = <<>>) THEN [NoHit EXCEPT !.st = "wild"]
        ELSE IF ~blurry THEN NoHit
        ELSE LET d == Dist(e, f, P) st == IF d < e.blur - 2 THEN "yes" ELSE IF d > e.blur + 2 THEN "no" ELSE "maybe" IN
             IF st = "no" THEN NoHit
             ELSE LET sA == Sgn(f.A) tc == Clip0(sA, t) sc == tc[1] + tc[2] + tc[3] IN
                  IF sA * s <= 0 \/ (\E i \in 1..3 : Abs(t[i]) > 50 * Abs(s)) THEN [NoHit EXCEPT !.st = "wild"]
                  ELSE IF e.clipb THEN [st |-> st, inside |-> FALSE, z |-> RDiv(LDiv(tc[1] * z[1] + tc[2] * z[2] + tc[3] * z[3], sc, 4), 4),
                                        b |-> TLCEval([i \in 1..3 |-> LDiv(tc[i], sc, 4)]), d |-> d]
                  ELSE LET zz == RDiv(LDiv(zsum, s, 4), 4) IN
                       IF zz < -3 THEN NoHit
                       ELSE [st |-> IF zz <= 3 THEN "wild" ELSE st, inside |-> FALSE, z |-> zz, b |-> TLCEval([i \in 1..3 |-> LDiv(t[i], s, 4)]), d |-> d]
(* ---- a pixel ---- *)
FirstFace(e, n) == SumSeq([k \in 1..(n - 1) |-> Len(e.faces[k])])
Tol(f) == IF f.clipped \/ f.g.hom THEN 15 ELSE 3
ValOk(e, f, h, l) ==
    LET tol == Tol(f) ztol == tol + Abs(h.z) \div 300 IN
    /\ Close(l[2], h.z, ztol)
    /\ \A i \in 1..3 : Close(l[2 + i], h.b[i], tol + Abs(h.b[i]) \div 300)
    /\ (h.inside => l[6] <= 0)
    /\ ((~f.clipped /\ ~f.g.hom) => Close(l[6], IF h.inside THEN -h.d ELSE h.d, 3 + h.d \div 300))
PixOk(e, n, fs, y, x) ==
    LET P == <<2 * (2 * (e.W - 1 - x) + 1 - e.W), 2 * (2 * (e.H - 1 - y) + 1 - e.H)>>
        hs == TLCEval([k \in 1..Len(fs) |-> At(e, fs[k], P)])
        L == e.o[n][y + 1][x + 1] base == FirstFace(e, n)
        cnt == Cardinality({k \in 1..Len(L) : L[k][1] >= 0})
        id(k) == L[k][1] - base + 1
        yes == {k \in 1..Len(fs) : hs[k].st = "yes"} may == {k \in 1..Len(fs) : hs[k].st # "no"}
        listed == {id(k) : k \in 1..cnt}
    IN  /\ Len(L) = e.K
        /\ \A k \in 1..Len(L) : IF k <= cnt THEN L[k][1] >= 0 ELSE L[k][1] = -1 /\ L[k][2] = -10000 /\ L[k][3] = -10000 /\ L[k][4] = -10000 /\ L[k][5] = -10000 /\ L[k][6] = -10000
        /\ listed \subseteq may /\ Cardinality(listed) = cnt
        /\ (cnt < e.K => yes \subseteq listed)
        /\ \A k \in 1..(cnt - 1) : L[k][2] <= L[k + 1][2]
        /\ \A k \in 1..cnt : hs[id(k)].st = "wild" \/ ValOk(e, fs[id(k)], hs[id(k)], L[k])
        /\ (cnt = e.K => \A j \in yes \ listed : hs[j].z >= L[cnt][2] - (Tol(fs[j]) + Abs(hs[j].z) \div 300))
BadPix(e) == UNION {LET fs == TLCEval([k \in 1..Len(e.faces[n]) |-> Face(e, n, k)]) IN
                    {p \in {n} \X (0..(e.H - 1)) \X (0..(e.W - 1)) : ~PixOk(e, n, fs, p[2], p[3])} : n \in 1..Len(e.verts)}
ShapeOk(e) == Len(e.o) = Len(e.verts) /\ \A n \in 1..Len(e.o) : Len(e.o[n]) = e.H /\ \A y \in 1..e.H : Len(e.o[n][y]) = e.W
GradOk(e) == \A i \in 1..Len(e.o) : e.o[i][3] = 0 \/ Close(e.o[i][1], e.o[i][2], 25 + Abs(e.o[i][2]) \div 30)
Conf(s, e) ==
    CASE e.op = "raster" -> C("rasterization output shapes", ShapeOk(e)) \cup (IF ShapeOk(e) THEN C("each pixel lists its nearest covering faces", BadPix(e) = {}) ELSE {})
      [] e.op = "grad" -> C("gradients match finite differences", GradOk(e))
      [] e.op = "same" -> C(e.what, e.same)
      [] e.op = "rejects" -> C("invalid " \o e.what \o " is rejected", e.rejected)
      [] OTHER -> C("operation " \o e.op \o " succeeds", e.res = "ok")
=============================================================================
