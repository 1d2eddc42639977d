------------------------------- MODULE Voxel -------------------------------
(* Voxel grids of implicitron: full, CP- and VM-factorized grids, interpolation with all padding
   modes, placement in the world, change of resolution, cropping, state dicts, and the implicit
   function with scaffold on top of them.  All values in units of 1e-4.
   A grid is [kind, ac, pad, mode, par (record of tensors), ext, tr] *)
EXTENDS Trig

(* ---- one axis ---- *)
PosAx(c, n, ac) == IF ac THEN RDiv((c + T) * (n - 1), 2) ELSE RDiv((c + T) * n - T, 2)
Refl(x, lo, span) == IF span = 0 THEN 0 ELSE LET y == Abs(x - lo) m == y % span IN IF (y \div span) % 2 = 0 THEN m + lo ELSE span - m + lo
Padded(x, n, g) ==
    CASE g.pad = "zeros" -> x
      [] g.pad = "border" -> Clamp(x, 0, T * (n - 1))
      [] OTHER -> Clamp(IF g.ac THEN Refl(x, 0, T * (n - 1)) ELSE Refl(x, -(T \div 2), T * n), 0, T * (n - 1))
(* list of <<index, weight>> *)
WAx(c, n, g) == LET x == Padded(PosAx(c, n, g.ac), n, g) i == x \div T f == x % T
                    all == IF g.mode = "nearest" THEN << <<IF f > T \div 2 THEN i + 2 ELSE i + 1, T>> >> ELSE << <<i + 1, T - f>>, <<i + 2, f>> >> IN
    SelectSeq(all, LAMBDA p : p[1] \in 1..n /\ p[2] # 0)
Undecided(c, n, g) == g.mode = "nearest" /\ (LET x == Padded(PosAx(c, n, g.ac), n, g) IN Abs((x % T) - T \div 2) < 30 \/ (g.pad = "zeros" /\ (Abs(x + T \div 2) < 30 \/ Abs(x - T * n + T \div 2) < 30)))

(* ---- interpolation ---- *)
LineAt(v, c, g) == LET w == WAx(c, Len(v), g) IN SumSeq([a \in 1..Len(w) |-> M2(w[a][2], v[w[a][1]])])
PlaneAt(m, c1, c2, g) == LET w == WAx(c1, Len(m), g) IN SumSeq([a \in 1..Len(w) |-> M2(w[a][2], LineAt(m[w[a][1]], c2, g))])
VolAt(u, c, g) == LET w == WAx(c[1], Len(u), g) IN SumSeq([a \in 1..Len(w) |-> M2(w[a][2], PlaneAt(u[w[a][1]], c[2], c[3], g))])
Comps(g, c) ==
    IF g.kind = "cp" THEN [k \in 1..Len(g.par.vx) |-> M2(M2(LineAt(g.par.vx[k], c[1], g), LineAt(g.par.vy[k], c[2], g)), LineAt(g.par.vz[k], c[3], g))]
    ELSE [k \in 1..Len(g.par.vz) |-> M2(PlaneAt(g.par.mxy[k], c[1], c[2], g), LineAt(g.par.vz[k], c[3], g))] \o
         [k \in 1..Len(g.par.vy) |-> M2(PlaneAt(g.par.mxz[k], c[1], c[3], g), LineAt(g.par.vy[k], c[2], g))] \o
         [k \in 1..Len(g.par.vx) |-> M2(PlaneAt(g.par.myz[k], c[2], c[3], g), LineAt(g.par.vx[k], c[1], g))]
At(g, c) ==
    IF g.kind = "full" THEN [f \in 1..Len(g.par.vol) |-> VolAt(g.par.vol[f], c, g)] ELSE
    LET x == TLCEval(Comps(g, c)) IN
    IF g.par.basis = << >> THEN <<SumSeq(x)>> ELSE [f \in 1..Len(g.par.basis[1]) |-> SumSeq([k \in 1..Len(x) |-> M2(x[k], g.par.basis[k][f])])]
ResOf(g) == IF g.kind = "full" THEN <<Len(g.par.vol[1]), Len(g.par.vol[1][1]), Len(g.par.vol[1][1][1])>> ELSE <<Len(g.par.vx[1]), Len(g.par.vy[1]), Len(g.par.vz[1])>>
(* world (thousandths) -> local; extents and translation in units of 1e-4 *)
LocC(d, ext) == IF Abs(d) < 100000 THEN RDiv(T * d, ext) ELSE RDiv(1000 * d, RDiv(ext, 10))
Loc(g, p) == [a \in 1..3 |-> LocC(20 * p[a] - 2 * g.tr[a], g.ext[a])]
Unsure(g, c) == LET r == ResOf(g) IN \E a \in 1..3 : Undecided(c[a], r[a], g)

(* ---- resampling ---- *)
WRes(i, nin, nout, ac) ==       \* i from 1
    LET x == IF ac THEN (IF nout = 1 THEN 0 ELSE RDiv(T * (i - 1) * (nin - 1), nout - 1)) ELSE Max2(0, RDiv(T * ((2 * i - 1) * nin - nout), 2 * nout))
        lo == Min2(x \div T, nin - 1) IN << <<lo + 1, T - (x - T * lo)>>, <<Min2(lo + 2, nin), x - T * lo>> >>
RLine(v, n, ac) == [i \in 1..n |-> LET w == WRes(i, Len(v), n, ac) IN M2(w[1][2], v[w[1][1]]) + M2(w[2][2], v[w[2][1]])]
RPlane(m, n1, n2, ac) == LET r == TLCEval([a \in 1..Len(m) |-> RLine(m[a], n2, ac)]) IN
    [i \in 1..n1 |-> LET w == WRes(i, Len(m), n1, ac) IN [j \in 1..n2 |-> M2(w[1][2], r[w[1][1]][j]) + M2(w[2][2], r[w[2][1]][j])]]
RVol(u, n, ac) == LET r == TLCEval([a \in 1..Len(u) |-> RPlane(u[a], n[2], n[3], ac)]) IN
    [i \in 1..n[1] |-> LET w == WRes(i, Len(u), n[1], ac) IN [j \in 1..n[2] |-> [k \in 1..n[3] |-> M2(w[1][2], r[w[1][1]][j][k]) + M2(w[2][2], r[w[2][1]][j][k])]]]
Resized(g, n, ac) ==
    LET p == g.par IN
    IF g.kind = "full" THEN [vol |-> [f \in 1..Len(p.vol) |-> RVol(p.vol[f], n, ac)]] ELSE
    LET l == [vx |-> Map(p.vx, LAMBDA v : RLine(v, n[1], ac)), vy |-> Map(p.vy, LAMBDA v : RLine(v, n[2], ac)), vz |-> Map(p.vz, LAMBDA v : RLine(v, n[3], ac)), basis |-> p.basis] IN
    IF g.kind = "cp" THEN l ELSE
    [vx |-> l.vx, vy |-> l.vy, vz |-> l.vz, basis |-> p.basis, mxy |-> Map(p.mxy, LAMBDA m : RPlane(m, n[1], n[2], ac)),
     mxz |-> Map(p.mxz, LAMBDA m : RPlane(m, n[1], n[3], ac)), myz |-> Map(p.myz, LAMBDA m : RPlane(m, n[2], n[3], ac))]
RECURSIVE NearD(_, _, _, _)
NearD(a, b, d, tol) == IF d = 1 THEN VClose(a, b, tol) ELSE Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearD(a[i], b[i], d - 1, tol)
SamePar(kind, a, b, tol) ==
    IF kind = "full" THEN NearD(a.vol, b.vol, 4, tol) ELSE
    /\ NearD(a.vx, b.vx, 2, tol) /\ NearD(a.vy, b.vy, 2, tol) /\ NearD(a.vz, b.vz, 2, tol) /\ NearD(a.basis, b.basis, 2, tol)
    /\ kind = "cp" \/ (NearD(a.mxy, b.mxy, 3, tol) /\ NearD(a.mxz, b.mxz, 3, tol) /\ NearD(a.myz, b.myz, 3, tol))

(* ---- cropping ---- *)
Cut(s, a, b) == SubSeq(s, a, b)
First3(g, c) == [a \in 1..3 |-> LET n == ResOf(g)[a] p == PosAx(Clamp(c[a], -T, T), n, g.ac) IN 1 + Max2(0, (p + 3) \div T)]
Last3(g, c) == [a \in 1..3 |-> LET n == ResOf(g)[a] p == PosAx(Clamp(c[a], -T, T), n, g.ac) IN 1 + Min2(n - 1, -((-(p - 3)) \div T))]
CutPar(g, f, l) ==
    LET p == g.par IN
    IF g.kind = "full" THEN [vol |-> [c \in 1..Len(p.vol) |-> Map(Cut(p.vol[c], f[1], l[1]), LAMBDA m : Map(Cut(m, f[2], l[2]), LAMBDA v : Cut(v, f[3], l[3])))]] ELSE
    LET q == [vx |-> Map(p.vx, LAMBDA v : Cut(v, f[1], l[1])), vy |-> Map(p.vy, LAMBDA v : Cut(v, f[2], l[2])), vz |-> Map(p.vz, LAMBDA v : Cut(v, f[3], l[3])), basis |-> p.basis]
        Pl(m, a, b) == Map(Cut(m, f[a], l[a]), LAMBDA v : Cut(v, f[b], l[b])) IN
    IF g.kind = "cp" THEN q ELSE
    [vx |-> q.vx, vy |-> q.vy, vz |-> q.vz, basis |-> p.basis, mxy |-> Map(p.mxy, LAMBDA m : Pl(m, 1, 2)), mxz |-> Map(p.mxz, LAMBDA m : Pl(m, 1, 3)), myz |-> Map(p.myz, LAMBDA m : Pl(m, 2, 3))]
(* region kept, as local coordinates (1e-4) *)
Region(g, f, l) == [a \in 1..3 |-> LET n == ResOf(g)[a] IN
    IF g.ac THEN (IF n = 1 THEN <<-T, T>> ELSE <<RDiv(2 * T * (f[a] - 1), n - 1) - T, RDiv(2 * T * (l[a] - 1), n - 1) - T>>)
    ELSE <<RDiv(2 * T * (f[a] - 1), n) - T, RDiv(2 * T * l[a], n) - T>>]
(* min and max in thousandths of the world *)
CropBad(g, h, min, max) ==
    LET f == First3(g, Loc(g, min)) l == Last3(g, Loc(g, max))
        cut == [g EXCEPT !.par = TLCEval(CutPar(g, f, l))]
        r == Region(g, f, l)
        W(a, c) == g.tr[a] + M2(c, g.ext[a] \div 2) IN
    C("cropped and resampled values", SamePar(g.kind, h.par, Resized(cut, ResOf(g), g.ac), 8)) \cup
    C("place of the cropped grid", \A a \in 1..3 : /\ Close(h.tr[a], RDiv(W(a, r[a][1]) + W(a, r[a][2]), 2), 6)
                                                   /\ Close(h.ext[a], W(a, r[a][2]) - W(a, r[a][1]), 8))

(* ---- shapes ---- *)
WantShapes(e) == LET r == e.res k == e.comp IN
    IF e.kind = "full" THEN [vol |-> <<e.nf>> \o r] ELSE
    IF e.kind = "cp" THEN [vx |-> <<k[1], r[1]>>, vy |-> <<k[1], r[2]>>, vz |-> <<k[1], r[3]>>, basis |-> IF e.hasb THEN <<k[1], e.nf>> ELSE << >>] ELSE
    [vz |-> <<k[1], r[3]>>, mxy |-> <<k[1], r[1], r[2]>>, vx |-> <<k[2], r[1]>>, myz |-> <<k[2], r[2], r[3]>>, vy |-> <<k[3], r[2]>>, mxz |-> <<k[3], r[1], r[3]>>,
     basis |-> IF e.hasb THEN <<SumSeq(k), e.nf>> ELSE << >>]
(* resolution table: list of <<epoch, res>>; the last change not after the epoch *)
ResAt(tab, ep) == LET m == MaxSeq([i \in 1..Len(tab) |-> IF tab[i][1] <= ep THEN tab[i][1] ELSE 0], 0) IN (CHOOSE i \in 1..Len(tab) : tab[i][1] = m)

(* ---- implicit function ---- *)
Vals(g, p) == At(g, Loc(g, p))
Dens(e, p) == LET x == Vals(e.dg, p)[1] y == e.scale * x + T * e.shift IN IF e.relu THEN Max2(0, y) ELSE y
ScaffoldPts(g) == LET n == ResOf(g) IN [i \in 1..n[1] |-> [j \in 1..n[2] |-> [k \in 1..n[3] |-> <<i, j, k>>]]]
GridC(g, a, i, n) == \* coordinate of voxel centre i on axis a, 1e-4 world
    IF g.ac THEN (IF n = 1 THEN g.tr[a] - g.ext[a] \div 2 ELSE g.tr[a] - g.ext[a] \div 2 + RDiv(g.ext[a] * (i - 1), n - 1))
    ELSE (IF n = 1 THEN g.tr[a] - g.ext[a] \div 2 ELSE g.tr[a] - g.ext[a] \div 2 + RDiv(g.ext[a] * (2 * i - 1), 2 * n))
Occ(sg, p) == At(sg, Loc(sg, p))[1] > 0
Dim(s) == Len(s)
PtsOf(e) == Flat([r \in 1..Len(e.org) |-> [q \in 1..Len(e.len[r]) |-> [a \in 1..3 |-> e.org[r][a] + e.len[r][q] * e.dir[r][a]]]])
RayOf(e, i) == LET n == Len(e.len[1]) IN 1 + (i - 1) \div n
DirOf(e, r) == LET d == e.dir[r] IN IF e.cam THEN LET R == e.R[e.camof[r]] IN [j \in 1..3 |-> SumSeq([k \in 1..3 |-> d[k] * R[k][j]])] ELSE d
ImplConf(e) ==
    LET P == TLCEval(PtsOf(e))
        keep(i) == ~(e.ready /\ e.filter) \/ Occ(e.sg, P[i])
        amb(i) == Unsure(e.dg, Loc(e.dg, P[i])) \/ Unsure(e.cg, Loc(e.cg, P[i])) IN
    C("densities", Len(e.d) = Len(P) /\ \A i \in 1..Len(P) : amb(i) \/ Close(e.d[i], IF keep(i) THEN Dens(e, P[i]) ELSE 0, 20 + 12 * Abs(e.scale))) \cup
    C("colors", Len(e.c) = Len(P) /\ \A i \in 1..Len(P) : amb(i) \/
        IF keep(i) THEN VClose(e.c[i], Vals(e.cg, P[i]) \o UnitT(DirOf(e, RayOf(e, i))), 20) ELSE \A q \in 1..Len(e.c[i]) : e.c[i][q] = 0)
ScaffConf(e) ==
    LET n == ResOf(e.sg)
        D == TLCEval([i \in 1..n[1] |-> [j \in 1..n[2] |-> [k \in 1..n[3] |->
              LET y == At(e.dg, [a \in 1..3 |-> LET g == e.dg x == GridC(e.sg, a, <<i, j, k>>[a], n[a]) IN LocC(2 * (x - g.tr[a]), g.ext[a])])[1] * e.scale + T * e.shift
              IN IF e.relu THEN Max2(0, y) ELSE y]]])
        h == e.pool \div 2
        Mx(i, j, k) == LET S == {D[a][b][c] : a \in Max2(1, i - h)..Min2(n[1], i + h), b \in Max2(1, j - h)..Min2(n[2], j + h), c \in Max2(1, k - h)..Min2(n[3], k + h)} IN CHOOSE m \in S : \A x \in S : x <= m
    IN  C("scaffold marks the occupied voxels", \A i \in 1..n[1] : \A j \in 1..n[2] : \A k \in 1..n[3] :
            LET m == Mx(i, j, k) IN Abs(m - e.thr) < 40 \/ e.after[1][i][j][k] = (IF m > e.thr THEN T ELSE 0)) \cup
        C("creating the scaffold is no parameter change", ~e.change)
(* box of the scaffold voxels which are not empty: indices *)
ImplCrop(e) ==
    LET n == ResOf(e.sg) u == e.sg.par.vol[1]
        S == {<<i, j, k>> \in (1..n[1]) \X (1..n[2]) \X (1..n[3]) : u[i][j][k] > 0}
        lo(a) == CHOOSE x \in 1..n[a] : (\E s \in S : s[a] = x) /\ \A s \in S : s[a] >= x
        hi(a) == CHOOSE x \in 1..n[a] : (\E s \in S : s[a] = x) /\ \A s \in S : s[a] <= x
        pt(q(_)) == [a \in 1..3 |-> RDiv(GridC(e.sg, a, q(a), n[a]), 10)] IN
    IF S = {} THEN C("nothing to crop", ~e.change /\ SamePar("full", e.dg.par, e.dh.par, 0) /\ e.dg.ext = e.dh.ext) ELSE
    C("cropping changes parameters", e.change) \cup
    (IF \E a \in 1..3 : lo(a) = hi(a) THEN {} ELSE CropBad(e.dg, e.dh, pt(lo), pt(hi)) \cup CropBad(e.cg, e.ch, pt(lo), pt(hi)))

S0(tr) == 0
Apply(s, e) == s
Conf(s, e) ==
    CASE e.op = "eval" -> C("interpolated values", \A q \in 1..Len(e.gs) : Len(e.out[q]) = Len(e.pts[q]) /\ \A i \in 1..Len(e.pts[q]) :
            LET g == e.gs[q] c == IF e.local THEN [a \in 1..3 |-> 10 * e.pts[q][i][a]] ELSE Loc(g, e.pts[q][i]) IN Unsure(g, c) \/ VClose(e.out[q][i], At(g, c), 60))
      [] e.op = "resize" ->
            LET i == ResAt(e.tab, e.epoch) due == \E k \in 1..Len(e.tab) : e.tab[k][1] = e.epoch IN
            C("change reported", e.change = (due /\ e.hold)) \cup
            C("resolution", e.resnow = e.tab[i][2]) \cup
            C("epochs of changes", e.epochs = [k \in 1..Len(e.tab) |-> e.tab[k][1]]) \cup
            C("resampled values", IF due THEN SamePar(e.g.kind, e.h.par, Resized(e.g, e.tab[i][2], e.g.ac), 8) ELSE SamePar(e.g.kind, e.h.par, e.g.par, 0)) \cup
            C("place unchanged", e.h.ext = e.g.ext /\ e.h.tr = e.g.tr) \cup C("parameters or buffers", e.isparam = e.hold)
      [] e.op = "mode" -> C("resampled by nearest voxels", LET n == e.n IN SamePar(e.g.kind, e.h.par,
            [vol |-> [f \in 1..Len(e.g.par.vol) |-> [i \in 1..n[1] |-> [j \in 1..n[2] |-> [k \in 1..n[3] |-> LET r == ResOf(e.g) IN
                e.g.par.vol[f][1 + ((i - 1) * r[1]) \div n[1]][1 + ((j - 1) * r[2]) \div n[2]][1 + ((k - 1) * r[3]) \div n[3]]]]]]], 0))
      [] e.op = "crop" -> CropBad(e.g, e.h, e.min, e.max) \cup C("parameters or buffers", e.isparam = e.hold)
      [] e.op = "gridpts" -> C("grid points", LET n == e.res IN NearD(e.pts, [i \in 1..n[1] |-> [j \in 1..n[2] |-> [k \in 1..n[3] |-> <<GridC(e.g, 1, i, n[1]), GridC(e.g, 2, j, n[2]), GridC(e.g, 3, k, n[3])>>]]], 4, 6))
      [] e.op = "reload" -> C("reloaded values", SamePar(e.g.kind, e.h.par, e.g.par, 0)) \cup C("reloaded place", e.h.ext = e.g.ext /\ e.h.tr = e.g.tr)
      [] e.op = "shapes" -> IF e.what # "ok" THEN C("refuses " \o e.what, e.rejected) ELSE C("shapes", e.shapes = WantShapes(e)) \cup C("output dimension", e.odim = e.nf)
      (* with 100 samples or more the bounds are six standard errors *)
      [] e.op = "init" -> C("initial values", IF e.std = 0 THEN e.lo = e.mean /\ e.hi = e.mean
                              ELSE e.n < 100 \/ (5 * Abs(e.avg - e.mean) < 3 * e.std + 5 /\ 2 * e.dev > e.std /\ 2 * e.dev < 3 * e.std))
      [] e.op = "impl" -> ImplConf(e)
      [] e.op = "scaffold" -> ScaffConf(e)
      [] OTHER -> ImplCrop(e)
=============================================================================
