------------------------------ MODULE Textures ------------------------------
(* What colour a face carries, whatever container operations its mesh went through.
   A batch is [m |-> meshes, kind, C, align, zeros, nearest]; a mesh is [nv, f |-> faces, t |-> texture] with
     vertex  t = one C-vector per vertex
     atlas   t = one R x R x C grid per face
     uv      t = one [uv |-> three <<u,v>> in 64ths, map |-> H x W x C] per face: joining meshes into a scene,
             cutting submeshes or padding maps moves texels around, but not what a face looks like. *)
EXTENDS Lists

NumV(o) == [i \in 1..Len(o.m) |-> o.m[i].nv]
NumF(o) == [i \in 1..Len(o.m) |-> Len(o.m[i].f)]
PyIdx(i, n) == IF i < 0 THEN i + n + 1 ELSE i + 1
Sel(o, idx) == [o EXCEPT !.m = [k \in 1..Len(idx) |-> o.m[PyIdx(idx[k], Len(o.m))]]]
SubM(o, m, ids) ==
    LET fs == [k \in 1..Len(ids) |-> m.f[ids[k] + 1]]
        used == SortedSeq(UNION {SeqToSet(fs[k]) : k \in 1..Len(fs)})
    IN  [nv |-> Len(used), f |-> [k \in 1..Len(fs) |-> [t \in 1..3 |-> Pos(used, fs[k][t]) - 1]],
         t |-> IF o.kind = "vertex" THEN [k \in 1..Len(used) |-> m.t[used[k] + 1]] ELSE [k \in 1..Len(ids) |-> m.t[ids[k] + 1]]]
Scene(o) == LET vf == First(NumV(o)) IN
    [o EXCEPT !.m = <<[nv |-> SumSeq(NumV(o)), f |-> Flat([i \in 1..Len(o.m) |-> [j \in 1..Len(o.m[i].f) |-> VAdd(o.m[i].f[j], Rep(3, vf[i]))]]),
                       t |-> Flat([i \in 1..Len(o.m) |-> o.m[i].t])]>>]
Joined(s, as) == [s.objs[as[1]] EXCEPT !.m = Flat([k \in 1..Len(as) |-> s.objs[as[k]].m])]
(* construction: uv textures are given as index lists into per-mesh uv tables *)
MkT(e, i) == CASE e.kind = "uv" -> [j \in 1..Len(e.f[i]) |-> [uv |-> [k \in 1..3 |-> e.vu[i][e.fu[i][j][k] + 1]],
                                     map |-> IF e.multi THEN e.maps[i][e.ids[i][j] + 1] ELSE e.maps[i]]]
               [] OTHER -> e.t[i]
Mk(e) == [m |-> [i \in 1..Len(e.f) |-> [nv |-> e.nv[i], f |-> e.f[i], t |-> MkT(e, i)]],
          kind |-> e.kind, C |-> e.C, align |-> e.align, zeros |-> e.zeros, nearest |-> e.nearest]

S0(tr) == [objs |-> <<>>]
Put(s, os) == [s EXCEPT !.objs = s.objs \o os]
O(s, e) == s.objs[e.a]
Apply(s, e) ==
    CASE e.op = "new" -> Put(s, <<Mk(e)>>)
      [] e.op \in {"clone", "detach", "to_copy", "update_padded", "offset_new", "scale_new", "resample"} -> Put(s, <<O(s, e)>>)
      [] e.op = "getitem" -> Put(s, <<Sel(O(s, e), e.idx)>>)
      [] e.op = "extend" -> Put(s, <<LET o == O(s, e) IN [o EXCEPT !.m = Flat([i \in 1..Len(o.m) |-> Rep(e.n, o.m[i])])]>>)
      [] e.op = "join_batch" -> Put(s, <<Joined(s, e.as)>>)
      [] e.op = "join_scene" -> Put(s, <<Scene(Joined(s, e.as))>>)
      [] e.op = "submeshes" -> Put(s, <<LET o == O(s, e) IN [o EXCEPT !.m = Flat([i \in 1..Len(o.m) |-> [k \in 1..Len(e.fidx[i]) |-> SubM(o, o.m[i], e.fidx[i][k])]])]>>)
      [] OTHER -> s

(* ---- sampling.  All results are 1000 times the exact value, rounded. ---- *)
Tex(m, y, x, c) == IF y < 0 \/ x < 0 \/ y >= Len(m) \/ x >= Len(m[1]) THEN 0 ELSE m[y + 1][x + 1][c]
(* position on an axis of n texels, in units of 1/(64 q), of coordinate a/(64 q) *)
AxisPos(o, a, q, n) == LET U == 64 * q
                           p == IF o.align THEN a * (n - 1) ELSE a * n - (U \div 2)
                       IN  IF o.zeros THEN p ELSE Clamp(p, 0, (n - 1) * U)
Bilinear(o, m, u, v, q, c) ==
    LET U == 64 * q
        x == AxisPos(o, u, q, Len(m[1])) y == AxisPos(o, U - v, q, Len(m))
        x0 == x \div U y0 == y \div U fx == x % U fy == y % U
        top == Tex(m, y0, x0, c) * (U - fx) + Tex(m, y0, x0 + 1, c) * fx
        bot == Tex(m, y0 + 1, x0, c) * (U - fx) + Tex(m, y0 + 1, x0 + 1, c) * fx
        near == Tex(m, (y + U \div 2) \div U, (x + U \div 2) \div U, c)
    IN  IF o.nearest THEN 1000 * near ELSE RDiv(125 * (top * (U - fy) + bot * fy), U * (U \div 8))
(* bary in 8ths *)
Sample(o, m, j, b) ==
    CASE o.kind = "vertex" -> [c \in 1..o.C |-> 125 * SumSeq([k \in 1..3 |-> b[k] * m.t[m.f[j][k] + 1][c]])]
      [] o.kind = "atlas" -> LET a == m.t[j] R == Len(a)
                                 wx == Min2((b[1] * R) \div 8, R - 1) wy == Min2((b[2] * R) \div 8, R - 1)
                                 below == (b[1] + b[2]) * R - 8 * (wx + wy) <= 8
                             IN  [c \in 1..o.C |-> 1000 * (IF below THEN a[wy + 1][wx + 1][c] ELSE a[R - wy][R - wx][c])]
      [] OTHER -> LET t == m.t[j]
                      u == SumSeq([k \in 1..3 |-> b[k] * t.uv[k][1]]) v == SumSeq([k \in 1..3 |-> b[k] * t.uv[k][2]])
                  IN  [c \in 1..o.C |-> Bilinear(o, t.map, u, v, 8, c)]
Unit8(k) == [t \in 1..3 |-> IF t = k THEN 8 ELSE 0]
(* corner colours: an atlas shows its corner cells *)
CornerC(o, m, j, k) ==
    CASE o.kind = "vertex" -> VScale(1000, m.t[m.f[j][k] + 1])
      [] o.kind = "atlas" -> LET a == m.t[j] R == Len(a) IN VScale(1000, CASE k = 1 -> a[1][R] [] k = 2 -> a[R][1] [] OTHER -> a[1][1])
      [] OTHER -> [c \in 1..o.C |-> Bilinear(o, m.t[j].map, m.t[j].uv[k][1], m.t[j].uv[k][2], 1, c)]
Corners(o) == Flat([i \in 1..Len(o.m) |-> [j \in 1..Len(o.m[i].f) |-> [k \in 1..3 |-> CornerC(o, o.m[i], j, k)]]])

ObsConf(o, e) ==
    LET r == e.o ok(x) == C("textures: " \o o.kind \o " " \o e.acc, x) IN
    CASE e.acc = "corners" -> LET x == Corners(o) IN ok(Len(r) = Len(x) /\ \A j \in 1..Len(r) : MClose(r[j], x[j], 3))
      [] e.acc = "sample" -> ok(\A i \in 1..Len(o.m) : \A p \in 1..Len(e.pix[i]) :
                LET g == e.pix[i][p] IN
                IF g.f < 0 THEN o.kind = "uv" \/ r[i][p] = Rep(o.C, 0)
                ELSE VClose(r[i][p], Sample(o, o.m[i], g.f + 1, g.b), 3))
      [] e.acc = "list" -> ok(r = [i \in 1..Len(o.m) |-> o.m[i].t])
      [] e.acc = "packed" -> ok(r = Flat([i \in 1..Len(o.m) |-> o.m[i].t]))
      [] e.acc = "padded" -> ok(Len(r) = Len(o.m) /\ \A i \in 1..Len(r) :
                /\ Len(r[i]) = MaxSeq(IF o.kind = "vertex" THEN NumV(o) ELSE NumF(o), 0)
                /\ SubSeq(r[i], 1, Len(o.m[i].t)) = o.m[i].t
                /\ \A j \in Len(o.m[i].t) + 1..Len(r[i]) : \A y \in 1..Len(r[i][j]) :
                     IF o.kind = "vertex" THEN r[i][j][y] = 0 ELSE \A x \in 1..Len(r[i][j][y]) : r[i][j][y][x] = Rep(o.C, 0))
      [] e.acc = "faces" -> ok(r = [i \in 1..Len(o.m) |-> o.m[i].f])
      [] OTHER -> {"unknown accessor " \o e.acc}
Conf(s, e) ==
    CASE e.op = "obs" -> ObsConf(O(s, e), e)
      [] e.op = "pack" ->   \* the rectangle layout used when maps are merged into one
            LET r == e.o n == Len(e.sizes)
                W(i) == IF r.loc[i].fl THEN e.sizes[i][2] ELSE e.sizes[i][1]
                H(i) == IF r.loc[i].fl THEN e.sizes[i][1] ELSE e.sizes[i][2]
                firstOf(i) == CHOOSE j \in 1..n : e.ids[j] = e.ids[i] /\ \A k \in 1..j - 1 : e.ids[k] # e.ids[i]
            IN  C("packing: inside the sheet", \A i \in 1..n : r.loc[i].x >= 0 /\ r.loc[i].y >= 0 /\ r.loc[i].x + W(i) <= r.total[1] /\ r.loc[i].y + H(i) <= r.total[2])
                \cup C("packing: no overlap", \A i, j \in 1..n : (e.ids[i] # e.ids[j]) =>
                        (r.loc[i].x + W(i) <= r.loc[j].x \/ r.loc[j].x + W(j) <= r.loc[i].x \/ r.loc[i].y + H(i) <= r.loc[j].y \/ r.loc[j].y + H(j) <= r.loc[i].y))
                \cup C("packing: equal maps share one place and exactly the first is marked", \A i \in 1..n :
                        r.loc[i].first = (firstOf(i) = i) /\ r.loc[i].x = r.loc[firstOf(i)].x /\ r.loc[i].y = r.loc[firstOf(i)].y /\ r.loc[i].fl = r.loc[firstOf(i)].fl)
      [] e.op = "input" -> C("texture tensors given by the user are not modified", e.same)
      [] e.op = "rejects" -> C("invalid " \o e.what \o " is rejected", e.rejected)
      [] OTHER -> C("operation " \o e.op \o " succeeds", e.res = "ok")
=============================================================================
