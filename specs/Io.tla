---------------------------------- MODULE Io ----------------------------------
(* The mesh and point cloud file formats as a store: every save replaces the content of a path by what the format can
   hold of the data, every load returns that content. Raw files of each format are decoded by the rules of the format.
   The registry of formats: the most recently registered interpreter which accepts a path handles it.
   Coordinates, colours, uv: * 1000. Texels: 0..255. *)
EXTENDS Trig
(* content of a path: [v, f, kind, col, uv, fuv, map, n, hasn] *)
Nil == [v |-> <<>>, f |-> <<>>, kind |-> "none", col |-> <<>>, uv |-> <<>>, fuv |-> <<>>, map |-> <<>>, hasn |-> FALSE, n |-> <<>>]
S0(tr) == [fs |-> <<>>, tol |-> <<>>, regs |-> <<>>]
NoTex(m) == [m EXCEPT !.kind = "none", !.col = <<>>, !.uv = <<>>, !.fuv = <<>>, !.map = <<>>]
NoNorm(m) == [m EXCEPT !.hasn = FALSE, !.n = <<>>]
Width(m) == IF Len(m.col) = 0 THEN 3 ELSE Len(m.col[1])
(* what the format keeps *)
Keep(e) == LET m == IF e.inc THEN e.m ELSE NoTex(e.m) IN
    CASE e.fmt = "obj" -> NoNorm(IF m.kind = "uv" /\ Len(m.v) + Len(m.f) > 0 THEN m ELSE NoTex(m))
      [] e.fmt = "off" -> NoNorm(IF m.kind \in {"vert", "atlas"} /\ Len(m.col) > 0 THEN m ELSE NoTex(m))
      [] e.fmt = "ply" -> IF m.kind = "vert" /\ Width(m) = 3 THEN m ELSE NoTex(m)
      [] e.fmt = "pcl" -> m
      [] e.fmt = "glb" -> NoNorm(IF m.kind \in {"vert", "uv"} THEN m ELSE NoTex(m))
Tol(e) == [c |-> (IF ~e.hasdec THEN 1 ELSE IF e.dec = 0 THEN 501 ELSE IF e.dec = 1 THEN 51 ELSE IF e.dec = 2 THEN 6 ELSE 1),
           g |-> (IF ~e.hasdec THEN 1 ELSE IF e.dec = 0 THEN 1000 ELSE IF e.dec = 1 THEN 100 ELSE IF e.dec = 2 THEN 10 ELSE 1),     \* lattice of written coordinates
           k |-> (IF e.u8 THEN 3 ELSE IF ~e.hasdec THEN 1 ELSE IF e.dec = 0 THEN 501 ELSE IF e.dec = 1 THEN 51 ELSE IF e.dec = 2 THEN 6 ELSE 1)]
(* binary files ignore the number of decimals *)
Apply(s, e) == CASE e.op = "save" /\ ~e.rejected -> [s EXCEPT !.fs = (e.path :> Keep(e)) @@ s.fs, !.tol = (e.path :> Tol(e)) @@ s.tol]
                 [] e.op = "register" -> [s EXCEPT !.regs = <<e.i>> \o s.regs]
                 [] OTHER -> s
SeqClose(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VClose(a[i], b[i], t)
(* corners of the faces as (position, uv): what a textured mesh is, up to sharing of vertices *)
CornersOf(m) == [i \in 1..Len(m.f) |-> [c \in 1..3 |-> m.v[m.f[i][c] + 1] \o m.uv[m.fuv[i][c] + 1]]]
SameTex(o, w, t) == o.kind = w.kind /\ (CASE w.kind = "none" -> TRUE
                                          [] w.kind \in {"vert", "atlas"} -> SeqClose(o.col, w.col, t.k)
                                          [] OTHER -> o.fuv = w.fuv /\ SeqClose(o.uv, w.uv, t.c) /\ o.map = w.map)
OnLat(x, g) == g = 1 \/ (LET r == x % g IN r <= 1 \/ r >= g - 1)
LoadC(o, w, e, t) ==
    IF e.fmt = "glb" /\ w.kind = "uv" /\ ~e.inc
    THEN C("loaded faces without texture", o.kind = "none" /\ Len(o.f) = Len(w.f) /\ \A i \in 1..Len(w.f) : \A c \in 1..3 : VClose(o.v[o.f[i][c] + 1], w.v[w.f[i][c] + 1], 1))
    ELSE IF e.fmt = "glb" /\ w.kind = "uv"
    THEN C("loaded textured faces", o.kind = "uv" /\ o.map = w.map /\ Len(o.f) = Len(w.f) /\ \A i \in 1..Len(w.f) : \A c \in 1..3 : VClose(CornersOf(o)[i][c], CornersOf(w)[i][c], 1))
    ELSE C("loaded vertices", SeqClose(o.v, w.v, t.c)) \cup C("loaded faces", o.f = w.f) \cup C("loaded texture", SameTex(o, IF e.inc THEN w ELSE NoTex(w), t))
         \cup C("coordinates written with the requested number of decimals", \A i \in 1..Len(o.v) : \A c \in 1..3 : OnLat(o.v[i][c], t.g))
         \cup C("loaded normals", (o.hasn <=> w.hasn) /\ SeqClose(o.n, w.n, t.c))
(* ------------------------------ decoding of raw files ------------------------------ *)
Fan(poly) == [i \in 1..(Len(poly) - 2) |-> <<poly[1], poly[i + 1], poly[i + 2]>>]
RECURSIVE FlatS(_)
FlatS(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatS(Tail(ss))
Fans(polys) == FlatS([i \in 1..Len(polys) |-> Fan(polys[i])])
CountOf(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : CountOf(a, a[i]) = CountOf(b, a[i])
(* OBJ: statements in order; indices from 1, negative ones from the values defined so far *)
Ref(i, n) == IF i > 0 THEN i - 1 ELSE n + i
RECURSIVE Obj(_, _)
Obj(st, acc) == IF st = <<>> THEN acc ELSE LET x == Head(st) IN Obj(Tail(st),
    CASE x.t = "v" -> [acc EXCEPT !.v = Append(@, x.x)]
      [] x.t = "vt" -> [acc EXCEPT !.vt = Append(@, x.x)]
      [] x.t = "vn" -> [acc EXCEPT !.vn = Append(@, x.x)]
      [] x.t = "usemtl" -> [acc EXCEPT !.mat = x.i]
      [] OTHER -> [acc EXCEPT !.f = @ \o Fan([k \in 1..Len(x.v) |-> Ref(x.v[k], Len(acc.v))]),
                              !.ft = @ \o Fan([k \in 1..Len(x.v) |-> IF x.ht THEN Ref(x.vt[k], Len(acc.vt)) ELSE 0 - 1]),
                              !.fn = @ \o Fan([k \in 1..Len(x.v) |-> IF x.hn THEN Ref(x.vn[k], Len(acc.vn)) ELSE 0 - 1]),
                              !.fm = @ \o [k \in 1..(Len(x.v) - 2) |-> acc.mat]])
ObjOf(st) == Obj(st, [v |-> <<>>, vt |-> <<>>, vn |-> <<>>, f |-> <<>>, ft |-> <<>>, fn |-> <<>>, fm |-> <<>>, mat |-> 0 - 1])
ObjC(e) == UNION {C("OBJ: vertices, normals and texture coordinates", e.v = w.v /\ e.vt = w.vt /\ e.vn = w.vn)
    \cup C("OBJ: vertex indices of the faces", e.f = w.f)
    \cup C("OBJ: texture indices of the faces", e.ft = w.ft)
    \cup C("OBJ: normal indices of the faces", e.fn = w.fn)
    \cup C("OBJ: material indices of the faces", \A i, j \in 1..Len(w.f) : Len(e.fm) = Len(w.f) /\ ((e.fm[i] = e.fm[j]) <=> (w.fm[i] = w.fm[j])) /\ ((e.fm[i] = 0 - 1) <=> (w.fm[i] = 0 - 1))) : w \in {TLCEval(ObjOf(e.st))}}
(* PLY: columns by name, colours of one byte scaled by 1/255; polygons as fans *)
ColOf(e, name) == CHOOSE i \in 1..Len(e.names) : e.names[i] = name
HasCols(e, ns) == \A k \in 1..Len(ns) : \E i \in 1..Len(e.names) : e.names[i] = ns[k]
Take(e, ns) == [r \in 1..Len(e.rows) |-> [k \in 1..Len(ns) |-> e.rows[r][ColOf(e, ns[k])]]]
XYZ == <<"x", "y", "z">>  RGB == <<"red", "green", "blue">>  NXYZ == <<"nx", "ny", "nz">>
OneByte(e) == \A k \in 1..3 : e.types[ColOf(e, RGB[k])] \in {"uchar", "char", "uint8", "int8"}
(* cells are thousandths *)
PlyC(e) ==
    C("PLY: vertices by the names of the columns", e.o.v = Take(e, XYZ))
    \cup C("PLY: faces", e.pcl \/ SameBag(e.o.f, Fans(e.polys)))
    \cup C("PLY: colours", IF HasCols(e, RGB) THEN e.o.kind = "vert" /\ SeqClose(e.o.col, LET t == Take(e, RGB) IN [r \in 1..Len(t) |-> [k \in 1..3 |-> IF OneByte(e) THEN RDiv(t[r][k], 255) ELSE t[r][k]]], 1) ELSE e.o.kind = "none")
    \cup C("PLY: normals", IF HasCols(e, NXYZ) /\ Len(e.rows) > 0 THEN e.o.hasn /\ e.o.n = Take(e, NXYZ) ELSE ~e.o.hasn)
(* OFF *)
OffC(e) == C("OFF: vertices", e.o.v = e.v)
    \cup C("OFF: faces with their colours", LET n(p) == Len(p) - 2
              w == FlatS([i \in 1..Len(e.polys) |-> [k \in 1..n(e.polys[i]) |-> <<Fan(e.polys[i])[k], IF e.fcol THEN e.fc[i] ELSE <<>>>>]])
              o == [i \in 1..Len(e.o.f) |-> <<e.o.f[i], IF e.fcol /\ ~e.vcol /\ i <= Len(e.o.col) THEN e.o.col[i] ELSE <<>>>>]
              w2 == IF e.vcol THEN [i \in 1..Len(w) |-> <<w[i][1], <<>>>>] ELSE w
          IN SameBag(o, w2))
    \cup C("OFF: kind of the colours", e.o.kind = (IF e.vcol THEN "vert" ELSE IF e.fcol THEN "atlas" ELSE "none") /\ (e.vcol => SeqClose(e.o.col, e.vc, 1)))
(* texture atlas of an OBJ: cell (y, x) of face f is the centroid of a small triangle, w0 and w1 in units 1 / (3 R) *)
W01(R, y, x) == IF x + y < R THEN <<3 * x + 1, 3 * y + 1>> ELSE <<3 * (R - 1 - x) + 2, 3 * (R - 1 - y) + 2>>
(* bilinear lookup with aligned corners; a / D in 0..1 is the position; rows from the bottom *)
Bil(img, D, a, ch) == LET H == Len(img) W == Len(img[1]) px == a[1] * (W - 1) py == a[2] * (H - 1)
                          x0 == px \div D y0 == py \div D fx == px % D fy == py % D
                          at(y, x) == IF x >= W \/ y >= H THEN 0 ELSE img[H - y][x + 1][ch]
                      IN RDiv((1000 * ((D - fx) * (D - fy) * at(y0, x0) + fx * (D - fy) * at(y0, x0 + 1) + (D - fx) * fy * at(y0 + 1, x0) + fx * fy * at(y0 + 1, x0 + 1))) \div 255, D * D)
Wrap(e, u) == CASE e.wrap = "repeat" -> (IF e.out THEN u % 8 ELSE u) [] e.wrap = "clamp" -> (IF u < 0 THEN 0 ELSE IF u > 8 THEN 8 ELSE u) [] OTHER -> u
AtlasAt(e, i, y, x, ch) == LET m == e.mat[i] w == W01(e.R, y, x) w2 == 3 * e.R - w[1] - w[2] IN
    IF m = 0 THEN 1000
    ELSE IF Len(e.maps[m]) = 0 THEN (IF Len(e.kd[m]) = 0 THEN 1000 ELSE e.kd[m][ch])
    ELSE Bil(e.maps[m], 24 * e.R, [c \in 1..2 |-> w[1] * Wrap(e, e.uv[i][1][c]) + w[2] * Wrap(e, e.uv[i][2][c]) + w2 * Wrap(e, e.uv[i][3][c])], ch)
AtlasC(e) == C("texture atlas of the faces", Len(e.o) = Len(e.mat) /\ \A i \in 1..Len(e.mat) : \A y, x \in 1..e.R : \A ch \in 1..3 : Abs(e.o[i][y][x][ch] - AtlasAt(e, i, y - 1, x - 1, ch)) <= 4)
(* glTF: nodes with matrices [4 x 4 acting on columns] or scale, rotation (quaternion x y z w, halves), translation *)
Quat(r) == QNum(r[4], r[1], r[2], r[3])      \* times |q|^2
Local(nd, p) == IF nd.ism THEN [i \in 1..3 |-> nd.m[i] * p[1] + nd.m[4 + i] * p[2] + nd.m[8 + i] * p[3] + nd.m[12 + i] * 1000]   \* column-major
                ELSE LET a == [i \in 1..3 |-> nd.s[i] * p[i]] M == Quat(nd.r) IN [i \in 1..3 |-> RDiv(Dot(M[i], a), N2(nd.r)) + 1000 * nd.t[i]]
RECURSIVE World(_, _, _)
World(e, k, p) == LET q == Local(e.nodes[k], p) IN IF e.nodes[k].parent = 0 THEN q ELSE World(e, e.nodes[k].parent, q)
RECURSIVE Reached(_, _)
Reached(e, k) == IF e.nodes[k].parent = 0 THEN e.nodes[k].root ELSE Reached(e, e.nodes[k].parent)
Scaled(ctype, x) == CASE ctype = "u8" -> RDiv(1000 * x, 255) [] ctype = "u16" -> RDiv(1000 * (x \div 4), 16384) [] OTHER -> x
Match(e, o, k, pr) == /\ o.name = e.nodes[k].mesh
                      /\ o.f = pr.f
                      /\ SeqClose(o.v, [i \in 1..Len(pr.v) |-> World(e, k, pr.v[i])], 2)
                      /\ IF ~e.inc \/ pr.kind = "none" THEN o.kind = "none"
                         ELSE IF pr.kind = "vert" THEN o.kind = "vert" /\ SeqClose(o.col, [i \in 1..Len(pr.a) |-> [c \in 1..Len(pr.a[i]) |-> Scaled(pr.ctype, pr.a[i][c])]], 2)
                         ELSE o.kind = "uv" /\ SeqClose(o.uv, [i \in 1..Len(pr.a) |-> <<Scaled(pr.ctype, pr.a[i][1]), 1000 - Scaled(pr.ctype, pr.a[i][2])>>], 2) /\ o.fuv = pr.f
GltfC(e) == LET K == {k \in 1..Len(e.nodes) : e.nodes[k].mesh # 0 /\ Reached(e, k)}
                P == UNION {{<<k, i>> : i \in 1..Len(e.meshes[e.nodes[k].mesh])} : k \in K}
            IN C("every primitive of the scene once", Len(e.o) = Cardinality(P))
               \cup C("primitives in world coordinates with their attributes", \A q \in P : \E j \in 1..Len(e.o) : Match(e, e.o[j], q[1], e.meshes[e.nodes[q[1]].mesh][q[2]]))
               \cup C("nothing else", \A j \in 1..Len(e.o) : \E q \in P : Match(e, e.o[j], q[1], e.meshes[e.nodes[q[1]].mesh][q[2]]))
(* ------------------------------ the registry ------------------------------ *)
(* an interpreter accepts the suffixes in acc; calls: those asked, in order; by: the one which answered, 0 if none *)
RECURSIVE Asked(_, _, _)
Asked(regs, sfx, rd) == IF regs = <<>> THEN <<>> ELSE LET r == Head(regs) ok == \E i \in 1..Len(IF rd THEN r.rd ELSE r.wr) : (IF rd THEN r.rd ELSE r.wr)[i] = sfx IN
    IF ok THEN <<r.id>> ELSE <<r.id>> \o Asked(Tail(regs), sfx, rd)
Taker(s, e) == {k \in 1..Len(s.regs) : \E i \in 1..Len(IF e.rd THEN s.regs[k].rd ELSE s.regs[k].wr) : (IF e.rd THEN s.regs[k].rd ELSE s.regs[k].wr)[i] = e.sfx}
RouteC(s, e) == C("interpreters asked from the latest on, until one accepts", e.calls = Asked(s.regs, e.sfx, e.rd))
    \cup C("the answer comes from that interpreter, without one an error", e.by = (IF Taker(s, e) = {} THEN 0 ELSE s.regs[CHOOSE k \in Taker(s, e) : \A j \in Taker(s, e) : k <= j].id))
Conf(s, e) ==
    CASE e.op = "save" -> C("saving", e.rejected = FALSE) \cup C("saving leaves the data as it was", e.same)
      [] e.op = "load" -> LET w == s.fs[e.path] IN LoadC(e.o, (IF e.inc \/ e.fmt = "glb" THEN w ELSE NoTex(w)), e, s.tol[e.path])
      [] e.op = "obj" -> ObjC(e)
      [] e.op = "ply" -> PlyC(e)
      [] e.op = "off" -> OffC(e)
      [] e.op = "atlas" -> AtlasC(e)
      [] e.op = "gltf" -> GltfC(e)
      [] e.op = "register" -> {}
      [] e.op = "route" -> RouteC(s, e)
      [] e.op = "broken" -> C("a damaged file is not loaded: " \o e.what, e.rejected)
      [] e.op = "same" -> C(e.what, e.same)
      [] e.op = "rejects" -> C("invalid arguments raise: " \o e.what, e.rejected)
=============================================================================
