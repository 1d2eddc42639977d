------------------------------ MODULE Volumes ------------------------------
(* A batch of volumetric grids.  An object is
     [d |-> padded densities (N x C x D x H x W), f |-> padded features, hasf, sz |-> <<depth,height,width>> per grid,
      align, vs |-> voxel size <<x,y,z>> per grid in quarters, t |-> translation <<x,y,z>> per grid]
   and never changes; every operation creates a new one. *)
EXTENDS Lists

PyIdx(i, n) == IF i < 0 THEN i + n + 1 ELSE i + 1
N(o) == Len(o.sz)
Pick(s, idx) == [k \in 1..Len(idx) |-> s[PyIdx(idx[k], Len(s))]]
(* list -> padded with zeros *)
Dim(x) == <<Len(x[1]), Len(x[1][1]), Len(x[1][1][1])>>
Res(xs) == [a \in 1..3 |-> MaxSeq([i \in 1..Len(xs) |-> Dim(xs[i])[a]], 0)]
Pad(x, r) == [c \in 1..Len(x) |-> [z \in 1..r[1] |-> [y \in 1..r[2] |-> [w \in 1..r[3] |->
               IF z <= Len(x[c]) /\ y <= Len(x[c][1]) /\ w <= Len(x[c][1][1]) THEN x[c][z][y][w] ELSE 0]]]]
Cut(x, s) == [c \in 1..Len(x) |-> [z \in 1..s[1] |-> [y \in 1..s[2] |-> [w \in 1..s[3] |-> x[c][z][y][w]]]]]
PadAll(xs) == LET r == Res(xs) IN [i \in 1..Len(xs) |-> Pad(xs[i], r)]
(* the accepted forms of a voxel size or a translation *)
Spread(form, x, n) == CASE form = "scalar" -> Rep(n, <<x[1], x[1], x[1]>>)
                        [] form = "vec" -> Rep(n, x)
                        [] form = "col" -> [i \in 1..n |-> <<x[i][1], x[i][1], x[i][1]>>]
                        [] OTHER -> x
Mk(e) == [d |-> PadAll(e.d), f |-> IF e.hasf THEN PadAll(e.f) ELSE <<>>, hasf |-> e.hasf,
          sz |-> [i \in 1..Len(e.d) |-> Dim(e.d[i])], align |-> e.align,
          vs |-> Spread(e.vsform, e.vs, Len(e.d)), t |-> Spread(e.tform, e.t, Len(e.d))]

S0(tr) == [objs |-> <<>>]
O(s, e) == s.objs[e.a]
Put(s, o) == [s EXCEPT !.objs = Append(s.objs, o)]
Apply(s, e) ==
    CASE e.op = "new" -> Put(s, Mk(e))
      [] e.op \in {"clone", "to_copy", "to"} -> Put(s, O(s, e))
      [] e.op = "getitem" -> LET o == O(s, e) IN Put(s, [o EXCEPT !.d = Pick(o.d, e.idx), !.f = IF o.hasf THEN Pick(o.f, e.idx) ELSE <<>>,
                                  !.sz = Pick(o.sz, e.idx), !.vs = Pick(o.vs, e.idx), !.t = Pick(o.t, e.idx)])
      [] e.op = "update_padded" -> Put(s, [O(s, e) EXCEPT !.d = e.d, !.f = e.f, !.hasf = e.hasf])
      [] OTHER -> s

(* coordinates, times 10000; axis 1,2,3 = x,y,z = width,height,depth *)
Sz(o, i, ax) == o.sz[i][4 - ax]
LocalAt(o, i, ax, k) == LET n == Sz(o, i, ax) IN
    IF o.align THEN IF n = 1 THEN -10000 ELSE RDiv(20000 * k, n - 1) - 10000
    ELSE RDiv(10000 * (2 * k + 1 - n), n)
(* x_world = x_local * (size - 1) * voxel_size / 2 - translation, times 1000 *)
WorldAt(o, i, ax, k) == LET n == Sz(o, i, ax) IN
    (IF o.align THEN 125 * (IF n = 1 THEN 0 ELSE 2 * k + 1 - n) * o.vs[i][ax]
     ELSE RDiv(125 * (2 * k + 1 - n) * (n - 1) * o.vs[i][ax], n)) - 1000 * o.t[i][ax]
GridOk(o, r, F(_, _, _), tol) ==
    /\ Len(r) = N(o)
    /\ \A i \in 1..N(o) : \A z \in 1..o.sz[i][1] : \A y \in 1..o.sz[i][2] : \A x \in 1..o.sz[i][3] :
         LET p == r[i][z][y][x] IN Close(p[1], F(i, 1, x - 1), tol) /\ Close(p[2], F(i, 2, y - 1), tol) /\ Close(p[3], F(i, 3, z - 1), tol)
ToWorld(o, i, p) == [ax \in 1..3 |-> RDiv(1000 * p[ax] * (Sz(o, i, ax) - 1) * o.vs[i][ax], 64) - 1000 * o.t[i][ax]]
ToLocal(o, i, p) == [ax \in 1..3 |-> RDiv(80000 * (p[ax] + o.t[i][ax]), o.vs[i][ax] * (Sz(o, i, ax) - 1))]
ObsConf(o, e) ==
    LET r == e.o ok(x) == C("volumes: " \o e.acc, x) IN
    CASE e.acc = "densities" -> ok(r = o.d)
      [] e.acc = "features" -> ok(r = (IF o.hasf THEN o.f ELSE <<>>) /\ e.none = ~o.hasf)
      [] e.acc = "densities_list" -> ok(r = [i \in 1..N(o) |-> Cut(o.d[i], o.sz[i])])
      [] e.acc = "features_list" -> ok(e.none = ~o.hasf /\ r = (IF o.hasf THEN [i \in 1..N(o) |-> Cut(o.f[i], o.sz[i])] ELSE <<>>))
      [] e.acc = "grid_sizes" -> ok(r = o.sz)
      [] e.acc = "len" -> ok(r = N(o))
      [] e.acc = "align" -> ok(r = o.align)
      [] e.acc = "grid_local" -> ok(GridOk(o, r, LAMBDA i, ax, k : LocalAt(o, i, ax, k), 2))
      [] e.acc = "grid_world" -> ok(GridOk(o, r, LAMBDA i, ax, k : WorldAt(o, i, ax, k), 3))
      [] e.acc = "to_world" -> ok(Len(r) = N(o) /\ \A i \in 1..N(o) : Len(r[i]) = Len(e.p[i]) /\ \A j \in 1..Len(r[i]) : VClose(r[i][j], ToWorld(o, i, e.p[i][j]), 3))
      [] e.acc = "to_local" -> ok(Len(r) = N(o) /\ \A i \in 1..N(o) : Len(r[i]) = Len(e.p[i]) /\ \A j \in 1..Len(r[i]) : VClose(r[i][j], ToLocal(o, i, e.p[i][j]), 8))
      [] e.acc = "samples" -> \* looking a grid up at its own coordinate grid returns it
            ok(\A i \in 1..N(o) : Cut(r[i], o.sz[i]) = Cut(o.d[i], o.sz[i]))
      [] OTHER -> {"unknown accessor " \o e.acc}
(* a locator built on its own *)
LocConf(e) == LET o == [sz |-> e.sz, align |-> e.align, vs |-> Spread(e.vsform, e.vs, Len(e.sz)), t |-> Spread(e.tform, e.t, Len(e.sz))] IN
    C("locator: local grid", GridOk(o, e.o.local, LAMBDA i, ax, k : LocalAt(o, i, ax, k), 2))
    \cup C("locator: world grid", GridOk(o, e.o.world, LAMBDA i, ax, k : WorldAt(o, i, ax, k), 3))
    \cup C("locator: sizes", e.o.sz = e.sz)
Conf(s, e) ==
    CASE e.op = "obs" -> ObsConf(O(s, e), e)
      [] e.op = "locator" -> LocConf(e)
      [] e.op = "input" -> C("tensors given by the user are not modified", e.same)
      [] e.op = "rejects" -> C("invalid " \o e.what \o " is rejected", e.rejected)
      [] OTHER -> C("operation " \o e.op \o " succeeds", e.res = "ok")
=============================================================================
