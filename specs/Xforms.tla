------------------------------- MODULE Xforms -------------------------------
(* Transform3d objects: immutable batches of 4x4 matrices acting on row vectors from the right.
   An object is [m |-> sequence of rational matrices, dt |-> dtype]. *)
EXTENDS Rat

S0(tr) == [objs |-> <<>>]
PyIdx(i, n) == IF i < 0 THEN i + n + 1 ELSE i + 1
Put(s, o) == [s EXCEPT !.objs = Append(s.objs, o)]
O(s, e) == s.objs[e.a]
Bc(s, i, n) == IF Len(s) = 1 THEN s[1] ELSE s[i]
CompM(a, b) == LET n == Max2(Len(a), Len(b)) IN [i \in 1..n |-> Mul(Bc(a, i, n), Bc(b, i, n))]
RECURSIVE CompAll(_, _, _)
CompAll(s, m, as) == IF as = <<>> THEN m ELSE CompAll(s, CompM(m, s.objs[Head(as)].m), Tail(as))
Affine(rows, t, d) == Norm(<<rows[1] \o <<0>>, rows[2] \o <<0>>, rows[3] \o <<0>>, t \o <<d>> >>, d)
(* the primitive transforms; numbers are given in halves *)
Transl(v) == Affine(<< <<2,0,0>>, <<0,2,0>>, <<0,0,2>> >>, v, 2)
ScaleM(v) == Affine(<< <<v[1],0,0>>, <<0,v[2],0>>, <<0,0,v[3]>> >>, <<0,0,0>>, 2)
RotM(r) == Affine(r, <<0,0,0>>, 1)
C90(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
S90(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
(* counter-clockwise rotation of row vectors by k quarter turns *)
AxisM(ax, k) == LET c == C90(k) s == S90(k) IN
    RotM(CASE ax = "X" -> << <<1,0,0>>, <<0,c,s>>, <<0,-s,c>> >>
           [] ax = "Y" -> << <<c,0,-s>>, <<0,1,0>>, <<s,0,c>> >>
           [] OTHER -> << <<c,s,0>>, <<-s,c,0>>, <<0,0,1>> >>)
Prim(e) == CASE e.kind = "matrix" -> [i \in 1..Len(e.v) |-> Norm(e.v[i], 1)]
             [] e.kind = "translate" -> [i \in 1..Len(e.v) |-> Transl(e.v[i])]
             [] e.kind = "scale" -> [i \in 1..Len(e.v) |-> ScaleM(e.v[i])]
             [] e.kind = "rotate" -> [i \in 1..Len(e.v) |-> RotM(e.v[i])]
             [] e.kind = "axis" -> [i \in 1..Len(e.v) |-> AxisM(e.axis, e.v[i])]
             [] OTHER -> <<Eye(4)>>
Apply(s, e) ==
    CASE e.op = "new" -> Put(s, [m |-> Prim(e), dt |-> e.dt])
      [] e.op = "then" -> Put(s, [m |-> CompM(O(s, e).m, Prim(e)), dt |-> O(s, e).dt])
      [] e.op = "compose" -> Put(s, [m |-> CompAll(s, O(s, e).m, e.as), dt |-> O(s, e).dt])
      [] e.op = "inverse" -> Put(s, [m |-> [i \in 1..Len(O(s, e).m) |-> Inv(O(s, e).m[i])], dt |-> O(s, e).dt])
      [] e.op = "stack" -> Put(s, [m |-> O(s, e).m \o Flat([k \in 1..Len(e.as) |-> s.objs[e.as[k]].m]), dt |-> O(s, e).dt])
      [] e.op = "getitem" -> Put(s, [O(s, e) EXCEPT !.m = [k \in 1..Len(e.idx) |-> O(s, e).m[PyIdx(e.idx[k], Len(O(s, e).m))]]])
      [] e.op \in {"clone", "to"} -> Put(s, [O(s, e) EXCEPT !.dt = e.dt])
      [] OTHER -> s

Row4(p, w, m) == [j \in 1..4 |-> p[1] * m.n[1][j] + p[2] * m.n[2][j] + p[3] * m.n[3][j] + w * m.n[4][j]]
(* transformed point in thousandths; eps in eighths, 0 = none: |w| is raised to eps *)
Pt(p, m, eps) == LET r == Row4(p, 1, m) w == r[4] IN
    [j \in 1..3 |-> IF eps > 0 /\ 8 * Abs(w) < eps * m.d THEN RDiv((IF w < 0 THEN -8000 ELSE 8000) * r[j], eps * m.d) ELSE RDiv(1000 * r[j], w)]
Nrm(p, m) == LET i == MT(Inv(Block3(m))) IN [j \in 1..3 |-> RDiv(1000 * (p[1] * i.n[1][j] + p[2] * i.n[2][j] + p[3] * i.n[3][j]), i.d)]
PtsOk(r, o, e, F(_, _)) ==  \* e.p: batches of points, one batch for two-dimensional input
    LET n == Max2(Len(o.m), Len(e.p)) flat == e.dim2 /\ Len(o.m) = 1 IN
    /\ e.rdim = (IF flat THEN 2 ELSE 3)
    /\ Len(r) = n
    /\ \A i \in 1..n : Len(r[i]) = Len(Bc(e.p, i, n)) /\ \A j \in 1..Len(r[i]) :
            LET x == F(Bc(e.p, i, n)[j], Bc(o.m, i, n)) IN \A c \in 1..3 : Close(r[i][j][c], x[c], 2 + Abs(x[c]) \div 5000)
ObsConf(o, e) ==
    LET r == e.o ok(x) == C("transform: " \o e.acc, x) IN
    CASE e.acc = "matrix" -> ok(Len(r) = Len(o.m) /\ \A i \in 1..Len(r) : RatClose(r[i], o.m[i], 2))
      [] e.acc = "len" -> ok(r = Len(o.m))
      [] e.acc = "dtype" -> ok(r = o.dt)
      [] e.acc = "points" -> ok(PtsOk(r, o, e, LAMBDA p, m : Pt(p, m, e.eps)))
      [] e.acc = "normals" -> ok(PtsOk(r, o, e, Nrm))
      [] OTHER -> {"unknown accessor " \o e.acc}
Conf(s, e) ==
    CASE e.op = "obs" -> ObsConf(O(s, e), e)
      [] e.op = "input" -> C("tensors given by the user are not modified", e.same)
      [] e.op = "rejects" -> C("invalid " \o e.what \o " is rejected", e.rejected)
      [] OTHER -> C("operation " \o e.op \o " succeeds", e.res = "ok")
=============================================================================
