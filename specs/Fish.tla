-------------------------------- MODULE Fish --------------------------------
(* Fisheye cameras with radial, tangential and thin-prism distortion.  A camera batch is
     [n, R, T (rational, length 1 or n), prm (length n: f, c in thousandths; k, p, s in thousandths), world, ur, ut, us, sz].
   Image coordinates are evaluated in fixed point (1e-4). *)
EXTENDS Trig
S0(tr) == [objs |-> <<>>]
Put(s, o) == [s EXCEPT !.objs = Append(s.objs, o)]
Bc(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]
Exp(s, n) == [i \in 1..n |-> Bc(s, i)]
PyIdx(i, n) == IF i < 0 THEN i + n + 1 ELSE i + 1
(* camera space coordinates of an integer point: numerators over R.d * 2 (translations are halves) *)
ViewOf(c, i, x) == IF ~c.world THEN <<x[1], x[2], x[3]>> ELSE
    LET R == Bc(c.R, i) t == Bc(c.T, i) IN [j \in 1..3 |-> 2 * (x[1] * R.n[1][j] + x[2] * R.n[2][j] + x[3] * R.n[3][j]) + R.d * t[j]]
AB(v) == <<RDiv(T * v[1], IF v[3] = 0 THEN 1 ELSE v[3]), RDiv(T * v[2], IF v[3] = 0 THEN 1 ELSE v[3])>>
RECURSIVE Poly(_, _, _)
(* k1 t + k2 t^2 + ... (k in thousandths) *)
Poly(k, t, i) == IF i > Len(k) THEN 0 ELSE M2(t, 10 * k[i] + Poly(k, t, i + 1))
Rad(k, ab) == LET r == ISqrt(ab[1] * ab[1] + ab[2] * ab[2]) th == Atan(r)
                  g == T + Poly(k, M2(th, th), 1) IN
    IF r < 3 THEN <<M2(g, ab[1]), M2(g, ab[2])>> ELSE LET h == RDiv(T * th, r) IN TLCEval([j \in 1..2 |-> M2(M2(g, h), ab[j])])
Uv(c, i, ab) == LET p == c.prm[i] x == Rad(p.k, ab) n2 == M2(x[1], x[1]) + M2(x[2], x[2])
                   d == RDiv(2 * (x[1] * p.p[1] + x[2] * p.p[2]), 1000)
                   u0 == IF c.ur THEN x ELSE ab
                   tg == IF c.ut THEN <<M2(d, x[1]) + RDiv(n2 * p.p[1], 1000), M2(d, x[2]) + RDiv(n2 * p.p[2], 1000)>> ELSE <<0, 0>>
                   n4 == M2(n2, n2)
                   th == IF c.us THEN <<RDiv(p.s[1] * n2 + p.s[2] * n4, 1000), RDiv(p.s[3] * n2 + p.s[4] * n4, 1000)>> ELSE <<0, 0>>
               IN  TLCEval([j \in 1..2 |-> u0[j] + tg[j] + th[j]])
(* thousandths of a pixel *)
Pix(c, i, x) == LET u == Uv(c, i, AB(ViewOf(c, i, x))) p == c.prm[i] IN TLCEval([j \in 1..2 |-> p.c[j] + RDiv(u[j] * p.f, T)])
(* shapes: (P,3) -> (N,P,3) for N > 1; (1,P,3) -> (N,P,3); (M,P,3) -> (M,P,3) *)
OutN(c, e) == IF c.n = 1 THEN Len(e.p) ELSE c.n
Dims(c, e) == e.rdim = (IF e.dim2 /\ c.n = 1 THEN 2 ELSE 3) /\ Len(e.o) = OutN(c, e)
ProjOk(c, e) == Dims(c, e) /\ \A i \in 1..OutN(c, e) : LET pts == Bc(e.p, i) ci == IF c.n = 1 THEN 1 ELSE i IN
    Len(e.o[i]) = Len(pts) /\ \A j \in 1..Len(pts) : LET x == Pix(c, ci, pts[j]) tol == 3 + RDiv(c.prm[ci].f * 8, T) IN
        Close(e.o[i][j][1], x[1], tol) /\ Close(e.o[i][j][2], x[2], tol) /\ e.o[i][j][3] = 1000
(* the ray through the pixel of a projected point contains the point: X / Z, at depth 1 *)
UnprojOk(c, e) == Dims(c, e) /\ \A i \in 1..OutN(c, e) : LET pts == Bc(e.p, i) ci == IF c.n = 1 THEN 1 ELSE i IN
    Len(e.o[i]) = Len(pts) /\ \A j \in 1..Len(pts) : LET a == AB(ViewOf(c, ci, pts[j])) IN
        Close(e.o[i][j][1], RDiv(a[1], 10), 4) /\ Close(e.o[i][j][2], RDiv(a[2], 10), 4) /\ e.o[i][j][3] = 1000
Apply(s, e) ==
    CASE e.op = "new" -> Put(s, [e.cam EXCEPT !.prm = Exp(e.cam.prm, e.cam.n), !.R = Exp(e.cam.R, e.cam.n), !.T = Exp(e.cam.T, e.cam.n), !.sz = IF Len(e.cam.sz) = 0 THEN <<>> ELSE Exp(e.cam.sz, e.cam.n)])
      [] e.op = "getitem" -> LET c == s.objs[e.a] g(q) == IF Len(q) = 0 THEN q ELSE [k \in 1..Len(e.idx) |-> q[PyIdx(e.idx[k], c.n)]] IN
            Put(s, [c EXCEPT !.n = Len(e.idx), !.prm = g(c.prm), !.R = g(c.R), !.T = g(c.T), !.sz = g(c.sz)])
      [] e.op = "clone" -> Put(s, s.objs[e.a])
      [] e.op = "join" -> LET cs == [k \in 1..Len(e.as) |-> s.objs[e.as[k]]] f(G(_)) == Flat([k \in 1..Len(cs) |-> G(cs[k])]) IN
            Put(s, [cs[1] EXCEPT !.n = SumSeq([k \in 1..Len(cs) |-> cs[k].n]), !.prm = f(LAMBDA c : c.prm), !.R = f(LAMBDA c : c.R), !.T = f(LAMBDA c : c.T), !.sz = f(LAMBDA c : c.sz)])
      [] OTHER -> s
Conf(s, e) ==
    CASE e.op = "project" -> C("fisheye projection", ProjOk(s.objs[e.a], e))
      [] e.op = "unproject" -> C("fisheye unprojection inverts the projection", UnprojOk(s.objs[e.a], e))
      [] e.op = "obs" -> LET c == s.objs[e.a] IN C("fisheye batch size and fields", e.o.n = c.n /\ e.o.sz = c.sz /\ e.o.flags = <<c.world, c.ur, c.ut, c.us>>)
      [] e.op = "grad" -> C("gradients are finite and match finite differences", e.ok)
      [] e.op = "input" -> C("tensors given by the user are not modified", e.same)
      [] e.op = "rejects" -> C("invalid " \o e.what \o " is rejected", e.rejected)
      [] OTHER -> C("operation " \o e.op \o " succeeds", e.res = "ok")
=============================================================================
