------------------------------- MODULE Topo -------------------------------
(* Operators on packed batches and mesh graphs: packed <-> padded, neighbour aggregation (gather_scatter, GraphConv),
   subdivision, Laplacian matrices and Taubin smoothing.  K = 1000 fixed point for irrational entries. *)
EXTENDS Trig
S0(tr) == 0
Apply(s, e) == s
Zero(n) == [i \in 1..n |-> 0]
RECURSIVE SumFn(_, _)
SumFn(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumFn(S \ {x}, f)
(* ------------------------------ packed <-> padded ------------------------------ *)
Cnt(e, n) == (IF n < Len(e.first) THEN e.first[n + 1] ELSE e.F) - e.first[n]
OwnerOf(e, f) == CHOOSE n \in 1..Len(e.first) : e.first[n] < f /\ f <= e.first[n] + Cnt(e, n)      \* f is 1-based
Pad(e, x) == [n \in 1..Len(e.first) |-> [i \in 1..e.max |-> IF i <= Cnt(e, n) THEN x[e.first[n] + i] ELSE Zero(e.D)]]
Unpad(e, x) == [f \in 1..e.F |-> LET n == OwnerOf(e, f) IN x[n][f - e.first[n]]]
(* ------------------------------ graphs ------------------------------ *)
(* sum over the neighbours: row a of an edge <<a, b>> receives b, and the converse unless directed *)
Agg(edges, dir, x, D) == [v \in 1..Len(x) |-> [c \in 1..D |->
    SumSeq([i \in 1..Len(edges) |-> (IF edges[i][1] = v - 1 THEN x[edges[i][2] + 1][c] ELSE 0)
                                  + (IF ~dir /\ edges[i][2] = v - 1 THEN x[edges[i][1] + 1][c] ELSE 0)])]]
AggT(edges, dir, x, D) == [v \in 1..Len(x) |-> [c \in 1..D |->
    SumSeq([i \in 1..Len(edges) |-> (IF edges[i][2] = v - 1 THEN x[edges[i][1] + 1][c] ELSE 0)
                                  + (IF ~dir /\ edges[i][1] = v - 1 THEN x[edges[i][2] + 1][c] ELSE 0)])]]
Lin(w, b, x) == [v \in 1..Len(x) |-> [c \in 1..Len(w) |-> b[c] + Dot(w[c], x[v])]]
Conv(e) == LET m == TLCEval(Agg(e.edges, e.dir, TLCEval(Lin(e.w1, e.b1, e.x)), Len(e.w0)))
               l == TLCEval(Lin(e.w0, e.b0, e.x))
           IN [v \in 1..Len(e.x) |-> [c \in 1..Len(e.w0) |-> l[v][c] + m[v][c]]]
ConvGrad(e) == LET h == TLCEval(AggT(e.edges, e.dir, e.g, Len(e.w0)))
               IN [v \in 1..Len(e.x) |-> [c \in 1..e.D |-> SumSeq([o \in 1..Len(e.w0) |-> e.w0[o][c] * e.g[v][o] + e.w1[o][c] * h[v][o]])]]
(* ------------------------------ subdivision ------------------------------ *)
EdgeNo(ed, a, b) == CHOOSE k \in 1..Len(ed) : {ed[k][1], ed[k][2]} = {a, b}
Rot3(f) == LET m == Min2(f[1], Min2(f[2], f[3])) IN
    IF f[1] = m THEN f ELSE IF f[2] = m THEN <<f[2], f[3], f[1]>> ELSE <<f[3], f[1], f[2]>>
Sub4(nv, ed, f) == LET ab == nv + EdgeNo(ed, f[1], f[2]) - 1 bc == nv + EdgeNo(ed, f[2], f[3]) - 1 ca == nv + EdgeNo(ed, f[3], f[1]) - 1
                   IN <<<<f[1], ab, ca>>, <<f[2], bc, ab>>, <<f[3], ca, bc>>, <<ab, bc, ca>>>>
Bag(fs) == LET S == {Rot3(fs[i]) : i \in 1..Len(fs)} IN [f \in S |-> Cardinality({i \in 1..Len(fs) : Rot3(fs[i]) = f})]
SubFaces(nv, ed, fs) == [i \in 1..(4 * Len(fs)) |-> Sub4(nv, ed, fs[((i - 1) \div 4) + 1])[((i - 1) % 4) + 1]]
(* rows of twice the value: originals, then edge midpoints *)
SubRows(ed, x) == [i \in 1..(Len(x) + Len(ed)) |->
    IF i <= Len(x) THEN [c \in 1..Len(x[i]) |-> 2 * x[i][c]] ELSE LET p == ed[i - Len(x)] IN [c \in 1..Len(x[1]) |-> x[p[1] + 1][c] + x[p[2] + 1][c]]]
EdgesOk(e, n) == {{e.ed[n][k][1], e.ed[n][k][2]} : k \in 1..Len(e.ed[n])}
    = UNION {{{f[1], f[2]}, {f[2], f[3]}, {f[3], f[1]}} : f \in {e.f[n][i] : i \in 1..Len(e.f[n])}}
(* ------------------------------ Laplacians ------------------------------ *)
Deg(e, v) == SumSeq([i \in 1..Len(e.edges) |-> IF v - 1 \in {e.edges[i][1], e.edges[i][2]} THEN 1 ELSE 0])
Adj(e, a, b) == \E i \in 1..Len(e.edges) : {e.edges[i][1], e.edges[i][2]} = {a - 1, b - 1}
LapOk(e) == LET d == TLCEval([v \in 1..e.V |-> Deg(e, v)]) IN \A a, b \in 1..e.V :
    IF a = b THEN e.o[a][b] = -10000 ELSE IF Adj(e, a, b) THEN Abs(e.o[a][b] * d[a] - 10000) <= d[a] ELSE e.o[a][b] = 0
Len3(v) == LET n == N2(v) k == SK(n) IN RDiv(1000 * ISqrt(n * k * k), k)            \* length * 1000 of an integer vector
Diff(a, b) == [c \in 1..3 |-> a[c] - b[c]]
Area2(e, f) == Len3(Cross(Diff(e.v[f[2] + 1], e.v[f[1] + 1]), Diff(e.v[f[3] + 1], e.v[f[1] + 1])))
(* cotangent * 1000 of the angle at p in triangle p, q, r *)
Cot(e, p, q, r, a2) == LET d == Dot(Diff(e.v[q + 1], e.v[p + 1]), Diff(e.v[r + 1], e.v[p + 1])) IN RDiv(1000000 * d, a2)
CotSum(e, a2, a, b) == SumSeq([i \in 1..Len(e.f) |-> LET f == e.f[i] IN
    SumSeq([k \in 1..3 |-> LET p == f[k] q == f[(k % 3) + 1] r == f[((k + 1) % 3) + 1]
                           IN IF {q, r} = {a - 1, b - 1} THEN Cot(e, p, q, r, a2[i]) ELSE 0])])
CotOk(e) == LET a2 == TLCEval([i \in 1..Len(e.f) |-> Area2(e, e.f[i])]) IN
    \A a, b \in 1..e.V : LET w == CotSum(e, a2, a, b) IN Abs(e.o[a][b] - w) <= 20 + Abs(w) \div 100
InvAreaOk(e) == LET a2 == TLCEval([i \in 1..Len(e.f) |-> Area2(e, e.f[i])]) IN \A v \in 1..e.V :
    LET s == SumSeq([i \in 1..Len(e.f) |-> IF v - 1 \in {e.f[i][1], e.f[i][2], e.f[i][3]} THEN a2[i] ELSE 0])      \* 2000 * total area
    IN IF s = 0 THEN e.ia[v][1] = 0 ELSE Abs(e.ia[v][1] - RDiv(1000000000, RDiv(s, 2))) <= 200 + e.ia[v][1] \div 200
NormOk(e) == \A a, b \in 1..e.V : IF Adj(e, a, b) /\ a # b THEN Abs(e.o[a][b] - RDiv(100000000, Len3(Diff(e.v[a], e.v[b])))) <= 100 ELSE e.o[a][b] = 0
(* ------------------------------ Taubin smoothing: positions * 1000 ------------------------------ *)
LenK(d) == LET m == Max2(Abs(d[1]), Max2(Abs(d[2]), Abs(d[3]))) IN
    IF m > 20000 THEN 4 * ISqrt(N2([c \in 1..3 |-> d[c] \div 4])) ELSE ISqrt(N2(d))
Nbr(e, v) == {IF e.edges[i][1] = v - 1 THEN e.edges[i][2] + 1 ELSE e.edges[i][1] + 1 :
              i \in {k \in 1..Len(e.edges) : v - 1 \in {e.edges[k][1], e.edges[k][2]}}}
SmStep(e, x, quarters) == [v \in 1..Len(x) |->
    LET N == Nbr(e, v)
        w == TLCEval([u \in N |-> RDiv(10000000, Max2(1, LenK(Diff(x[u], x[v]))))])
        W == SumFn(N, w)
    IN IF N = {} THEN x[v] ELSE [c \in 1..3 |->
         LET s == RDiv(SumFn(N, [u \in N |-> RDiv(w[u] * (x[u][c] - x[v][c]), 10)]), Max2(1, RDiv(W, 10))) IN x[v][c] + RDiv(quarters * s, 4)]]
RECURSIVE Smooth(_, _, _)
Smooth(e, x, n) == IF n = 0 THEN x ELSE
    LET y == TLCEval(SmStep(e, x, e.lam)) IN Smooth(e, TLCEval(SmStep(e, y, e.mu)), n - 1)
Far(e, x) == \A v \in 1..Len(x) : (\A u \in Nbr(e, v) : LenK(Diff(x[u], x[v])) >= 300) /\ \A c \in 1..3 : Abs(x[v][c]) <= 30000
RECURSIVE Stable(_, _, _)
Stable(e, x, n) == Far(e, x) /\ (n = 0 \/ LET y == TLCEval(SmStep(e, x, e.lam)) IN Far(e, y) /\ Stable(e, TLCEval(SmStep(e, y, e.mu)), n - 1))
SmoothOk(e) == LET x0 == TLCEval([v \in 1..Len(e.v) |-> [c \in 1..3 |-> 1000 * e.v[v][c]]]) IN
    Stable(e, x0, e.n) => LET x == Smooth(e, x0, e.n) IN \A v \in 1..Len(x) : \A c \in 1..3 : Abs(e.o[v][c] - x[v][c]) <= 3 + 12 * e.n
StillOk(e) == \A v \in 1..Len(e.v) : (e.n = 0 \/ Nbr(e, v) = {}) => \A c \in 1..3 : e.o[v][c] = 1000 * e.v[v][c]

Conf(s, e) ==
    CASE e.op = "pack" -> C("shape of the padded tensor", e.shape = e.want) \cup C("padded rows", e.o = Pad(e, e.x)) \cup C("gradient of padding", e.gx = Unpad(e, e.g))
      [] e.op = "unpack" -> C("shape of the packed tensor", e.shape = e.want) \cup C("packed rows", e.o = Unpad(e, e.x)) \cup C("gradient of packing", e.gx = Pad(e, e.g))
      [] e.op = "agg" -> C("neighbour sums", e.o = Agg(e.edges, e.dir, e.x, e.D)) \cup C("gradient of neighbour sums", e.gx = AggT(e.edges, e.dir, e.g, e.D))
      [] e.op = "conv" -> C("graph convolution", e.o = Conv(e)) \cup C("gradient of a graph convolution", e.gx = ConvGrad(e))
      [] e.op = "sub" -> C("edges of the input", \A n \in 1..Len(e.v) : EdgesOk(e, n))
             \cup C("as many subdivided meshes", Len(e.ov) = Len(e.v) /\ Len(e.of) = Len(e.v))
             \cup (IF Len(e.ov) = Len(e.v) /\ Len(e.of) = Len(e.v) /\ \A n \in 1..Len(e.v) : EdgesOk(e, n) THEN
                   C("subdivided vertices", \A n \in 1..Len(e.v) : e.ov[n] = SubRows(e.ed[n], e.v[n]))
                   \cup C("subdivided faces", \A n \in 1..Len(e.v) : Bag(e.of[n]) = Bag(SubFaces(Len(e.v[n]), e.ed[n], e.f[n])))
                   \cup C("subdivided features", \A n \in 1..Len(e.x) : e.ox[n] = SubRows(e.ed[n], e.x[n])) ELSE {})
      [] e.op = "lap" -> C("uniform Laplacian", LapOk(e))
      [] e.op = "cot" -> C("cotangent Laplacian", CotOk(e)) \cup C("inverse areas", InvAreaOk(e))
      [] e.op = "norm" -> C("distance-weighted Laplacian", NormOk(e))
      [] e.op = "taubin" -> C("smoothed vertices", SmoothOk(e)) \cup C("vertices without neighbours stay", StillOk(e))
                            \cup C("faces are kept", e.of = e.f)
      [] e.op = "same" -> C(e.what, e.same)
      [] e.op = "rejects" -> C("invalid " \o e.what \o " is rejected", e.rejected)
      [] OTHER -> C("operation " \o e.op \o " succeeds", e.res = "ok")
=============================================================================
