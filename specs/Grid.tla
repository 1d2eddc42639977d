------------------------------- MODULE Grid -------------------------------
(* Surfaces extracted from grids: marching cubes and cubify, judged by what a surface must be, not by case tables.
   Grid corners / edges are <<x, y, z>> triples; sz = <<W, H, D>>. *)
EXTENDS Trig
S0(tr) == 0
Apply(s, e) == s
Sz(e) == <<Len(e.vol[1][1]), Len(e.vol[1]), Len(e.vol)>>
At3(e, p) == e.vol[p[3] + 1][p[2] + 1][p[1] + 1]
Corners(sz) == (0..(sz[1] - 1)) \X (0..(sz[2] - 1)) \X (0..(sz[3] - 1))
Unit(d) == [k \in 1..3 |-> IF k = d THEN 1 ELSE 0]
Plus(p, q) == [k \in 1..3 |-> p[k] + q[k]]
(* ------------------------------ marching cubes ------------------------------ *)
Inside(e, p) == 2 * At3(e, p) >= e.iso2
GEdges(e) == LET sz == Sz(e) IN {g \in (1..3) \X Corners(sz) : g[2][g[1]] < sz[g[1]] - 1}         \* edge along axis g[1] from corner g[2]
Far(g) == Plus(g[2], Unit(g[1]))
Crossing(e) == IF \E k \in 1..3 : Sz(e)[k] < 2 THEN {} ELSE {g \in GEdges(e) : Inside(e, g[2]) # Inside(e, Far(g))}
(* coordinate k of the crossing point, in the requested coordinates, * 10000 *)
Coord(e, g, k) == LET a == 2 * At3(e, g[2]) b == 2 * At3(e, Far(g))
                      x == IF k = g[1] THEN 10000 * g[2][k] + RDiv(10000 * (e.iso2 - a), b - a) ELSE 10000 * g[2][k]
                  IN IF e.local THEN RDiv(2 * x, Sz(e)[k] - 1) - 10000 ELSE x
Generic(e) == \A p \in Corners(Sz(e)) : 2 * At3(e, p) # e.iso2
(* lattice extent of an edge in every axis *)
Lo(g) == g[2]
Hi(g) == Far(g)
OneCell(g, h, i) == \A k \in 1..3 : LET S == {g, h, i} lo == {Lo(x)[k] : x \in S} hi == {Hi(x)[k] : x \in S} IN \A a \in lo : \A b \in hi : b - a <= 1
OnBoundary(e, g, h) == \E k \in 1..3 : Lo(g)[k] = Hi(g)[k] /\ Lo(h)[k] = Lo(g)[k] /\ Hi(h)[k] = Lo(g)[k] /\ Lo(g)[k] \in {0, Sz(e)[k] - 1}
InCorner(e, g) == IF Inside(e, g[2]) THEN g[2] ELSE Far(g)
(* direction of travel on a cell face: the inside corner must lie to one side; positions in non-local lattice * 100 *)
GPos(e, g) == LET a == 2 * At3(e, g[2]) b == 2 * At3(e, Far(g)) IN
    [k \in 1..3 |-> IF k = g[1] THEN 100 * g[2][k] + RDiv(100 * (e.iso2 - a), b - a) ELSE 100 * g[2][k]]
Sub3(a, b) == [k \in 1..3 |-> a[k] - b[k]]
(* for each axis in which g and h lie in one lattice plane and the third vertex off it *)
SideOk(e, g, h, i) == \A k \in 1..3 :
    (Lo(g)[k] = Hi(g)[k] /\ Lo(h)[k] = Lo(g)[k] /\ Hi(h)[k] = Lo(g)[k] /\ (Lo(i)[k] # Lo(g)[k] \/ Hi(i)[k] # Lo(g)[k])) =>
        LET out == IF Lo(i)[k] < Lo(g)[k] THEN 1 ELSE -1                 \* outward normal of the cell on this face
            in == [c \in 1..3 |-> 100 * InCorner(e, g)[c]]
            s == out * Cross(Sub3(GPos(e, h), GPos(e, g)), Sub3(in, GPos(e, g)))[k]
        IN s * e.sign > 0
McMatch(e, X) == [v \in 1..Len(e.v) |-> {x \in X : \A k \in 1..3 : Abs(e.v[v][k] - x.p[k]) <= 4}]
McVerts(e) == TLCEval({[g |-> g, p |-> [k \in 1..3 |-> Coord(e, g, k)]] : g \in Crossing(e)})
(* vertices at the same place count as one *)
Pid(e) == TLCEval([v \in 1..Len(e.v) |-> CHOOSE u \in 1..v : e.v[u] = e.v[v] /\ \A w \in 1..(u - 1) : e.v[w] # e.v[v]])
PosPairs(e, id) == TLCEval([i \in 1..(3 * Len(e.f)) |-> LET f == e.f[((i - 1) \div 3) + 1] k == ((i - 1) % 3) + 1 IN 1000 * id[f[k] + 1] + id[f[(k % 3) + 1] + 1]])
Count(ps, c) == Cardinality({i \in 1..Len(ps) : ps[i] = c})
PosBoundary(e, a, b) == \E k \in 1..3 : LET hi == IF e.local THEN 10000 ELSE 10000 * (Sz(e)[k] - 1) lo == IF e.local THEN -10000 ELSE 0
    IN (Abs(a[k] - lo) <= 2 /\ Abs(b[k] - lo) <= 2) \/ (Abs(a[k] - hi) <= 2 /\ Abs(b[k] - hi) <= 2)
Balanced(e) == LET id == Pid(e) ps == PosPairs(e, id) S == TLCEval({ps[i] : i \in 1..Len(ps)}) IN \A c \in S :
    LET a == c \div 1000 b == c % 1000 IN Count(ps, c) = Count(ps, 1000 * b + a) \/ PosBoundary(e, e.v[a], e.v[b])
Mc(e) ==
    LET idx == \A i \in 1..Len(e.f) : Cardinality({e.f[i][k] : k \in 1..3}) = 3 /\ \A k \in 1..3 : e.f[i][k] \in 0..(Len(e.v) - 1)
        X == McVerts(e)
        m == TLCEval(McMatch(e, X))
        all == \A v \in 1..Len(e.v) : m[v] # {}
        gen == Generic(e)
        one == all /\ \A v \in 1..Len(e.v) : Cardinality(m[v]) = 1
        g(v) == (CHOOSE x \in m[v + 1] : TRUE).g
    IN C("faces index distinct vertices", idx) \cup C("vertices lie where the field crosses the level", all)
       \cup C("every vertex is used", idx => {e.f[i][k] : i \in 1..Len(e.f), k \in 1..3} = 0..(Len(e.v) - 1))
       \cup (IF ~idx \/ gen THEN {} ELSE C("the surface is closed inside the volume", Balanced(e)))
       \cup (IF idx /\ all /\ gen THEN
               C("one vertex per crossed edge", one /\ Cardinality(X) = Len(e.v) /\ {g(v - 1) : v \in 1..Len(e.v)} = {x.g : x \in X}) ELSE {})
       \cup (IF idx /\ gen /\ one THEN
               C("every face lies in one cell", \A i \in 1..Len(e.f) : OneCell(g(e.f[i][1]), g(e.f[i][2]), g(e.f[i][3])))
               \cup C("faces are oriented consistently", \A i \in 1..Len(e.f) : LET a == g(e.f[i][1]) b == g(e.f[i][2]) c == g(e.f[i][3])
                        IN SideOk(e, a, b, c) /\ SideOk(e, b, c, a) /\ SideOk(e, c, a, b))
               \cup C("faces meet two by two", LET D == [i \in 1..(3 * Len(e.f)) |-> LET f == e.f[((i - 1) \div 3) + 1] k == ((i - 1) % 3) + 1 IN <<f[k], f[(k % 3) + 1]>>]
                                                  S == {D[i] : i \in 1..Len(D)}
                        IN Cardinality(S) = Len(D) /\ \A d \in S : <<d[2], d[1]>> \in S \/ OnBoundary(e, g(d[1]), g(d[2]))) ELSE {})
(* ------------------------------ cubify ------------------------------ *)
Occ(e) == TLCEval({p \in Corners(Sz(e)) : At3(e, p) > e.thr})
Dirs == {<<d, s>> : d \in 1..3, s \in {0, 1}}
Exposed(e, O) == {q \in O \X Dirs : LET p == q[1] d == q[2][1] IN [p EXCEPT ![d] = IF q[2][2] = 1 THEN @ + 1 ELSE @ - 1] \notin O}
Square(q) == {c \in {Plus(q[1], o) : o \in (0..1) \X (0..1) \X (0..1)} : c[q[2][1]] = q[1][q[2][1]] + q[2][2]}
CPos(e, c) == [k \in 1..3 |-> LET n == Sz(e)[k] IN
    IF e.align = "corner" THEN RDiv(20000 * c[k], n) - 10000
    ELSE IF e.align = "center" THEN RDiv(10000 * (2 * c[k] - 1), n - 1) - 10000 ELSE RDiv(20000 * c[k], n - 1) - 10000]
Cub(e) ==
    LET O == Occ(e)
        Q == TLCEval(Exposed(e, O))
        V == TLCEval(UNION {Square(q) : q \in Q})
        m == TLCEval([v \in 1..Len(e.v) |-> {c \in V : LET p == CPos(e, c) IN \A k \in 1..3 : Abs(p[k] - e.v[v][k]) <= 2}])
        vok == \A v \in 1..Len(e.v) : Cardinality(m[v]) = 1
        at(v) == CHOOSE c \in m[v + 1] : TRUE
        sqs == TLCEval([q \in Q |-> Square(q)])
        idx == \A i \in 1..Len(e.f) : Cardinality({e.f[i][k] : k \in 1..3}) = 3 /\ \A k \in 1..3 : e.f[i][k] \in 0..(Len(e.v) - 1)
        sq(f) == {q \in Q : {at(f[1]), at(f[2]), at(f[3])} \subseteq sqs[q]}
        out(f, q) == LET n == Cross(Sub3(at(f[2]), at(f[1])), Sub3(at(f[3]), at(f[1]))) IN IF q[2][2] = 1 THEN n[q[2][1]] > 0 ELSE n[q[2][1]] < 0
        own == TLCEval([i \in 1..Len(e.f) |-> {q \in sq(e.f[i]) : out(e.f[i], q)}])
        fs(q) == {i \in 1..Len(e.f) : q \in own[i]}
    IN C("faces index distinct vertices", idx)
       \cup C("vertices are the merged corners of exposed cube faces", vok /\ Len(e.v) = Cardinality(V))
       \cup (IF vok /\ idx THEN
              C("two outward triangles per exposed cube face and no others",
                 /\ Len(e.f) = 2 * Cardinality(Q) /\ \A i \in 1..Len(e.f) : Cardinality(own[i]) = 1
                 /\ \A q \in Q : LET F == fs(q) IN Cardinality(F) = 2 /\ UNION {{at(e.f[i][1]), at(e.f[i][2]), at(e.f[i][3])} : i \in F} = Square(q))
              \cup (IF e.hasx THEN C("colours of the faces", Len(e.ox) = Len(e.f) /\ \A i \in 1..Len(e.f) : \E q \in own[i] :
                        \A c \in 1..Len(e.x) : e.ox[i][c] = e.x[c][q[1][3] + 1][q[1][2] + 1][q[1][1] + 1]) ELSE {}) ELSE {})

Conf(s, e) ==
    CASE e.op = "mc" -> Mc(e)
      [] e.op = "cubify" -> Cub(e)
      [] e.op = "same" -> C(e.what, e.same)
      [] e.op = "rejects" -> C("invalid " \o e.what \o " is rejected", e.rejected)
      [] OTHER -> C("operation " \o e.op \o " succeeds", e.res = "ok")
=============================================================================
