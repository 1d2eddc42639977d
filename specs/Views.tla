------------------------------- MODULE Views -------------------------------
(* Pooling of image features: projection of points into all source views, sampling of feature maps and
   masks, and the aggregation over the views.  All quantities in 1e-4 unless said otherwise. *)
EXTENDS Trig
WDiv(a, b) == T * (a \div b) + RDiv(T * (a % b), b)

(* ---- sampling; points, R, T in quarters (R in units), focal length and principal point in 1e-4 ---- *)
View(c, p) == [j \in 1..3 |-> SumSeq([i \in 1..3 |-> p[i] * c.R[i][j]]) + c.T[j]]
Ndc(c, p) == LET v == View(c, p) IN [k \in 1..2 |-> IF v[3] = 0 THEN 25 * c.f[k] * v[k] ELSE RDiv(c.f[k] * v[k], v[3]) + c.pp[k]]
(* position in pixels, counted from the center of the first pixel; the shorter side spans [-1, 1] *)
PixPos(n, hw, k) == LET s == Min2(hw[1], hw[2]) w == IF k = 1 THEN hw[2] ELSE hw[1] IN
    RDiv(w * T - T - RDiv(n * s, w) * w, 2)
At(map, y, x) == IF y < 0 \/ x < 0 \/ y >= Len(map) \/ x >= Len(map[1]) THEN 0 ELSE T * map[y + 1][x + 1]
Bilin(map, px, py) == LET x == px \div T y == py \div T a == px % T b == py % T IN
    M2(M2(At(map, y, x), T - a) + M2(At(map, y, x + 1), a), T - b) + M2(M2(At(map, y + 1, x), T - a) + M2(At(map, y + 1, x + 1), a), b)
Near(map, px, py) == {At(map, (py + 5000 + dy) \div T, (px + 5000 + dx) \div T) : dx \in {-8, 8}, dy \in {-8, 8}}
SampleOk(o, mode, map, c, p) ==
    LET hw == <<Len(map), Len(map[1])>> n == Ndc(c, p) px == PixPos(n[1], hw, 1) py == PixPos(n[2], hw, 2) IN
    IF mode = "nearest" THEN \E v \in Near(map, px, py) : Close(o, v, 2) ELSE Close(o, Bilin(map, px, py), 80)
SampleConf(e) ==
    LET B == Len(e.pts) V == Len(e.cams) K == Len(e.feats) IN
    IF e.what # "ok" THEN C("refuses missing masks", e.rejected) ELSE
    C("sampled features", Len(e.out) = K /\ \A k \in 1..K : Len(e.out[k]) = B /\ \A b \in 1..B : Len(e.out[k][b]) = V /\ \A v \in 1..V :
        Len(e.out[k][b][v]) = Len(e.pts[b]) /\ \A p \in 1..Len(e.pts[b]) : LET o == e.out[k][b][v][p] f == e.feats[k][v] IN
        Len(o) = Len(f) /\ \A d \in 1..Len(f) : IF e.sp[b] # e.sc[v] THEN o[d] = 0 ELSE SampleOk(o[d], e.mode, f[d], e.cams[v], e.pts[b][p])) \cup
    C("sampled masks", Len(e.mout) = B /\ \A b \in 1..B : Len(e.mout[b]) = V /\ \A v \in 1..V :
        Len(e.mout[b][v]) = Len(e.pts[b]) /\ \A p \in 1..Len(e.pts[b]) : LET o == e.mout[b][v][p] IN
        IF e.sp[b] # e.sc[v] THEN o = 0 ELSE IF ~e.masked THEN o = T ELSE SampleOk(o, e.mode, e.masks[v], e.cams[v], e.pts[b][p]))

(* ---- aggregation ---- *)
Dir(c, p) == LET ctr == [i \in 1..3 |-> -SumSeq([j \in 1..3 |-> c.T[j] * c.R[i][j]])] IN UnitT(VSub(p, ctr))
Angle(e, b, v, p) ==
    LET d1 == Dir(e.cams[b], e.pts[b][p]) d2 == Dir(e.cams[v], e.pts[b][p])
        a == RDiv(SumSeq([i \in 1..3 |-> M2(d1[i], d2[i])]) + T, 2) + e.minw
    IN  IF e.gamma = 2 THEN M2(a, a) ELSE a
Wt(e, b, v, p) == M2(IF e.excl /\ b = v THEN 0 ELSE e.m[b][v][p], IF e.angle THEN Angle(e, b, v, p) ELSE T)
Feat(e, k, b, v, p) == IF e.exclf /\ b = v THEN [d \in 1..Len(e.x[k][b][v][p]) |-> 0] ELSE e.x[k][b][v][p]
Mean(x, w) == WDiv(SumSeq([v \in 1..Len(w) |-> M2(x[v], w[v])]), Max2(SumSeq(w), 100))
Has(e, r) == \E i \in 1..Len(e.red) : e.red[i] = r
(* outputs of one point as <<kind, low, high>>; kind sq: bounds of the square *)
Reduced(e, k, b, p) ==
    LET V == Len(e.m[b]) w == TLCEval([v \in 1..V |-> Wt(e, b, v, p)])
        x == TLCEval([v \in 1..V |-> Feat(e, k, b, v, p)]) D == Len(x[1])
        tol == 8 + ((10 * T) \div Max2(SumSeq(w), 100)) * (IF e.angle THEN 4 ELSE 1)
        col(d) == [v \in 1..V |-> x[v][d]]
        mu == TLCEval([d \in 1..D |-> Mean(col(d), w)])
        var == TLCEval([d \in 1..D |-> Mean([v \in 1..V |-> M2(x[v][d] - mu[d], x[v][d] - mu[d])], w)])
        Sq(z) == ISqrt(T * Max2(z, 1))
        On == {v \in 1..V : w[v] = T}
        crisp == \A v \in 1..V : w[v] \in {0, T}
        Top(d) == CHOOSE z \in {x[v][d] : v \in On} : \A v \in On : x[v][d] <= z
        act == \E v \in 1..V : w[v] > 1
        L(z) == <<"lin", z - tol, z + tol>>
    IN  IF ~act THEN [i \in 1..(D * Len(e.red) - (IF Has(e, "STD_AVG") THEN D - 1 ELSE 0)) |-> <<"lin", 0, 0>>] ELSE
        (IF Has(e, "AVG") THEN [d \in 1..D |-> L(mu[d])] ELSE << >>) \o
        (IF Has(e, "STD") THEN [d \in 1..D |-> <<"sq", Max2(var[d], 1) - 3 * tol, Max2(var[d], 1) + 3 * tol>>] ELSE << >>) \o
        (IF Has(e, "STD_AVG") THEN << <<"lin", SumSeq([d \in 1..D |-> Sq(var[d] - 3 * tol)]) \div D - 3, SumSeq([d \in 1..D |-> Sq(var[d] + 3 * tol)]) \div D + 3>> >> ELSE << >>) \o
        (IF Has(e, "MAX") THEN [d \in 1..D |-> IF crisp THEN <<"lin", Top(d) - 2, Top(d) + 2>> ELSE <<"any", 0, 0>>] ELSE << >>)
InB(o, c) == CASE c[1] = "any" -> TRUE [] c[1] = "sq" -> o >= 0 /\ c[2] <= M2(o, o) /\ M2(o, o) <= c[3] [] OTHER -> c[2] <= o /\ o <= c[3]
InBs(o, c) == Len(o) = Len(c) /\ \A i \in 1..Len(c) : InB(o[i], c[i])
(* without a reduction every view keeps its features, possibly weighted *)
Kept(e, k, b, v, p) == LET x == Feat(e, k, b, v, p) w == IF e.angle THEN Wt(e, b, v, p) ELSE T IN [d \in 1..Len(x) |-> <<"lin", M2(x[d], w) - 15, M2(x[d], w) + 15>>]
AggConf(e) ==
    LET B == Len(e.m) V == Len(e.m[1]) K == Len(e.x) P == Len(e.m[1][1]) R == Len(e.red) > 0
        want(k, b, v, p) == IF R THEN Reduced(e, k, b, p) ELSE Kept(e, k, b, v, p)
        full(b, v, p) == Flat([k \in 1..K |-> want(k, b, v, p)])
        NV == IF R THEN 1 ELSE V
        last == IF e.cat THEN Len(e.out[1][1][1][1]) ELSE SumSeq([k \in 1..K |-> Len(e.out[k][1][1][1])])
    IN  C("aggregated features", Len(e.out) = (IF e.cat THEN 1 ELSE K) /\ \A j \in 1..Len(e.out) : Len(e.out[j]) = B /\ \A b \in 1..B : Len(e.out[j][b]) = NV /\ \A v \in 1..NV :
            Len(e.out[j][b][v]) = P /\ \A p \in 1..P : InBs(e.out[j][b][v][p], IF e.cat THEN full(b, v, p) ELSE want(j, b, v, p))) \cup
        C("has_aggregation", e.has = R) \cup
        C("announced dimension", e.dim = last) \cup
        C("announced dimension of a total", (Has(e, "STD_AVG") /\ K > 1) \/ e.idim = last)
(* the pooler composes both *)
PoolConf(e) == C("pooler aggregates what the sampler sampled", e.out = e.comp /\ Len(e.out) > 0) \cup C("pooler announces", e.has = e.chas /\ e.dim = e.cdim)

(* ---- inputs of implicit functions ---- *)
EmbConf(e) ==
    LET B == Len(e.pts)
        base(b, r, k) == LET p == e.pts[b][r][k] IN IF e.fn = "none" THEN << >> ELSE
            LET q == IF e.incam THEN View(e.cams[b], p) ELSE p IN IF e.fn = "id" THEN q ELSE q \o VScale(2, q)
        row(b, s, r, k) == base(b, r, k) \o (IF e.pool THEN e.pooled[b][s][(r - 1) * Len(e.pts[b][1]) + k] ELSE << >>) \o (IF e.code THEN e.codes[b] ELSE << >>)
        S == IF e.pool THEN Len(e.pooled[1]) ELSE 1
    IN  IF e.what # "ok" THEN C("refuses a missing camera", e.rejected) ELSE
        C("embeddings", e.out = [b \in 1..B |-> [s \in 1..S |-> [r \in 1..Len(e.pts[b]) |-> [k \in 1..Len(e.pts[b][1]) |-> row(b, s, r, k)]]]]) \cup
        C("pooled points are in world coordinates", ~e.pool \/ e.seen = [b \in 1..B |-> Flat(e.pts[b])])
S0(tr) == 0
Apply(s, e) == s
Conf(s, e) == CASE e.op = "sample" -> SampleConf(e) [] e.op = "agg" -> AggConf(e) [] e.op = "pool" -> PoolConf(e) [] OTHER -> EmbConf(e)
=============================================================================
