------------------------------- MODULE Shade -------------------------------
(* Shading and blending of rasterized fragments.  Fixed point, T = 10000.
   Positions: integers; barycentric coordinates: eighths; light and material colours: quarters; vertex colours: integers.
   Blending exponents are integers because distances are multiples of sigma*ln 2 and depths of gamma*ln 2. *)
EXTENDS Trig
S0(tr) == 0
Apply(s, e) == s
At(l, n) == IF Len(l) = 1 THEN l[1] ELSE l[n]                         \* a batch of one serves every image
MaxZ(a, b) == IF a > b THEN a ELSE b
RECURSIVE PowT(_, _)
PowT(x, k) == IF k = 0 THEN T ELSE M2(x, PowT(x, k - 1))
RECURSIVE LDig(_, _, _)
LDig(r, b, k) == IF k = 0 THEN (IF 2 * r >= b THEN 1 ELSE 0) ELSE LDig((10 * r) % b, b, k - 1) + ((10 * r) \div b) * 10^(k - 1)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
LDiv(a, b, k) == LET x == Abs(a) y == Abs(b) IN Sgn(a) * Sgn(b) * ((x \div y) * 10^k + LDig(x % y, y, k))       \* a / b * 10^k
P2(k) == IF k >= 24 THEN 2^24 ELSE 2^k
(* ------------------------------ interpolation ------------------------------ *)
Ip(b, v) == [j \in 1..Len(v[1]) |-> b[1] * v[1][j] + b[2] * v[2][j] + b[3] * v[3][j]]         \* eighths
InterpOk(e) == \A i \in 1..Len(e.pix) : LET f == e.pix[i] IN
    e.o[i] = IF f < 0 THEN Rep(e.D, 0) ELSE Ip(e.b[i], e.att[f + 1])
InterpGradOk(e) ==
    /\ \A i \in 1..Len(e.pix) : LET f == e.pix[i] IN
        e.gb[i] = IF f < 0 THEN <<0, 0, 0>> ELSE [k \in 1..3 |-> SumSeq([j \in 1..e.D |-> e.go[i][j] * e.att[f + 1][k][j]])]
    /\ \A f \in 1..Len(e.att) : \A k \in 1..3 : \A j \in 1..e.D :
        e.ga[f][k][j] = SumSeq([i \in 1..Len(e.pix) |-> IF e.pix[i] = f - 1 THEN e.b[i][k] * e.go[i][j] ELSE 0])
(* ------------------------------ lighting ------------------------------ *)
(* lights do not depend on the lengths of normals, light directions and view directions: these are integer vectors of integer length *)
LenI(v) == CHOOSE k \in 1..12 : k * k = Dot(v, v)
LightOk(e) == \A i \in 1..Len(e.n) : \A k \in 1..e.K :
    LET nv == e.n[i][k] l == e.l[i] v == e.v[i] a == LenI(nv) b == LenI(l) c == LenI(v)
        nl == Dot(nv, l)
        al == MaxZ(0, RDiv(T * (2 * nl * Dot(nv, v) - Dot(l, v) * a * a), a * a * b * c))
        sp == IF nl <= 0 THEN 0 ELSE IF e.sh[i] > 5 /\ al < T - 3 THEN (al * e.sh[i]) \div 64 ELSE PowT(al, e.sh[i]) IN
    \A ch \in 1..3 : /\ Close(e.d[i][k][ch], RDiv(e.col[i][1][ch] * MaxZ(0, RDiv(T * nl, a * b)), 4), 3)
                      /\ IF nl > 0 /\ e.sh[i] > 5 THEN e.s[i][k][ch] >= -1 /\ 4 * e.s[i][k][ch] <= e.col[i][2][ch] * al + 40       \* high powers: bounded
                         ELSE IF nl <= 0 /\ e.sh[i] = 0 THEN Close(e.s[i][k][ch], RDiv(e.col[i][2][ch] * T, 4), 3)                       \* x^0 = 1
                         ELSE Close(e.s[i][k][ch], RDiv(e.col[i][2][ch] * sp, 4), 12)
(* illumination at a point: pos, nrm integer vectors in units 1/u *)
Lit(e, n, u, pos, nrm) ==
    LET L == [amb |-> At(e.l.amb, n), dif |-> At(e.l.dif, n), spc |-> At(e.l.spc, n), x |-> At(e.l.x, n)]
        M == [amb |-> At(e.m.amb, n), dif |-> At(e.m.dif, n), spc |-> At(e.m.spc, n), sh |-> At(e.m.sh, n)]
        d == IF e.l.kind = "point" THEN [j \in 1..3 |-> u * L.x[j] - pos[j]] ELSE L.x
        nh == UnitT(nrm) dh == UnitT(d) vh == UnitT([j \in 1..3 |-> u * At(e.cc, n)[j] - pos[j]])
        co == SumSeq([j \in 1..3 |-> M2(nh[j], dh[j])])
        rf == [j \in 1..3 |-> 2 * M2(co, nh[j]) - dh[j]]
        al == MaxZ(0, SumSeq([j \in 1..3 |-> M2(vh[j], rf[j])]))
        amb(c) == RDiv(T * M.amb[c] * L.amb[c], 16)
    IN  IF e.l.kind = "ambient" THEN [ad |-> TLCEval([c \in 1..Len(M.amb) |-> amb(c)]), sp |-> Rep(Len(M.amb), 0), wild |-> FALSE]
        ELSE [ad |-> TLCEval([c \in 1..3 |-> amb(c) + RDiv(MaxZ(0, co) * M.dif[c] * L.dif[c], 16)]),
              sp |-> IF co <= 0 THEN <<0, 0, 0>> ELSE TLCEval([c \in 1..3 |-> RDiv(PowT(al, M.sh) * M.spc[c] * L.spc[c], 16)]),
              wild |-> Abs(co) <= 3 /\ al > 0 /\ nrm # <<0, 0, 0>>]
VIdx(e, n) == SumSeq([k \in 1..(n - 1) |-> Len(e.v[k])])
FIdx(e, n) == SumSeq([k \in 1..(n - 1) |-> Len(e.f[k])])
Tri(e, n, g) == e.f[n][g - FIdx(e, n) + 1]                             \* g: packed face index
Cor(e, n, tab, g) == LET t == Tri(e, n, g) IN TLCEval([i \in 1..3 |-> tab[n][t[i] + 1]])
(* shaded colour (T) of packed face g at barycentric coordinates b in mesh n:  [c, wild] *)
ShadeAt(e, n, g, b) ==
    LET xs == Cor(e, n, e.v, g) cs == Cor(e, n, e.vc, g) tex == Ip(b, cs) Cn == Len(cs[1]) IN
    CASE e.style = "gouraud" ->
           LET ls == TLCEval([i \in 1..3 |-> Lit(e, n, 1, xs[i], Cor(e, n, e.vn, g)[i])])
               col(i) == [c \in 1..Cn |-> ls[i].ad[c] * cs[i][c] + ls[i].sp[c]] IN
           [c |-> TLCEval([c \in 1..Cn |-> RDiv(SumSeq([i \in 1..3 |-> b[i] * col(i)[c]]), 8)]), wild |-> \E i \in 1..3 : ls[i].wild]
      [] e.style = "flat" ->
           LET x3 == [j \in 1..3 |-> xs[1][j] + xs[2][j] + xs[3][j]]
               l == Lit(e, n, 3, x3, Cross(VSub(xs[2], xs[1]), VSub(xs[3], xs[1]))) IN
           [c |-> TLCEval([c \in 1..Cn |-> RDiv(l.ad[c] * tex[c], 8) + l.sp[c]]), wild |-> l.wild]
      [] OTHER -> LET l == Lit(e, n, 8, Ip(b, xs), Ip(b, Cor(e, n, e.vn, g))) IN
           [c |-> TLCEval([c \in 1..Cn |-> RDiv(l.ad[c] * tex[c], 8) + l.sp[c]]), wild |-> l.wild]
(* ------------------------------ blending ------------------------------ *)
(* probability of a fragment whose distance is k*sigma*ln2, in millionths *)
MIL == 1000000
Prob(k) == IF k >= 0 THEN MIL \div (1 + P2(k)) ELSE MIL - MIL \div (1 + P2(-k))
MM6(a, b) == LET h == a \div 1000 l == a % 1000 IN h * (b \div 1000) + RDiv(h * (b % 1000) + l * (b \div 1000), 1000)    \* a*b/1e6
RECURSIVE Miss(_, _)
Miss(g, d) == IF Len(g) = 0 THEN MIL ELSE IF g[1] < 0 THEN Miss(Tail(g), Tail(d)) ELSE MM6(MIL - Prob(d[1]), Miss(Tail(g), Tail(d)))
(* cs: colours (T) of the fragments, z: depth exponents; result T *)
MaxOf(g, z) == FoldLeft(LAMBDA m, k : IF g[k] >= 0 THEN MaxZ(m, z[k]) ELSE m, 0, [k \in 1..Len(g) |-> k])
SoftW(g, d, z) == LET M == MaxOf(g, z) IN TLCEval([k \in 1..Len(g) |-> IF g[k] < 0 THEN 0 ELSE RDiv(Prob(d[k]), P2(M - z[k]))])
(* cs, bg in T *)
SoftRGB(g, d, z, cs, bg) ==
    LET w == SoftW(g, d, z) dl == RDiv(MIL, P2(MaxOf(g, z))) s == SumSeq(w) + dl IN
    TLCEval([c \in 1..Len(bg) |-> LDiv(SumSeq([k \in 1..Len(g) |-> MM6(w[k], 100 * cs[k][c])]) + MM6(dl, 100 * bg[c]), s, 4)])
Alpha(g, d) == RDiv(MIL - Miss(g, d), 100)
(* ---- events with explicit fragments, one pixel per row ---- *)
HardOk(e) == \A i \in 1..Len(e.g) : e.o[i] = IF e.g[i][1] < 0 THEN e.bg \o <<0>> ELSE e.c[i][1] \o <<1>>
SigOk(e) == \A i \in 1..Len(e.g) : /\ Close(e.o[i][4], Alpha(e.g[i], e.d[i]), 2)
                                   /\ (e.g[i][1] >= 0 => \A c \in 1..3 : e.o[i][c] = T * e.c[i][1][c])
(* sigma * d alpha / d dist_k  =  - prob_k * prod (1 - prob) *)
SigGradOk(e) == \A i \in 1..Len(e.g) : \A k \in 1..Len(e.g[i]) :
    Close(e.gd[i][k], IF e.g[i][k] < 0 THEN 0 ELSE -RDiv(MM6(Prob(e.d[i][k]), Miss(e.g[i], e.d[i])) * e.go[i], 100), 5)
SoftOk(e) == \A i \in 1..Len(e.g) :
    LET cs == TLCEval([k \in 1..Len(e.g[i]) |-> [c \in 1..3 |-> T * e.c[i][k][c]]]) x == SoftRGB(e.g[i], e.d[i], e.z[i], cs, [c \in 1..3 |-> T * e.bg[c]]) IN
    /\ Close(e.o[i][4], Alpha(e.g[i], e.d[i]), 3)
    /\ \A c \in 1..3 : Close(e.o[i][c], x[c], 12)
(* depth: hard = the nearest or zfar;  soft = mass of probability assigned front to back, the rest to zfar.  depths in T/10 *)
SoftDepth(g, d, z, zf) ==
    LET acc[k \in 0..Len(g)] == IF k = 0 THEN 0 ELSE Min2(MIL, acc[k - 1] + (IF g[k] < 0 THEN 0 ELSE Prob(d[k])))
    IN  SumSeq([k \in 1..Len(g) |-> RDiv((acc[k] - acc[k - 1]) * z[k], 1000)]) + RDiv((MIL - acc[Len(g)]) * zf, 1000)
DepthOk(e) == \A i \in 1..Len(e.g) : LET zf == At(e.zfar, e.img[i]) IN
    Close(e.o[i][1], IF e.soft THEN SoftDepth(e.g[i], e.d[i], e.zb[i], zf) ELSE 1000 * (IF e.g[i][1] < 0 THEN zf ELSE e.zb[i][1]), 5 + zf \div 20)
(* ---- shading events: rows are pixels [n, g, b, d, z] ---- *)
Cols(e, i) == TLCEval([k \in 1..Len(e.g[i]) |-> IF e.g[i][k] < 0 THEN [c |-> Rep(e.C, 0), wild |-> FALSE] ELSE ShadeAt(e, e.img[i], e.g[i][k], e.b[i][k])])
ShadeOk(e) == \A i \in 1..Len(e.g) : LET cs == Cols(e, i) tol == 15 IN
    CASE e.out = "colors" -> \A k \in 1..Len(cs) : cs[k].wild \/ VClose(e.o[i][k], cs[k].c, tol)
      [] e.out = "hard" -> cs[1].wild \/ (/\ \A c \in 1..e.C : Close(e.o[i][c], IF e.g[i][1] < 0 THEN T * e.bg[c] ELSE cs[1].c[c], tol)
                                          /\ e.o[i][e.C + 1] = IF e.g[i][1] < 0 THEN 0 ELSE T)
      [] OTHER -> LET x == SoftRGB(e.g[i], e.d[i], e.z[i], [k \in 1..Len(cs) |-> cs[k].c], [c \in 1..3 |-> T * e.bg[c]]) IN
                  /\ Close(e.o[i][4], Alpha(e.g[i], e.d[i]), 3)
                  /\ (\E k \in 1..Len(cs) : cs[k].wild) \/ \A c \in 1..3 : Close(e.o[i][c], x[c], 25)
(* ------------------------------ splatting ------------------------------
   every fragment spreads to the 3 x 3 pixels around it with weight 1.05 * 2^-|distance|^2 / 4 (sigma^2 = 1/(2 ln 2));
   a splat belongs to the front, surface or back layer of the pixel it lands on according to the depths of the two pixels.
   e.a[n][y][x][k] = 1 for fragments, e.c colours, e.zz depths (1/64), e.sx, e.sy sub-pixel shifts in quarters
   (x to the left, y up: opposite to the pixel indices). *)
R16 == <<10000, 9576, 9170, 8781, 8409, 8052, 7711, 7384, 7071, 6771, 6484, 6209, 5946, 5694, 5453, 5221>>
Pow2Neg(j) == RDiv(R16[(j % 16) + 1], P2(j \div 16))                  \* 2^(-j/16)
DZ(e, n, p, k) == IF e.a[n][p[1]][p[2]][k] = 0 THEN 64 ELSE e.zz[n][p[1]][p[2]][k]
ArgMin(f, K) == CHOOSE k \in 1..K : (\A j \in 1..K : f[k] <= f[j]) /\ \A j \in 1..(k - 1) : f[j] > f[k]
(* which layer of p is on the surface seen in q: >0 / <0 as in the paper *)
Occl(e, n, q, p) ==
    LET fa == [k \in 1..e.K |-> Abs(DZ(e, n, p, k) - DZ(e, n, q, 1))] fb == [k \in 1..e.K |-> Abs(DZ(e, n, p, 1) - DZ(e, n, q, k))]
        A == ArgMin(fa, e.K) B == ArgMin(fb, e.K) IN IF fb[B] < fa[A] THEN 1 - B ELSE A - 1
Around(e, q) == {p \in ((q[1] - 1)..(q[1] + 1)) \X ((q[2] - 1)..(q[2] + 1)) : p[1] >= 1 /\ p[1] <= e.H /\ p[2] >= 1 /\ p[2] <= e.W}
SplatW(e, n, q, p, k) ==                                              \* in T; the splat moves by (p - q) in (y up, x left)
    IF e.a[n][p[1]][p[2]][k] = 0 THEN 0 ELSE
    LET dx == 4 * (p[2] - q[2]) - e.sx[n][p[1]][p[2]][k] dy == 4 * (p[1] - q[1]) - e.sy[n][p[1]][p[2]][k] IN
    RDiv(2625 * Pow2Neg(dx * dx + dy * dy), T)
SplatOk(e) == \A n \in 1..e.N : \A y \in 1..e.H : \A x \in 1..e.W :
    LET q == <<y, x>> ps == SetToSeq(Around(e, q))
        oc == TLCEval([i \in 1..Len(ps) |-> Occl(e, n, q, ps[i])])
        ws == TLCEval([i \in 1..Len(ps) |-> [k \in 1..e.K |-> SplatW(e, n, q, ps[i], k)]])
        lay(i, k) == IF oc[i] > k - 1 THEN 1 ELSE IF oc[i] = k - 1 THEN 2 ELSE 3
        tot(l) == SumSeq([i \in 1..Len(ps) |-> SumSeq([k \in 1..e.K |-> IF lay(i, k) = l THEN ws[i][k] ELSE 0])])
        col(l, c) == SumSeq([i \in 1..Len(ps) |-> SumSeq([k \in 1..e.K |-> IF lay(i, k) = l THEN ws[i][k] * e.c[n][ps[i][1]][ps[i][2]][k][c] ELSE 0])])
        tt == TLCEval([l \in 1..3 |-> tot(l)])
        nrm(l, v) == RDiv(T * v, MaxZ(T, tt[l]))
        over(l, v, back) == nrm(l, v) + M2(T - nrm(l, tt[l]), back)
    IN  /\ \A c \in 1..3 : Close(e.o[n][y][x][c], over(1, col(1, c), over(2, col(2, c), over(3, col(3, c), T * e.bg[c]))), 25)
        /\ Close(e.o[n][y][x][4], over(1, tt[1], over(2, tt[2], over(3, tt[3], 0))), 20)
Conf(s, e) ==
    CASE e.op = "interp" -> C("interpolated attributes", InterpOk(e))
      [] e.op = "interpgrad" -> C("gradients of interpolated attributes", InterpGradOk(e))
      [] e.op = "hard" -> C("hard blending", HardOk(e))
      [] e.op = "sig" -> C("silhouette blending", SigOk(e))
      [] e.op = "siggrad" -> C("gradient of silhouette blending", SigGradOk(e))
      [] e.op = "soft" -> C("softmax blending", SoftOk(e))
      [] e.op = "depth" -> C("depth shading", Len(e.o) = Len(e.g) /\ (\A i \in 1..Len(e.o) : Len(e.o[i]) = 1) /\ DepthOk(e))
      [] e.op = "shade" -> C("shaded colours (" \o e.style \o ")", ShadeOk(e))
      [] e.op = "splat" -> C("splatted colours", SplatOk(e))
      [] e.op = "light" -> C("lighting at any scale", LightOk(e))
      [] e.op = "same" -> C(e.what, e.same)
      [] e.op = "rejects" -> C("invalid " \o e.what \o " is rejected", e.rejected)
      [] OTHER -> C("operation " \o e.op \o " succeeds", e.res = "ok")
=============================================================================
