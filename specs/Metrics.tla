------------------------------- MODULE Metrics -------------------------------
(* Losses, evaluation metrics and their aggregation; point clouds from depth maps; splatting of rays.
   Values are quarters (or sixteenths, sixty-fourths where interpolated), results are in 1e-4. *)
EXTENDS Trig
RECURSIVE LDigits(_, _, _)
LDigits(r, b, k) == IF k = 0 THEN IF 2 * r >= b THEN 1 ELSE 0 ELSE LET x == 10 * r IN (x \div b) * (IF k = 4 THEN 1000 ELSE IF k = 3 THEN 100 ELSE IF k = 2 THEN 10 ELSE 1) + LDigits(x % b, b, k - 1)
(* T * a / b for a >= 0, b > 0 below 1e8 *)
LD(a, b) == (a \div b) * T + LDigits(a % b, b, 4)
Sum2(s) == SumSeq([i \in 1..Len(s) |-> SumSeq(s[i])])
Sq(x) == x * x
Near(a, b) == Close(a, b, 3 + Abs(b) \div 2000)

(* ---- images as [image][channel][pixel]; masks as [image][pixel], quarters ---- *)
ErrSum(x, y, m, F(_)) == SumSeq([b \in 1..Len(x) |-> SumSeq([c \in 1..Len(x[b]) |-> SumSeq([p \in 1..Len(x[b][c]) |-> F(x[b][c][p] - y[b][c][p]) * m[b][p]])])])
(* values in 1/k, masks in 1/4 *)
MseT(x, y, m, k) == LET den == Sum2(m) * Len(x[1]) IN IF den = 0 THEN 0 ELSE LD(ErrSum(x, y, m, Sq), k * k * den)
L1T(x, y, m, k) == [b \in 1..Len(x) |-> LD(SumSeq([c \in 1..Len(x[b]) |-> SumSeq([p \in 1..Len(m[b]) |-> Abs(x[b][c][p] - y[b][c][p]) * m[b][p]])]), k * Max2(SumSeq(m[b]), 4))]
Iou1(p, t, m) == LET I == SumSeq([i \in 1..Len(p) |-> p[i] * m[i] * t[i] * m[i]])
                     U == SumSeq([i \in 1..Len(p) |-> 16 * (p[i] * m[i] + t[i] * m[i]) - p[i] * m[i] * t[i] * m[i]])
                 IN  LD(100 * I, 100 * U + 3)
IouT(p, t, m) == RDiv(SumSeq([b \in 1..Len(p) |-> Iou1(p[b], t[b], m[b])]), Len(p))

(* ---- binary cross entropy; probabilities in quarters ---- *)
LnQ(q, eps) == CASE q = 1 -> -13863 [] q = 2 -> -6931 [] q = 3 -> -2877 [] q >= 4 -> (IF eps THEN -101 ELSE 0) [] OTHER -> -46052
LnL(q, eps, b) == IF q >= b THEN LnQ(q, eps) ELSE LnQ(b, FALSE) + (IF eps /\ q = 0 THEN RDiv((4 - 100 * b) * 100, b) ELSE RDiv((q - b) * T, b))
Ln(e, q) == IF e.lerp > 0 THEN LnL(q, e.eps, e.lerp) ELSE LnQ(q, e.eps)
Bce1(e, p, t) == -RDiv(t * Ln(e, p) + (4 - t) * Ln(e, 4 - p), 4)
BceT(e) == LET n == Len(e.p) l == [i \in 1..n |-> Bce1(e, e.p[i], e.t[i])]
               fg == [i \in 1..n |-> IF e.t[i] > 2 THEN e.m[i] ELSE 0]
               bg == [i \in 1..n |-> e.m[i] - fg[i]]
               avg(w) == IF SumSeq(w) = 0 THEN 0 ELSE RDiv(Dot(w, l), SumSeq(w))
               s == (IF SumSeq(fg) > 0 THEN 1 ELSE 0) + (IF SumSeq(bg) > 0 THEN 1 ELSE 0)
           IN  IF e.equal THEN RDiv(avg(fg) + avg(bg), Max2(s, 1)) ELSE IF e.lerp > 0 THEN avg(e.m) ELSE RDiv(Dot(e.m, l), n)

(* ---- depth: integers; mask as booleans over the cropped region ---- *)
DepthT(p, g, ok, best, mse) ==
    LET n == Len(p)
        XX == SumSeq([i \in 1..n |-> IF ok[i] THEN p[i] * p[i] ELSE 0])
        XY == SumSeq([i \in 1..n |-> IF ok[i] THEN p[i] * g[i] ELSE 0])
        A == IF ~best THEN 1 ELSE IF XX = 0 THEN 0 ELSE XY
        B == IF ~best \/ XX = 0 THEN 1 ELSE XX
        M == SumSeq([i \in 1..n |-> IF ok[i] THEN 1 ELSE 0])
        d == [i \in 1..n |-> IF ok[i] THEN Abs(g[i] * B - p[i] * A) ELSE 0]
    IN  IF M = 0 THEN <<0, 0>> ELSE <<SumSeq([i \in 1..n |-> LD(d[i], B * M)]), IF mse THEN SumSeq([i \in 1..n |-> LD(d[i] * d[i], B * B * M)]) ELSE 0>>
DispT(p, g, ok) ==
    LET n == Len(p)
        P == [i \in 1..n |-> RDiv(100000000, p[i] * T + 1)]
        G == [i \in 1..n |-> RDiv(100000000, g[i] * T + 1)]
        XX == SumSeq([i \in 1..n |-> IF ok[i] THEN M2(P[i], P[i]) ELSE 0])
        XY == SumSeq([i \in 1..n |-> IF ok[i] THEN M2(P[i], G[i]) ELSE 0])
        s == IF XX = 0 THEN 0 ELSE RDiv(XY * 1000, XX)
        M == SumSeq([i \in 1..n |-> IF ok[i] THEN 1 ELSE 0])
    IN  IF M = 0 THEN 0 ELSE RDiv(SumSeq([i \in 1..n |-> IF ok[i] THEN Abs(G[i] - RDiv(P[i] * s, 1000)) ELSE 0]), M)
Inner(h, w, crop) == Flat([i \in 1..h |-> [j \in 1..w |-> i > crop /\ i <= h - crop /\ j > crop /\ j <= w - crop]])
DepthOk(g, m, h, w, crop) == LET in == Inner(h, w, crop) IN [i \in 1..Len(g) |-> in[i] /\ m[i] /\ g[i] > 0]
DepthConf(e) == C("depth error", \A b \in 1..Len(e.p) : LET ok == DepthOk(e.g[b], e.m[b], e.h, e.w, e.crop) IN
    IF e.disp THEN Close(e.abs[b], DispT(e.p[b], e.g[b], ok), 30) ELSE
    LET r == DepthT(e.p[b], e.g[b], ok, e.best, TRUE) IN Close(e.abs[b], r[1], 20) /\ Close(e.mse[b], r[2], 40 + r[2] \div 200))

(* ---- regularizers ---- *)
Root(A) == IF A > 20000000 THEN 100 * ISqrt(A) ELSE 10 * ISqrt(A * 100)
BetaQ(q) == LET t == <<0, 9949, 11856, 9949, 0>> IN t[q + 1]
Norms(v) == [i \in 1..Len(v) |-> ISqrt(N2(v[i]))]
TvT(g, b) == LET n1 == Len(g[1]) n2 == Len(g[1][1]) n3 == Len(g[1][1][1])
                 at(i, j, k) == g[b][i][j][k]
             IN  Flat(Flat([i \in 1..n1 - 1 |-> [j \in 1..n2 - 1 |-> [k \in 1..n3 - 1 |->
                     10 * ISqrt(1000000 * (Sq(at(i, j, k + 1) - at(i, j, k)) + Sq(at(i, j + 1, k) - at(i, j, k)) + Sq(at(i + 1, j, k) - at(i, j, k))) + 10)]]]))
RegConf(e) ==
    CASE e.op = "huber" -> C("robust loss", \A i \in 1..Len(e.d) : Close(e.out[i], RDiv((Root(T + 1 + LD(e.d[i] * 10000, 144)) - T) * 3, 100), 3))
      [] e.op = "prior" -> C("binary prior", Close(e.out, RDiv(SumSeq([i \in 1..Len(e.p) |-> BetaQ(e.p[i])]), Len(e.p)), 3))
      [] OTHER -> {}

(* ---- metrics of a stage: sampled ground truth against the predictions of the rays ---- *)
RayCam(e, r) == IF e.packed THEN e.ids[Owner(e.counts)[r] + 1] + 1 ELSE (r - 1) \div e.per + 1
(* bilinear value (in 1/64) at pixel i + a/4, j + b/4 counted from 0; zero outside *)
Wt(a, k) == IF k = 0 THEN 4 - Abs(a) ELSE IF (k = 1 /\ a > 0) \/ (k = -1 /\ a < 0) THEN Abs(a) ELSE 0
Bil(img, h, w, i, j, a, b) == SumSeq([x \in 1..9 |-> LET di == ((x - 1) \div 3) - 1 dj == ((x - 1) % 3) - 1 y == i + di z == j + dj IN
    IF y < 0 \/ z < 0 \/ y >= h \/ z >= w THEN 0 ELSE Wt(a, di) * Wt(b, dj) * img[y * w + z + 1]])
(* the depth maps are three times as large: nearest pixel *)
DepAt(e, b, y) == e.dep[b][(3 * y[1] + 1 + y[3]) * 3 * e.w + 3 * y[2] + y[4] + 2]
StageConf(e, s, k) ==   \* s: stage predictions, k: prefix of the keys
    LET R == Len(e.rays)
        gt == TLCEval([r \in 1..R |-> [c \in 1..3 |-> LET y == e.rays[r] IN Bil(e.img[RayCam(e, r)][c], e.h, e.w, y[1], y[2], y[3], y[4])]])
        pix(r) == e.rays[r][1] * e.w + e.rays[r][2] + 1
        m == TLCEval([r \in 1..R |-> IF e.crop = << >> THEN 1 ELSE e.crop[RayCam(e, r)][pix(r)]])
        f == TLCEval([r \in 1..R |-> IF e.fg = << >> THEN 0 ELSE e.fg[RayCam(e, r)][pix(r)]])
        sq(r) == SumSeq([c \in 1..3 |-> Sq(16 * s.rgb[r][c] - gt[r][c])])
        ab(r) == SumSeq([c \in 1..3 |-> Abs(16 * s.rgb[r][c] - gt[r][c])])
        mass == SumSeq(m)
        mean(F(_)) == SumSeq([r \in 1..R |-> m[r] * F(r)])
        fm == SumSeq([r \in 1..R |-> m[r] * f[r]])
        out == s.out
        img(b) == {r \in 1..R : RayCam(e, r) = b}
        seq(b) == SortedSeq(img(b))
        sub(b, F(_)) == [x \in 1..Len(seq(b)) |-> F(seq(b)[x])]
        B == Len(e.img)
        dd(b, fg) == DepthT(sub(b, LAMBDA r : s.dep[r]), sub(b, LAMBDA r : DepAt(e, b, e.rays[r])), 
                       sub(b, LAMBDA r : DepAt(e, b, e.rays[r]) > 0 /\ (IF fg THEN m[r] * f[r] > 2 ELSE m[r] = 1)), TRUE, FALSE)
        want == {"mask_beta_prior", "depth_neg_penalty"} \cup (IF e.hasimg THEN {"rgb_huber", "rgb_l1", "rgb_mse", "rgb_psnr"} ELSE {})
                  \cup (IF e.hasimg /\ e.fg # << >> THEN {"rgb_psnr_fg", "rgb_mse_fg"} ELSE {}) \cup (IF e.fg # << >> THEN {"mask_neg_iou", "mask_bce"} ELSE {})
                  \cup (IF e.dep # << >> THEN {"depth_abs"} \cup (IF e.fg # << >> THEN {"depth_abs_fg"} ELSE {}) ELSE {})
                  \cup (IF s.grad # << >> THEN {"eikonal"} ELSE {}) \cup (IF s.grid # << >> THEN {"density_tv"} ELSE {})
    IN  C("which metrics", SeqToSet(s.keys) = want) \cup
        (IF ~e.hasimg THEN {} ELSE
            C("rgb_mse", Near(out.rgb_mse, LD(mean(sq), 3 * 4096 * Max2(mass, 1)))) \cup C("rgb_l1", Near(out.rgb_l1, LD(mean(ab), 3 * 64 * Max2(mass, 1)))) \cup
            C("rgb_psnr", Near(out.rgb_psnr, IF mass = 0 THEN 0 ELSE LD(mean(sq), 3 * 4096 * mass))) \cup
            C("rgb_huber", Near(out.rgb_huber, RDiv(SumSeq([r \in 1..R |-> m[r] * RDiv((Root(T + 1 + RDiv(LD(sq(r) * 10, 12288) * 1000, 9)) - T) * 3, 100)]), Max2(mass, 1)))) \cup
            (IF e.fg = << >> THEN {} ELSE
                C("rgb_mse_fg", Near(out.rgb_mse_fg, LD(SumSeq([r \in 1..R |-> m[r] * f[r] * sq(r)]), 3 * 4096 * Max2(fm, 4)))) \cup
                C("rgb_psnr_fg", Near(out.rgb_psnr_fg, IF fm = 0 THEN 0 ELSE LD(SumSeq([r \in 1..R |-> m[r] * f[r] * sq(r)]), 3 * 4096 * fm))))) \cup
        C("mask_beta_prior", Near(out.mask_beta_prior, RDiv(SumSeq([r \in 1..R |-> BetaQ(s.mask[r])]), R))) \cup
        (IF e.fg = << >> THEN {} ELSE
            C("mask_bce", Close(out.mask_bce, BceT([p |-> s.mask, t |-> f, m |-> m, equal |-> TRUE, lerp |-> 0, eps |-> TRUE]), 6)) \cup
            (IF e.packed THEN {} ELSE C("mask_neg_iou", Close(T - out.mask_neg_iou,
                IouT([b \in 1..B |-> sub(b, LAMBDA r : s.mask[r])], [b \in 1..B |-> sub(b, LAMBDA r : f[r])], [b \in 1..B |-> sub(b, LAMBDA r : 4 * m[r])]), 6)))) \cup
        C("depth_neg_penalty", Near(out.depth_neg_penalty, RDiv(T * SumSeq([r \in 1..R |-> Sq(Min2(0, s.dep[r]))]), R))) \cup
        (IF e.dep = << >> \/ e.packed THEN {} ELSE
            C("depth_abs", Close(out.depth_abs, RDiv(SumSeq([b \in 1..B |-> dd(b, FALSE)[1]]), B), 20)) \cup
            (IF e.fg = << >> THEN {} ELSE C("depth_abs_fg", Close(out.depth_abs_fg, RDiv(SumSeq([b \in 1..B |-> dd(b, TRUE)[1]]), B), 20)))) \cup
        (IF s.grad = << >> THEN {} ELSE C("eikonal", Near(out.eikonal, RDiv(T * SumSeq(Map(Norms(s.grad), LAMBDA n : Sq(n - 1))), Len(s.grad))))) \cup
        (IF s.grid = << >> THEN {} ELSE C("density_tv", LET v == Flat([b \in 1..Len(s.grid) |-> TvT(s.grid, b)]) IN Close(out.density_tv, RDiv(SumSeq(v), Len(v)), 15)))
ViewConf(e) == UNION {StageConf(e, e.stages[i], i) : i \in 1..Len(e.stages)} \cup C("no other keys", e.other = << >>)

(* ---- evaluation of a batch ---- *)
Bg(e, c) == 16 * e.bg[c]
EvalConf(e) ==
    IF e.what # "ok" THEN C("refuses the batch", e.rejected) ELSE
    LET n == e.h * e.w
        at(f, z, p) == LET i == (p - 1) \div e.w j == (p - 1) % e.w IN f[z * i * z * e.w + z * j + 1]
        up(f, z, p) == LET i == (p - 1) \div e.w j == (p - 1) % e.w IN     \* image render in 1/16
            IF z = 1 THEN 4 * f[p] ELSE SumSeq([x \in 1..4 |-> f[(2 * i + ((x - 1) \div 2)) * 2 * e.w + 2 * j + ((x - 1) % 2) + 1]])
        fg == TLCEval([p \in 1..n |-> e.fg = << >> \/ e.fg[p] >= e.thr])
        m4 == TLCEval([p \in 1..n |-> 4 * (IF e.crop = << >> THEN 1 ELSE e.crop[p])])
        mf == [p \in 1..n |-> IF fg[p] THEN m4[p] ELSE 0]
        ren == TLCEval(<<[c \in 1..3 |-> [p \in 1..n |-> Clamp(up(e.ren[c], e.z, p), 0, 16)]]>>)
        full == TLCEval(<<[c \in 1..3 |-> [p \in 1..n |-> 4 * e.img[c][p]]]>>)
        msk == TLCEval(<<[c \in 1..3 |-> [p \in 1..n |-> IF fg[p] THEN 4 * e.img[c][p] ELSE 4 * e.bg[c]]]>>)
        mr == [p \in 1..n |-> at(e.mren, e.z, p)]
        dr == [p \in 1..n |-> at(e.dren, e.z, p)]
        gd == [p \in 1..n |-> IF e.dmask = << >> THEN e.dep[p] ELSE e.dep[p] * e.dmask[p]]
    IN  C("iou", Close(e.out.iou, IouT(<<mr>>, <<[p \in 1..n |-> IF fg[p] THEN 4 ELSE 0]>>, <<m4>>), 6)) \cup
        C("psnr_masked", Near(e.out.psnr_masked, MseT(ren, msk, <<m4>>, 16))) \cup C("rgb_l1_masked", Near(e.out.rgb_l1_masked, L1T(ren, msk, <<m4>>, 16)[1])) \cup
        C("psnr_fg", Near(e.out.psnr_fg, MseT(ren, msk, <<mf>>, 16))) \cup C("rgb_l1_fg", Near(e.out.rgb_l1_fg, L1T(ren, msk, <<mf>>, 16)[1])) \cup
        C("psnr_full_image", Near(e.out.psnr_full_image, MseT(ren, full, <<m4>>, 16))) \cup C("rgb_l1_full_image", Near(e.out.rgb_l1_full_image, L1T(ren, full, <<m4>>, 16)[1])) \cup
        (IF e.dep = << >> THEN C("no depth, no depth metric", ~e.hasdepth) ELSE
            C("depth_abs_fg", e.hasdepth /\ Close(e.out.depth_abs_fg, DepthT(dr, gd, DepthOk(gd, [p \in 1..n |-> mf[p] > 0], e.h, e.w, 5), TRUE, FALSE)[1], 40))) \cup
        C("meta", e.size = e.nb /\ e.type = e.types[1]) \cup C("the batch stays", e.kept)

(* ---- aggregation; a value is << >> (not a number) or <<v>> ---- *)
Mean(v) == IF Len(v) = 0 THEN << >> ELSE <<RDiv(T * SumSeq(v), 4 * Len(v))>>
VNear(a, b) == Len(a) = Len(b) /\ (Len(a) = 0 \/ Near(a[1], b[1]))
IsTrain(t) == t \in {"train_known", "train_unseen"}
Sets(e) == IF e.multi THEN << <<"train", "diff=all">>, <<"train", "n_src=1">>, <<"train", "n_src=3">>, <<"train", "n_src=5">>, <<"train", "n_src=7">>, <<"train", "n_src=9">>,
                              <<"test", "diff=all">>, <<"test", "n_src=1">>, <<"test", "n_src=3">>, <<"test", "n_src=5">>, <<"test", "n_src=7">>, <<"test", "n_src=9">> >>
                         ELSE << <<"test", "diff=all">> >>
NSrc(s) == CASE s = "n_src=1" -> 1 [] s = "n_src=3" -> 3 [] s = "n_src=5" -> 5 [] s = "n_src=7" -> 7 [] s = "n_src=9" -> 9 [] OTHER -> 0
InSet(e, s, r) == (~e.multi \/ IsTrain(r.type) = (s[1] = "train")) /\ (NSrc(s[2]) = 0 \/ r.size - 1 = NSrc(s[2]))
SummConf(e) ==
    C("groups", [i \in 1..Len(e.out) |-> <<e.out[i].subset, e.out[i].subsubset>>] = Sets(e)) \cup
    C("group means", \A i \in 1..Len(e.out) : LET sel == SelectSeq(e.batches, LAMBDA r : InSet(e, Sets(e)[i], r)) IN
        \A k \in 1..Len(e.names) : VNear(e.out[i].vals[k], Mean([j \in 1..Len(sel) |-> sel[j].vals[k]]))) \cup
    C("flat results", e.flat = Flat([i \in 1..Len(e.out) |-> [k \in 1..Len(e.names) |-> <<e.names[k] \o "|subset=" \o e.out[i].subset \o "|" \o e.out[i].subsubset, e.out[i].vals[k]>>]]))
AggConf(e) ==
    LET all == Flat(e.tasks) keys == SeqToSet([i \in 1..Len(all) |-> all[i].subset]) \X SeqToSet([i \in 1..Len(all) |-> all[i].subsubset]) IN
    C("one result per group", {<<e.out[i].subset, e.out[i].subsubset>> : i \in 1..Len(e.out)} = keys /\ Len(e.out) = Cardinality(keys)) \cup
    C("means of numbers", \A i \in 1..Len(e.out) : \A k \in 1..Len(e.names) :
        LET sel == SelectSeq(all, LAMBDA r : r.subset = e.out[i].subset /\ r.subsubset = e.out[i].subsubset /\ Len(r.vals[k]) = 1) IN
        VNear(e.out[i].vals[k], Mean([j \in 1..Len(sel) |-> sel[j].vals[k][1]])))
RunConf(e) ==
    C("the model does not see the targets", e.zeros /\ e.sources) \cup C("original frames stay", e.kept) \cup C("evaluation without gradients", e.nograd /\ e.evalmode) \cup
    C("results", \A i \in 1..Len(e.out) : LET sel == SelectSeq(e.batches, LAMBDA r : InSet(e, Sets(e)[i], r)) IN
        VNear(e.out[i].vals[1], Mean([j \in 1..Len(sel) |-> 3 * Abs(sel[j].a - sel[j].r)]))) \cup
    C("written results", IF e.dump THEN e.same /\ e.epoch = e.want ELSE ~e.wrote)

(* ---- point cloud of depth maps: integer rotations, focal length and principal point; positions in 1e-4 ---- *)
Ndc(h, w, i, j) == LET s == Min2(h, w) IN <<RDiv(T * (w - 2 * j - 1), s), RDiv(T * (h - 2 * i - 1), s)>>
CloudPts(e) == Flat([b \in 1..Len(e.dep) |-> Flat([p \in 1..e.h * e.w |-> LET i == (p - 1) \div e.w j == (p - 1) % e.w IN
    IF e.dep[b][p] > 0 /\ (e.mask = << >> \/ e.mask[b][p] > e.thr) THEN << <<b, i, j, p>> >> ELSE << >>])])
CloudConf(e) ==
    LET k == CloudPts(e)
        pt(q) == LET c == e.cams[q[1]] n == Ndc(e.h, e.w, q[2], q[3])
                     x == <<RDiv(n[1] - T * c.pp[1], c.f), RDiv(n[2] - T * c.pp[2], c.f), T>>
                     len == LenT([i \in 1..3 |-> RDiv(x[i], 10)])
                     z == RDiv(e.dep[q[1]][q[4]] * 100000000, len)
                     v == [i \in 1..3 |-> (IF e.eucl THEN RDiv(RDiv(x[i], 10) * RDiv(z, 10), 100) ELSE x[i] * e.dep[q[1]][q[4]]) - T * c.T[i]]
                 IN  [i \in 1..3 |-> Dot(c.R[i], v)]
    IN  C("one point per valid depth", Len(e.pts) = Len(k)) \cup
        (IF Len(e.pts) # Len(k) THEN {} ELSE C("points", \A i \in 1..Len(k) : VClose(e.pts[i], pt(k[i]), 60)) \cup
            C("colors", \A i \in 1..Len(k) : e.col[i] = [c \in 1..Len(e.img[1]) |-> e.img[k[i][1]][c][k[i][4]]]))

(* ---- cleanup: keep the depth pixels hit by points at that depth ---- *)
CleanConf(e) == C("depth mask", e.out = [b \in 1..Len(e.hits) |-> [p \in 1..e.h * e.w |-> IF \E x \in 1..Len(e.hits[b]) : e.hits[b][x][1] = p /\ e.hits[b][x][2] THEN 1 ELSE 0]])

(* ---- splatting of rays: discs around the rays, composited in the order of the rays ---- *)
SplatW(e, b, r, i, j) == LET q == e.rays[b][r] s == Min2(e.h, e.w) IN Max2(0, T - RDiv(T * e.n * (Sq(q[1] - i) + Sq(q[2] - j)), s * s))
SplatConf(e) ==
    C("sizes", e.shapes = << <<Len(e.rays), e.nc, e.h, e.w>>, <<Len(e.rays), 1, e.h, e.w>>, <<Len(e.rays), 1, e.h, e.w>> >>) \cup
    C("splatted features, depths and masks", \A b \in 1..Len(e.rays) : \A i \in 0..e.h - 1 : \A j \in 0..e.w - 1 :
        LET n == Len(e.rays[b])
            w == TLCEval([r \in 1..n |-> SplatW(e, b, r, i, j)])
            acc == FoldLeft(LAMBDA a, x : <<Append(a[1], M2(a[2], x)), M2(a[2], T - x)>>, << << >>, T>>, w)
            mix(v) == SumSeq([r \in 1..n |-> acc[1][r] * v[r]])
        IN  /\ \A c \in 1..e.nc : Close(e.img[b][c][i + 1][j + 1], mix([r \in 1..n |-> e.feat[b][r][c]]), 30)
            /\ Close(e.dep[b][i + 1][j + 1], mix(e.d[b]), 30)
            /\ Close(e.out[b][i + 1][j + 1], M2(RDiv(mix(e.mask[b]), 4), T - acc[2]), 30))

(* ---- the model: sampling modes, masks, pooling ---- *)
ModeConf(e) ==
    LET n == IF e.train THEN (IF e.nt <= 0 THEN e.nb ELSE Min2(e.nt, e.nb)) ELSE 1
        masked == IF e.train THEN e.mtrain ELSE e.meval
    IN  C("rays of the targets", e.shape = (IF masked THEN <<n, e.nrays, 1>> ELSE <<n, e.h, e.w>>)) \cup
        C("rays where the crop mask is on", ~masked \/ ~e.hasmask \/ \A r \in 1..Len(e.rays) : LET q == e.rays[r] IN
            e.mask[q[1]][q[2] * e.w + q[3] + 1] = 1 \/ \A p \in 1..e.h * e.w : e.mask[q[1]][p] = 0) \cup
        C("full grid in order", masked \/ e.rays = Flat([b \in 1..n |-> Flat([i \in 1..e.h |-> [j \in 1..e.w |-> <<b, i - 1, j - 1>>]])])) \cup
        C("renders", e.hasrender = (~masked \/ e.output) /\ (~e.hasrender \/ e.rshape = <<n, 3, e.h, e.w>>) /\ e.hasimp = ~masked) \cup
        C("features of all views for the targets", ~e.pooled \/ (e.seqp = SubSeq(e.seq, 1, n) /\ e.seqc = e.seq /\ e.ncam = e.nb /\ e.masks = e.mask /\ e.feats = e.img)) \cup
        C("penalty of the codes", e.haspen = (e.enc = "ad") /\ (~e.haspen \/ Close(e.pen, e.pwant, 3))) \cup
        C("single stage keys", e.stages = e.passes)

(* the background replaces the image by as much as the mask leaves free *)
BgOk(e) == Len(e.out) = Len(e.x) /\ \A b \in 1..Len(e.x) : \A i \in 1..Len(e.x[b]) : \A j \in 1..Len(e.x[b][i]) : \A k \in 1..3 :
    Abs(16 * e.out[b][i][j][k] - T * (e.m[b][i][j] * e.x[b][i][j][k] + (4 - e.m[b][i][j]) * e.c[k])) <= 32
S0(tr) == [x |-> 0]
Apply(s, e) == s
Conf(s, e) == CASE e.op = "mse" -> C("mean squared error", Near(e.out, MseT(e.x, e.y, e.m, 4))) \cup C("peak signal-to-noise ratio", Near(e.psnr, MseT(e.x, e.y, e.m, 4)))
                [] e.op = "l1" -> C("L1 error", \A b \in 1..Len(e.x) : Near(e.out[b], L1T(e.x, e.y, e.m, 4)[b]))
                [] e.op = "iou" -> C("intersection over union", Close(e.out, IouT(e.p, e.t, e.m), 6) /\ Close(e.neg, T - e.out, 1))
                [] e.op = "bce" -> C("binary cross entropy", Close(e.out, BceT(e), 8))
                [] e.op = "depth" -> DepthConf(e) [] e.op \in {"huber", "prior"} -> RegConf(e) [] e.op = "view" -> ViewConf(e)
                [] e.op = "eval" -> EvalConf(e) [] e.op = "summ" -> SummConf(e) [] e.op = "agg" -> AggConf(e) [] e.op = "run" -> RunConf(e)
                [] e.op = "cloud" -> CloudConf(e) [] e.op = "clean" -> CleanConf(e) [] e.op = "splat" -> SplatConf(e)
                [] e.op = "bg" -> C("masked background", BgOk(e)) [] OTHER -> ModeConf(e)
=============================================================================
