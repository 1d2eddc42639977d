-------------------------------- MODULE Frame --------------------------------
(* One frame of a dataset: image, foreground, depth and camera are built from files and annotations, then cropped and resized
   together so that every projected point stays on the same spot of the image; frames are collated to batches.
   Matrices are sequences of rows; image and foreground values in 1/25500 (100 * 255), depths in 1/800, pixels in 1/1000. *)
EXTENDS Lists
S0(tr) == [f |-> <<>>, ok |-> FALSE]
RoundDiv(a, b) == (2 * a + b) \div (2 * b)
Near(a, b, tol) == Abs(a - b) <= tol
Rows(m) == Len(m)
Cols(m) == Len(m[1])
Build(h, w, F(_, _)) == [i \in 1..h |-> [j \in 1..w |-> F(i, j)]]
NearM(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : Near(a[i][j], b[i][j], tol)
Cut(m, b) == LET x0 == Min2(Max2(b[1], 0), Cols(m)) x1 == Min2(Max2(b[3], 0), Cols(m)) y0 == Min2(Max2(b[2], 0), Rows(m)) y1 == Min2(Max2(b[4], 0), Rows(m))
             IN [i \in 1..(y1 - y0) |-> [j \in 1..(x1 - x0) |-> m[y0 + i][x0 + j]]]
Area(m, b) == Min2(Max2(b[3], 0), Cols(m)) > Min2(Max2(b[1], 0), Cols(m)) /\ Min2(Max2(b[4], 0), Rows(m)) > Min2(Max2(b[2], 0), Rows(m))
(* size of a mh x mw matrix fitted into h x w *)
Fit(mh, mw, h, w) == IF h * mw <= w * mh THEN <<h, (mw * h) \div mh>> ELSE <<(mh * w) \div mw, w>>
(* bilinear value at (i, j) (from 0) of m resized to oh x ow *)
Src(d, in, out) == LET n == (2 * d + 1) * in - out IN IF n < 0 THEN 0 ELSE n            \* in 1 / (2 out)
Bil(m, oh, ow, i, j) ==
    LET y == Src(i, Rows(m), oh) x == Src(j, Cols(m), ow) y0 == y \div (2 * oh) x0 == x \div (2 * ow) fy == y % (2 * oh) fx == x % (2 * ow)
        y1 == Min2(y0 + 1, Rows(m) - 1) x1 == Min2(x0 + 1, Cols(m) - 1)
        top == m[y0 + 1][x0 + 1] * (2 * ow - fx) + m[y0 + 1][x1 + 1] * fx
        bot == m[y1 + 1][x0 + 1] * (2 * ow - fx) + m[y1 + 1][x1 + 1] * fx
    IN RoundDiv(top * (2 * oh - fy) + bot * fy, 4 * oh * ow)
(* values a nearest neighbour resize may take (two on exact borders) *)
NN(d, in, out) == LET k == (d * in) \div out IN IF (d * in) % out = 0 /\ k > 0 THEN {k, k - 1} ELSE {k}
ResizedNN(m, h, w, o) == LET s == Fit(Rows(m), Cols(m), h, w) IN
    Len(o) = h /\ \A i \in 1..h : Len(o[i]) = w /\ \A j \in 1..w :
        IF i <= s[1] /\ j <= s[2] THEN \E a \in NN(i - 1, Rows(m), s[1]) : \E b \in NN(j - 1, Cols(m), s[2]) : o[i][j] = m[a + 1][b + 1] ELSE o[i][j] = 0
ResizedBil(m, h, w, o) == LET s == Fit(Rows(m), Cols(m), h, w) IN
    Len(o) = h /\ \A i \in 1..h : Len(o[i]) = w /\ \A j \in 1..w : IF i <= s[1] /\ j <= s[2] THEN Near(o[i][j], Bil(m, s[1], s[2], i - 1, j - 1), 4) ELSE o[i][j] = 0
Pasted(m, h, w) == LET s == Fit(Rows(m), Cols(m), h, w) IN Build(h, w, LAMBDA i, j : IF i <= s[1] /\ j <= s[2] THEN 1 ELSE 0)
(* ---------------------------------- boxes ---------------------------------- *)
(* box around the pixels above a threshold, which is lowered until there are more than one *)
Above(m, j) == {p \in (1..Rows(m)) \X (1..Cols(m)) : IF j >= 9 THEN TRUE ELSE 20 * (m[p[1]][p[2]] \div 100) > 2040 - 255 * j}
MaskBox(m) == LET few == Min2(1, Rows(m) * Cols(m) - 1)
                  j == CHOOSE j \in 0..9 : Cardinality(Above(m, j)) > few /\ \A i \in 0..(j - 1) : Cardinality(Above(m, i)) <= few
                  P == Above(m, j) ys == {p[1] : p \in P} xs == {p[2] : p \in P}
                  lo(X) == CHOOSE x \in X : \A y \in X : x <= y
                  hi(X) == CHOOSE x \in X : \A y \in X : x >= y
              IN <<lo(xs) - 1, lo(ys) - 1, hi(xs) - lo(xs) + 1, hi(ys) - lo(ys) + 1>>
(* boxes x, y, width, height in 1/64 pixel; context c in 1/8; -> corners in 1/64 *)
Expand(b, c) == LET w == b[3] h == b[4] IN <<b[1] - (w * c) \div 16, b[2] - (h * c) \div 16, w + (w * c) \div 8, h + (h * c) \div 8>>
Corners(b) == <<b[1], b[2], b[1] + Max2(b[3], 128), b[2] + Max2(b[4], 128)>>
HalfEven(n) == LET k == n \div 64 r == n % 64 IN IF r > 32 \/ (r = 32 /\ k % 2 = 1) THEN k + 1 ELSE k
ClampTo(x, hi) == IF x < 0 THEN 0 ELSE IF x > hi THEN hi ELSE x
Box(b, c, H, W) == LET q == Corners(Expand(b, c)) IN
    <<HalfEven(ClampTo(q[1], 64 * W)), HalfEven(ClampTo(q[2], 64 * H)), HalfEven(ClampTo(q[3], 64 * W)), HalfEven(ClampTo(q[4], 64 * H))>>
Squashed(b, c) == LET q == Expand(b, c) IN q[3] <= 64 \/ q[4] <= 64
DepthBox(b, H, W, m) == LET n == Rows(m) * W + Cols(m) * H d == 2 * H * W IN [k \in 1..4 |-> (b[k] * n) \div d]
(* ---------------------------------- operations on a frame ---------------------------------- *)
CropOk(f, b) == (f.img # <<>> => Area(f.img, b)) /\ (f.fg # <<>> => Area(f.fg, b)) /\ (f.depth # <<>> => Area(f.depth, DepthBox(b, f.H, f.W, f.depth)))
                /\ (f.dm # <<>> => Area(f.dm, DepthBox(b, f.H, f.W, f.dm)))
CutIf(m, b) == IF m = <<>> THEN <<>> ELSE Cut(m, b)
Crop(f, b) == [f EXCEPT !.img = CutIf(@, b), !.fg = CutIf(@, b), !.mc = CutIf(@, b), !.depth = IF @ = <<>> THEN @ ELSE Cut(@, DepthBox(b, f.H, f.W, @)),
                        !.dm = IF @ = <<>> THEN @ ELSE Cut(@, DepthBox(b, f.H, f.W, @)), !.H = b[4] - b[2], !.W = b[3] - b[1], !.whole = FALSE,
                        !.pts = [k \in 1..Len(@) |-> <<@[k][1] - 1000 * b[1], @[k][2] - 1000 * b[2]>>]]
Scaled(x, f, h, w) == IF h * f.W <= w * f.H THEN RoundDiv(x * h, f.H) ELSE RoundDiv(x * w, f.W)
(* conformance of an observed frame e with f cropped (exact) or built *)
Same(f, e) ==
    C("image", NearM(f.img, e.img, 2)) \cup C("foreground", NearM(f.fg, e.fg, 0)) \cup C("depth", NearM(f.depth, e.depth, 1)) \cup C("depth mask", f.dm = e.dm)
    \cup C("valid pixels", f.mc = e.mc) \cup C("size", e.eff = <<f.H, f.W>>)
    \cup C("projected points stay in place", Len(f.pts) = Len(e.pts) /\ \A k \in 1..Len(f.pts) : Near(f.pts[k][1], e.pts[k][1], 6 + Abs(f.pts[k][1]) \div 20000) /\ Near(f.pts[k][2], e.pts[k][2], 6 + Abs(f.pts[k][2]) \div 20000))
Resized(f, e, h, w) ==
    C("image", IF f.img = <<>> THEN e.img = <<>> ELSE ResizedBil(f.img, h, w, e.img))
    \cup C("foreground", IF f.fg = <<>> THEN e.fg = <<>> ELSE ResizedNN(f.fg, h, w, e.fg))
    \cup C("depth", IF f.depth = <<>> THEN e.depth = <<>> ELSE ResizedNN(f.depth, h, w, e.depth))
    \cup C("depth mask", IF f.dm = <<>> THEN e.dm = <<>> ELSE ResizedNN(f.dm, h, w, e.dm))
    \cup C("valid pixels", IF f.img = <<>> THEN e.mc = f.mc ELSE IF f.mc = <<>> THEN e.mc = Pasted(f.img, h, w) ELSE ResizedNN(f.mc, h, w, e.mc))
    \cup C("size", e.eff = <<h, w>>)
    \cup C("projected points are scaled", Len(f.pts) = Len(e.pts) /\ \A k \in 1..Len(f.pts) : \A a \in 1..2 : LET v == Scaled(f.pts[k][a], f, h, w) IN Near(v, e.pts[k][a], 8 + Abs(v) \div 20000))
Obs(f, e) == [f EXCEPT !.img = e.img, !.fg = e.fg, !.depth = e.depth, !.dm = e.dm, !.mc = e.mc, !.H = e.eff[1], !.W = e.eff[2], !.pts = e.pts, !.whole = e.op = "build" /\ ~e.crop /\ e.size = <<>>]
(* ---------------------------------- construction ---------------------------------- *)
FgSrc(e) == IF e.maskfile /\ e.lmask THEN e.fgfile ELSE IF e.rgba /\ e.limg THEN e.alpha ELSE <<>>
Mul(m, k) == Build(Rows(m), Cols(m), LAMBDA i, j : m[i][j] * k)
MulM(m, g) == Build(Rows(m), Cols(m), LAMBDA i, j : RoundDiv(m[i][j] * g[i][j], 255))
DepthVal(v, sc) == IF v < 0 THEN 0 ELSE v * sc * 50            \* v in 1/8, sc in 1/2 -> 1/800
Point(e, k) ==   (* pixel coordinates of world point k: camera coordinates X = P R + T with R a signed permutation *)
    LET P == e.world[k] X == [a \in 1..3 |-> e.cam.sign[a] * P[e.cam.perm[a]] + e.cam.T[a]] m == Min2(e.H, e.W)
        px(a, n) == LET r == IF e.cam.iso THEN m ELSE n IN RoundDiv((n * 8 * X[3] - (e.cam.f[a] * X[a] + e.cam.p[a] * X[3]) * r) * 125, 2 * X[3])
    IN <<px(1, e.W), px(2, e.H)>>
Built(e) ==
    LET g == FgSrc(e)
        im0 == IF e.limg THEN Mul(e.imgfile, 100) ELSE <<>>
        im == IF im0 # <<>> /\ e.mimg THEN MulM(im0, g) ELSE im0
        d0 == IF e.ldepth /\ e.depthfile # <<>> THEN Build(Rows(e.depthfile), Cols(e.depthfile), LAMBDA i, j : DepthVal(e.depthfile[i][j], e.scale)) ELSE <<>>
        d == IF d0 # <<>> /\ e.mdepth THEN MulM(d0, g) ELSE d0
        dm == IF d = <<>> THEN <<>> ELSE IF e.ldm /\ e.dmfile # <<>> THEN e.dmfile ELSE Build(Rows(d), Cols(d), LAMBDA i, j : IF d[i][j] > 0 THEN 1 ELSE 0)
    IN [img |-> im, fg |-> IF g = <<>> THEN <<>> ELSE Mul(g, 100), depth |-> d, dm |-> dm, mc |-> <<>>, H |-> e.H, W |-> e.W, whole |-> TRUE,
        hasbox |-> e.hasbox \/ g # <<>>,
        box |-> IF e.hasbox THEN [k \in 1..4 |-> 16 * e.box[k]] ELSE IF g # <<>> THEN [k \in 1..4 |-> 64 * MaskBox(Mul(g, 100))[k]] ELSE <<>>,
        pts |-> IF e.hascam THEN [k \in 1..Len(e.world) |-> Point(e, k)] ELSE <<>>]
BadSize(e) == (e.limg \/ (e.maskfile /\ e.lmask)) /\ e.wrongsize
NoFg(e) == FgSrc(e) = <<>> /\ ((e.mimg /\ e.limg) \/ (e.mdepth /\ e.ldepth /\ e.depthfile # <<>>))
BuildConf(e) ==
    IF BadSize(e) \/ NoFg(e) THEN C("wrong sizes and missing masks are rejected", e.rejected) ELSE
    LET f == Built(e) b == Box(f.box, e.ctx, f.H, f.W) IN
    IF e.crop /\ (~f.hasbox \/ Squashed(f.box, e.ctx)) THEN C("no box to crop is rejected", e.rejected)
    ELSE IF e.crop /\ ~CropOk(f, b) THEN C("an empty crop is rejected", e.rejected)
    ELSE C("accepted", ~e.rejected) \cup (IF e.rejected THEN {} ELSE
         C("bounding box", IF f.hasbox THEN e.obox = f.box ELSE e.obox = <<>>)
         \cup LET g == IF e.crop THEN Crop(f, b) ELSE f IN
              (IF e.crop THEN C("crop box", e.ocrop = <<b[1], b[2], b[3] - b[1], b[4] - b[2]>>) ELSE {})
              \cup IF e.size = <<>> THEN Same(g, e) ELSE Resized(g, e, e.size[1], e.size[2]))
Apply(s, e) ==
    CASE e.op = "build" -> IF e.rejected THEN s ELSE [s EXCEPT !.ok = TRUE, !.f = Obs(Built(e), e)]
      [] e.op \in {"crop", "resize"} -> IF e.rejected THEN [s EXCEPT !.ok = FALSE] ELSE [s EXCEPT !.f = Obs(s.f, e)]
      [] OTHER -> s
(* ---------------------------------- batches ---------------------------------- *)
CollateConf(e) ==
    UNION {LET x == e.fields[k] IN C("batched field " \o x.name, IF \E i \in 1..Len(x.has) : ~x.has[i] THEN x.none ELSE ~x.none /\ x.got = x.vals) : k \in 1..Len(e.fields)}
    \cup C("point clouds", IF \E i \in 1..Len(e.pcl) : e.pcl[i] = 0 THEN ~e.haspcl
                           ELSE e.haspcl /\ Cardinality({e.clouds[i] : i \in 1..Len(e.clouds)}) = Len(e.clouds) /\ \A i \in 1..Len(e.pcl) : e.clouds[e.idx[i] + 1] = e.pcl[i])
Conf(s, e) ==
    CASE e.op = "build" -> BuildConf(e)
      [] e.op = "crop" ->
            LET b0 == IF e.meta THEN s.f.box ELSE [k \in 1..4 |-> 16 * e.box[k]] IN
            IF e.meta /\ (~s.f.hasbox \/ ~s.f.whole) THEN C("box of another image is rejected", e.rejected)
            ELSE IF Squashed(b0, e.ctx) THEN C("empty boxes are rejected", e.rejected)
            ELSE LET b == Box(b0, e.ctx, s.f.H, s.f.W) IN
                 IF ~CropOk(s.f, b) THEN C("an empty crop is rejected", e.rejected)
                 ELSE C("accepted", ~e.rejected) \cup (IF e.rejected THEN {} ELSE
                      C("crop box", e.ocrop = <<b[1], b[2], b[3] - b[1], b[4] - b[2]>>) \cup Same(Crop(s.f, b), e))
      [] e.op = "resize" -> C("accepted", ~e.rejected) \cup (IF e.rejected THEN {} ELSE Resized(s.f, e, e.size[1], e.size[2]))
      [] e.op = "maskbox" -> C("box around the mask", e.box = MaskBox(Mul(e.m, 100)))
      [] e.op = "collate" -> CollateConf(e)
      [] OTHER -> {}
=============================================================================
