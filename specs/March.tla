------------------------------- MODULE March -------------------------------
(* Sampling along rays by a piecewise constant density, refinement of ray points, ray marching with
   emission-absorption or cumulative sums, multi-pass rendering, conical frustums, harmonic
   embeddings and the ray bundles of implicitron. *)
EXTENDS Trig
H == 16384

(* ---- inverse of the cumulative distribution ---- *)
(* cumulated weight (times 1000) at v for bins b (same unit as v) and integer weights w *)
G2(b, w, v) == LET c == First(w) IN
    IF v <= b[1] THEN 0 ELSE IF v >= b[Len(b)] THEN 1000 * SumSeq(w) ELSE
    LET i == CHOOSE i \in 1..Len(w) : b[i] <= v /\ v < b[i + 1]
        d == b[i + 1] - b[i] x == w[i] * (v - b[i]) IN
    1000 * c[i] + 1000 * (x \div d) + RDiv(1000 * (x % d), d)
(* v is where a share num/den of the weight has been passed, up to two units of v *)
IsQuantile(b, w, v, num, den, slack) ==
    LET W == SumSeq(w) t == RDiv(1000 * W * num, den) tol == 2 + W \div 20 + slack IN
    /\ b[1] - 1 <= v /\ v <= b[Len(b)] + 1
    /\ G2(b, w, v - 2) - tol <= t /\ t <= G2(b, w, v + 2) + tol
(* v lies in some bin with weight *)
InSupport(b, w, v) == \E i \in 1..Len(w) : w[i] > 0 /\ b[i] - 2 <= v /\ v <= b[i + 1] + 2
VS(b) == [i \in 1..Len(b) |-> 1000 * b[i]]

PdfConf(e) ==
    IF e.what # "ok" THEN C("refuses " \o e.what, e.rejected) ELSE
    C("number of samples", Len(e.v) = Len(e.bins) /\ \A i \in 1..Len(e.v) : Len(e.v[i]) = e.n) \cup
    C("quantiles", e.mode = "rand" \/ \A i \in 1..Len(e.bins) : \A j \in 1..e.n :
        IsQuantile(VS(e.bins[i]), e.w[i], e.v[i][j], IF e.mode = "det" THEN j - 1 ELSE e.u[i][j], IF e.mode = "det" THEN Max2(1, e.n - 1) ELSE 1024, 0)) \cup
    C("random samples fall where there is weight", e.mode # "rand" \/ \A i \in 1..Len(e.bins) : \A j \in 1..e.n : InSupport(VS(e.bins[i]), e.w[i], e.v[i][j])) \cup
    C("rows beyond the batch are not touched", e.guard)

(* ---- refinement ---- *)
Blur(w) == LET n == Len(w) m == [i \in 1..n + 1 |-> IF i = 1 THEN w[1] ELSE IF i > n THEN w[n] ELSE Max2(w[i - 1], w[i])] IN
    [i \in 1..n |-> m[i] + m[i + 1]]
Mids(z) == [i \in 1..Len(z) - 1 |-> RDiv(z[i] + z[i + 1], 2)]
Sorted(z) == \A i \in 1..Len(z) - 1 : z[i] <= z[i + 1]
(* sorted list r minus the sorted list a, as bags: <<all of a found, rest>> *)
RECURSIVE Minus(_, _)
Minus(r, a) == IF a = << >> THEN <<TRUE, r>> ELSE IF r = << >> THEN <<FALSE, << >> >> ELSE
    IF Head(r) = Head(a) THEN Minus(Tail(r), Tail(a)) ELSE
    LET m == Minus(Tail(r), a) IN <<m[1], <<Head(r)>> \o m[2]>>
(* z (sorted) is the refinement of z0 with weights w *)
RefineBad(z0, w0, z, o) ==
    LET w1 == IF o.blur THEN Blur(w0) ELSE w0
        b == IF o.bins THEN z0 ELSE Mids(z0)
        w == IF o.bins THEN w1 ELSE SubSeq(w1, 2, Len(w1) - 1)
        n == IF o.bins THEN o.n + 1 ELSE o.n
        m == IF o.add THEN Minus(z, z0) ELSE <<TRUE, z>>
        x == m[2]
    IN  C("refined points are sorted", Sorted(z)) \cup
        C("coarse points are kept", m[1]) \cup
        C("number of refined points", Len(x) = n) \cup
        C("refined points follow the weights", ~m[1] \/ Len(x) # n \/ SumSeq(w) = 0 \/
             IF o.random THEN \A j \in 1..n : InSupport(b, w, x[j]) ELSE \A j \in 1..n : IsQuantile(b, w, x[j], j - 1, Max2(1, n - 1), o.slack))
RefineConf(e) == UNION {RefineBad(VS(e.z0[i]), e.w[i], e.z[i], e.o) : i \in 1..Len(e.z0)} \cup
    C("the input bundle is not changed", e.intact) \cup C("other members of the bundle are kept", e.kept)

(* ---- marching ---- *)
P2(k) == IF k > 20 THEN 1048576 ELSE 2 ^ k
Exp2N(k) == IF k >= 0 THEN RDiv(H, P2(k)) ELSE H * P2(-k)          \* 2^-k
INF == 100
(* optical depth of every interval: units log 2 (emission-absorption) or 1/64 (cumulative sum) *)
Deltas(e, l) == LET n == Len(l) IN
    [i \in 1..n |-> IF i < n THEN l[i + 1] - l[i] ELSE IF e.o.repl THEN l[n] - l[n - 1] ELSE e.o.bgop]
Depths(e, i) == LET l == e.len[i] n == Len(l)
                    d == IF e.o.deltas THEN e.del[i] ELSE Deltas(e, l)
                    a == [j \in 1..n |-> IF e.o.relu THEN Max2(0, e.dens[i][j]) ELSE e.dens[i][j]] IN
    [j \in 1..n |-> IF a[j] = 0 THEN 0 ELSE IF d[j] = INF THEN INF ELSE Min2(INF, a[j] * d[j])]
Cap(kind, x) == IF kind = "ea" THEN H - Exp2N(x) ELSE IF x >= 64 THEN H ELSE x * 256
Wgt(e, i) == LET x == Depths(e, i) n == Len(x) t == e.o.thick
                 Before(j) == IF j <= t THEN H ELSE H - Cap(e.o.kind, Min2(INF, SumSeq(SubSeq(x, 1, j - t))))
                 C1(j) == Cap(e.o.kind, x[j]) IN
    [j \in 1..n |-> IF e.o.kind = "ea" THEN RDiv(C1(j) * Before(j), H) ELSE Min2(C1(j), Before(j))]
Opac(e, i) == Cap(e.o.kind, Min2(INF, SumSeq(Depths(e, i))))
MarchConf(e) ==
    IF e.what # "ok" THEN C("refuses " \o e.what, e.rejected) ELSE
    LET R == 1..Len(e.len)
        n == Len(e.len[1])
        w == TLCEval([i \in R |-> Wgt(e, i)])
        op == TLCEval([i \in R |-> Opac(e, i)])
        D == Len(e.feat[1][1])
        bg == IF Len(e.o.bg) = 1 THEN Rep(D, e.o.bg[1]) ELSE e.o.bg
        F(i, c) == SumSeq([j \in 1..n |-> w[i][j] * e.feat[i][j][c]])
        FE(i, c) == IF e.o.blend THEN RDiv((op[i] \div 4) * RDiv(F(i, c), 16), H \div 4) ELSE RDiv(F(i, c), 16)
        Ex(i, c) == FE(i, c) + RDiv((H - op[i]) * bg[c], 16)
    IN  C("weights", \A i \in R : VClose(e.w[i], w[i], 3)) \cup
        C("mask", \A i \in R : Close(e.mask[i], op[i], 3)) \cup
        C("features", \A i \in R : \A c \in 1..D : Close(e.out[i][c], Ex(i, c), 8)) \cup
        C("depth", \A i \in R : Close(e.depth[i], SumSeq([j \in 1..n |-> w[i][j] * e.len[i][j]]), 3 * (5 + 20 * n))) \cup
        C("aux is handed through", e.aux)

(* ---- several passes ---- *)
MultiConf(e) ==
    IF e.what # "ok" THEN C("refuses " \o e.what, e.rejected) ELSE
    LET m == Len(e.st)
        W(s) == LET x == e.st[s].k n == Len(x) IN [j \in 1..n |-> RDiv((H - Exp2N(x[j])) * Exp2N(Min2(INF, SumSeq(SubSeq(x, 1, j - 1)))), H)]
        Op(s) == H - Exp2N(Min2(INF, SumSeq(e.st[s].k)))
    IN  C("every function is evaluated once", m = e.m) \cup
        C("chain of stages", e.chain = m) \cup
        C("weights returned on demand only", \A s \in 1..m : e.st[s].hasw = e.o.retw) \cup
        C("stage weights", ~e.o.retw \/ \A s \in 1..m : VClose(e.st[s].w, W(s), 8)) \cup
        C("stage masks", \A s \in 1..m : Close(e.st[s].mask, Op(s), 8)) \cup
        C("stage depths", \A s \in 1..m : Close(e.st[s].depth, RDiv(SumSeq([j \in 1..Len(e.st[s].len) |-> RDiv(W(s)[j] * (e.st[s].len[j] \div 8), 1024)]), 2), 40)) \cup
        C("first points", e.st[1].z = VS(e.z0)) \cup
        UNION {LET w == [j \in 1..Len(W(s)) |-> RDiv(W(s)[j], 16)] IN
               RefineBad(e.st[s].z, w, e.st[s + 1].z, e.o) : s \in 1..m - 1}

(* ---- conical frustums ---- *)
Q(num, den) == IF Abs(num) < 1000000 THEN RDiv(1000 * num, den) ELSE RDiv(num, RDiv(den, 1000))
ConeConf(e) ==
    IF e.what # "ok" THEN C("refuses " \o e.what, e.rejected) ELSE
    LET N == Len(e.bins) - 1
        A(i, k) == e.bins[i + 1] ^ k - e.bins[i] ^ k
        mean(i) == Q(3 * A(i, 4), 4 * A(i, 3))
        vt(i) == Q(48 * A(i, 5) * A(i, 3) - 45 * A(i, 4) * A(i, 4), 80 * A(i, 3) * A(i, 3))
        vr(i) == RDiv(Q(e.r * e.r * 3 * A(i, 5), 20 * A(i, 3)), 16)     \* radius in quarters
        d2 == N2(e.d)
    IN  C("means of the frustums", Len(e.mean) = N /\ \A i \in 1..N : \A c \in 1..3 : Close(e.mean[i][c], 1000 * e.org[c] + e.d[c] * mean(i), 3 + 2 * Abs(e.d[c]))) \cup
        C("variances of the frustums", Len(e.cov) = N /\ \A i \in 1..N : \A c \in 1..3 :
            LET x == vt(i) * e.d[c] * e.d[c] + RDiv(vr(i) * (d2 - e.d[c] * e.d[c]), d2) IN Close(e.cov[i][c], x, 4 + 3 * e.d[c] * e.d[c] + x \div 500))

(* ---- harmonic embedding ---- *)
(* frequency j (0-based) as a fraction <<p, q>> *)
FreqP(o, j) == IF o.log THEN <<P2(j) * o.om, 4>> ELSE
    IF o.n = 1 THEN <<o.om, 4>> ELSE <<((o.n - 1) + j * (P2(o.n - 1) - 1)) * o.om, 4 * (o.n - 1)>>
HarmConf(e) ==
    LET o == e.o n == o.n d == Len(e.x)
        S(i, j, ph) == LET f == FreqP(o, j) x == RDiv(10 * e.x[i] * f[1], f[2]) IN IF ph = 0 THEN Sin(x) ELSE Cos(x)
        (* covariance 2 log 2 c / 1 : factor 2^-(c f^2) *)
        K(i, j) == IF e.cov = << >> THEN 0 ELSE LET f == FreqP(o, j) IN IF f[1] \div f[2] > 20 THEN 40 ELSE Min2(40, (e.cov[i] * f[1] * f[1]) \div (f[2] * f[2]))
        Amp(v, k) == IF k > 20 THEN 0 ELSE RDiv(v, P2(k))
        want == Flat([q \in 1..2 |-> Flat([i \in 1..d |-> [jj \in 1..n |-> Amp(S(i, jj - 1, q - 1), K(i, jj - 1))]])]) \o (IF o.app THEN [i \in 1..d |-> 10 * e.x[i]] ELSE << >>)
    IN  C("embedding dimension", Len(e.out) = e.dim /\ e.dim = d * (2 * n + (IF o.app THEN 1 ELSE 0)) /\ e.dims = e.dim) \cup
        C("embedding", Len(e.out) = Len(want) /\ VClose(e.out, want, 12))

(* ---- ray bundles ---- *)
BundleConf(e) ==
    CASE e.what = "lengths" -> C("lengths are the midpoints of the bins", e.len = [i \in 1..Len(e.bins) - 1 |-> e.bins[i] + e.bins[i + 1]]) \cup C("lengths cannot be set besides bins", e.setrej)
      [] e.what = "set" -> C("lengths as set", e.len = e.new)
      [] e.what = "padded" ->
           LET mx == MaxSeq(e.counts, 0) f == First(e.counts) IN
           C("first rays", e.first = f) \cup C("number of rays", e.num = SumSeq(e.counts)) \cup
           C("padded pixels", e.pad = [i \in 1..Len(e.counts) |-> [j \in 1..mx |-> IF j <= e.counts[i] THEN e.xys[f[i] + j] ELSE <<0, 0>>]])
      [] e.what = "bind" -> C("bound arguments win, call arguments stay", e.seen = e.want) \cup C("the function hears of the binding", e.heard = e.binds)
      [] OTHER -> C("refuses " \o e.what, e.rejected)

S0(tr) == 0
Apply(s, e) == s
Conf(s, e) == CASE e.op = "pdf" -> PdfConf(e) [] e.op = "refine" -> RefineConf(e) [] e.op = "march" -> MarchConf(e)
                [] e.op = "multi" -> MultiConf(e) [] e.op = "cone" -> ConeConf(e) [] e.op = "harm" -> HarmConf(e) [] OTHER -> BundleConf(e)
=============================================================================
