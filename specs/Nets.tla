-------------------------------- MODULE Nets --------------------------------
(* Implicit functions, decoders, global encoders and the glue of the models around them.
   Networks have integer weights; states: the key map of an autodecoder, the cached hypernet function. *)
EXTENDS Trig
Lin(l, x) == [i \in 1..Len(l.w) |-> Dot(l.w[i], x) + l.b[i]]
Relu(x) == [i \in 1..Len(x) |-> Max2(0, x[i])]
HasN(s, n) == \E i \in 1..Len(s) : s[i] = n

(* ---- multi layer perceptron with input skips (layer indices count from 0) ---- *)
NSkips(e, i) == Cardinality({j \in 1..i - 1 : HasN(e.skips, j)})
Affine(e, k, y, z) == LET h == Len(y) a == Lin(e.aff[k].l2, Relu(Lin(e.aff[k].l1, z))) IN [d \in 1..h |-> (y[d] - a[d]) * a[h + d]]
RECURSIVE MlpAux(_, _, _, _)
MlpAux(e, i, y, z) == IF i = Len(e.layers) THEN y ELSE
    LET x == IF i > 0 /\ HasN(e.skips, i) THEN (IF e.affine THEN Affine(e, NSkips(e, i) + 1, y, z) ELSE y \o z) ELSE y
        r == TLCEval(Lin(e.layers[i + 1], x))
    IN  MlpAux(e, i + 1, IF i + 1 < Len(e.layers) \/ e.act = "relu" THEN Relu(r) ELSE r, z)
Mlp(e, x, z) == MlpAux(e, 0, x, z)
MlpConf(e) == C("perceptron", e.out = [k \in 1..Len(e.x) |-> Mlp(e, e.x[k], IF e.ownz THEN e.z[k] ELSE e.x[k])]) \cup C("the input stays", e.kept)

(* logistic function and softplus at integers, 1e-4 *)
Sig(n) == LET t == <<5000, 7311, 8808, 9526, 9820, 9933, 9975, 9991, 9997, 9999>> a == IF Abs(n) > 9 THEN T ELSE t[Abs(n) + 1] IN IF n >= 0 THEN a ELSE T - a
Sof(n) == LET t == <<6931, 13133, 21269, 30486, 40181, 50067, 60025, 70009, 80003, 90001>> a == IF Abs(n) > 9 THEN T * Abs(n) ELSE t[Abs(n) + 1] IN IF n >= 0 THEN a ELSE a + T * n
ElemConf(e) == C("elementwise decoder", \A k \in 1..Len(e.x) : LET y == e.x[k] * e.scale + e.shift IN
    Close(e.out[k], CASE e.act = "relu" -> T * Max2(0, y) [] e.act = "identity" -> T * y [] e.act = "sigmoid" -> Sig(y) [] OTHER -> Sof(y), 2))
RepConf(e) == C("linear layer with repeated inputs", e.out = [r \in 1..Len(e.x) |-> [k \in 1..Len(e.x[r]) |-> Lin(e.l, e.x[r][k] \o e.y[r])]])

(* ---- signed distance field: skips by concatenation over sqrt(2), sharp softplus ---- *)
LinT(l, x) == [i \in 1..Len(l.w) |-> SumSeq([j \in 1..Len(x) |-> l.w[i][j] * x[j]]) + T * l.b[i]]
(* over the square root of two, without overflow *)
Root2(v) == (v \div T) * 7071 + RDiv((v % T) * 7071, T)
RECURSIVE IdrAux(_, _, _, _)
IdrAux(e, i, y, z) == IF i = Len(e.layers) THEN y ELSE
    LET x == IF HasN(e.skips, i) THEN [d \in 1..Len(y) + Len(z) |-> Root2((IF d <= Len(y) THEN y[d] ELSE z[d - Len(y)]))] ELSE y
        r == TLCEval(LinT(e.layers[i + 1], x))
    IN  IdrAux(e, i + 1, IF i + 1 < Len(e.layers) THEN Relu(r) ELSE r, z)
IdrConf(e) ==
    IF e.what = "both" THEN C("refuses two sources of points", e.rejected) ELSE IF e.what = "none" THEN C("refuses missing points", e.rejected) ELSE
    IF e.what = "empty" THEN C("no points, no values", e.out = << >> /\ e.odim = e.dim) ELSE
    C("signed distance field", Len(e.out) = Len(e.pts) /\ \A k \in 1..Len(e.pts) :
        VClose(e.out[k], LET z == VScale(T, e.pts[k] \o e.code) IN IdrAux(e, 0, z, z), e.tol))

(* ---- radiance fields ---- *)
View(c, p) == [j \in 1..3 |-> SumSeq([i \in 1..3 |-> p[i] * c.R[i][j]]) + c.T[j]]
Turn(c, d) == [j \in 1..3 |-> SumSeq([i \in 1..3 |-> d[i] * c.R[i][j]])]
RayPt(e, b, r, k) == VAdd(e.org[b][r], VScale(e.len[b][r][k], e.dir[b][r]))
DirT(e, b, r) == LET d == IF e.incam THEN Turn(e.cams[b], e.dir[b][r]) ELSE e.dir[b][r] IN UnitT(d)
NerfConf(e) ==
    LET B == Len(e.org) R == Len(e.org[1]) K == Len(e.len[1][1])
        emb(b, r, k) == LET p == RayPt(e, b, r, k) IN (IF e.incam THEN View(e.cams[b], p) ELSE p) \o (IF e.code # << >> THEN e.code[b] ELSE << >>)
        feat == TLCEval([b \in 1..B |-> [r \in 1..R |-> [k \in 1..K |-> LET x == emb(b, r, k) IN Mlp(e, x, x)]]])
        col(b, r, k) == LinT(e.c2, Relu(LinT(e.c1, (IF e.inter THEN VScale(T, Lin(e.i1, feat[b][r][k])) ELSE VScale(T, feat[b][r][k])) \o DirT(e, b, r))))
    IN  IF e.what # "ok" THEN C("refuses a missing camera", e.rejected) ELSE
        (IF e.inter THEN {} ELSE C("ray march features", e.feat = feat)) \cup
        C("densities", e.den = [b \in 1..B |-> [r \in 1..R |-> [k \in 1..K |-> Lin(e.d1, feat[b][r][k])]]]) \cup
        C("colors", Len(e.col) = B /\ \A b \in 1..B : Len(e.col[b]) = R /\ \A r \in 1..R : Len(e.col[b][r]) = K /\ \A k \in 1..K : VClose(e.col[b][r][k], col(b, r, k), 100))

(* ---- hypernetwork cache: s = <<has, code>> ---- *)
HyperConf(s, e) ==
    CASE e.op = "bind" -> {}
      [] OTHER -> LET use == IF s[1] THEN s[2] ELSE e.code IN
          C("weights come from the code of the first evaluation after binding", e.used = use) \cup C("the hypernetwork runs once per binding", e.ran = ~s[1]) \cup
          C("number of features", e.nout = e.outf) \cup C("function of the points and the code", e.same)
(* ---- autodecoder: s = names in the order of their ids ---- *)
Add(s, n, max) == IF \E i \in 1..Len(s) : s[i] = n THEN s ELSE IF Len(s) >= max THEN s ELSE Append(s, n)
RECURSIVE AddAll(_, _, _)
AddAll(s, ns, max) == IF ns = << >> THEN s ELSE
    LET t == Add(s, Head(ns), max) IN IF \E i \in 1..Len(t) : t[i] = Head(ns) THEN AddAll(t, Tail(ns), max) ELSE t
Known(s, ns) == \A i \in 1..Len(ns) : \E j \in 1..Len(s) : s[j] = ns[i]
Names(e) == IF e.ignore THEN Rep(Len(e.names), "singleton") ELSE e.names
AutoConf(s, e) ==
    CASE e.op = "code" -> LET t == AddAll(s, Names(e), e.max) ok == Known(t, Names(e)) IN
            C("refuses more names than instances", e.rejected = ~ok) \cup
            C("codes", e.rejected \/ e.out = [i \in 1..Len(e.names) |-> e.w[Pos(t, Names(e)[i])]])
      [] e.op = "ids" -> C("codes of ids", e.ignore \/ e.out = [i \in 1..Len(e.ids) |-> e.w[e.ids[i] + 1]])
      [] e.op = "norm" -> C("mean squared encoding", Close(e.out, RDiv(10000 * SumSeq([i \in 1..Len(e.w) |-> N2(e.w[i])]), Len(e.w) * Len(e.w[1])), 20))
      [] e.op = "reload" -> C("the weights are restored", e.got = e.w)
      [] OTHER -> {}
TimeConf(e) ==
    LET row(t) == Flat([q \in 1..2 |-> [k \in 1..e.n |-> LET x == 10 * (2 ^ (k - 1)) * RDiv(1000 * t, e.div) IN IF q = 1 THEN Sin(x) ELSE Cos(x)]]) \o (IF e.app THEN <<RDiv(T * t, e.div)>> ELSE << >>)
    IN  IF e.what # "ok" THEN C("refuses " \o e.what, e.rejected) ELSE
        C("time encodings", Len(e.out) = Len(e.t) /\ \A i \in 1..Len(e.t) : VClose(e.out[i], row(e.t[i]), 20)) \cup C("encoding dimension", e.dim = 2 * e.n + (IF e.app THEN 1 ELSE 0))

(* ---- glue ---- *)
ChunkConf(e) ==
    LET n == e.n k == Max2(e.npts, 1) IN
    IF e.npts > 0 /\ e.chunk % e.npts # 0 THEN C("refuses chunks of partial rays", e.rejected) ELSE
    C("accepts whole rays", ~e.rejected) \cup
    (IF e.rejected THEN {} ELSE
        C("every ray once, in order", e.got = e.whole) \cup
        C("chunks no larger than asked", \A i \in 1..Len(e.sizes) : e.sizes[i] * k <= e.chunk /\ e.sizes[i] > 0) \cup
        C("as few chunks as possible", SumSeq(e.sizes) = n /\ (Len(e.sizes) - 1) * e.chunk < n * k) \cup
        C("inputs and arguments follow", e.follow))
PreConf(e) ==
    LET fg == IF e.hasfg THEN [i \in 1..Len(e.fg) |-> IF e.thr > 0 THEN (IF e.fg[i] >= e.thr THEN 8 ELSE 0) ELSE e.fg[i]] ELSE << >>
    IN  C("foreground", e.ofg = fg) \cup
        C("image", e.oimg = IF e.mimg /\ e.hasfg /\ e.img # << >> THEN [c \in 1..3 |-> [i \in 1..Len(e.img[c]) |-> fg[i] * e.img[c][i] + (8 - fg[i]) * e.bg[c]]] ELSE [c \in 1..Len(e.img) |-> VScale(8, e.img[c])]) \cup
        C("depth", e.odep = IF e.mdep /\ e.hasfg /\ e.dep # << >> THEN [i \in 1..Len(e.dep) |-> fg[i] * e.dep[i]] ELSE VScale(8, e.dep))
LossConf(e) == LET used == {i \in 1..Len(e.keys) : e.has[i] /\ e.w[i] # 0} IN
    C("objective", IF used = {} THEN ~e.any ELSE e.any /\ e.out = SumSeq([i \in 1..Len(e.keys) |-> IF i \in used THEN e.w[i] * e.v[i] ELSE 0]))
ModelConf(e) ==
    C("same image whatever the chunks", e.a = e.b) \cup C("one target at evaluation, the first ones in training", e.ntarget = IF e.train THEN (IF e.nt <= 0 THEN e.nb ELSE Min2(e.nt, e.nb)) ELSE 1) \cup
    C("objective of the model", Close(e.obj, e.sum, 3 + Abs(e.sum) \div 1000)) \cup C("bound arguments are released", e.unbound) \cup
    C("rays of the first cameras", e.cams)

S0(tr) == [h |-> <<FALSE, << >> >>, names |-> << >>]
Apply(s, e) == CASE e.op = "bind" -> [s EXCEPT !.h = <<FALSE, << >> >>]
                 [] e.op = "hyper" -> IF s.h[1] THEN s ELSE [s EXCEPT !.h = <<TRUE, e.code>>]
                 [] e.op = "code" -> [s EXCEPT !.names = AddAll(@, Names(e), e.max)]
                 [] e.op = "ids" -> IF e.ignore THEN [s EXCEPT !.names = AddAll(@, <<"singleton">>, e.max)] ELSE s
                 [] OTHER -> s
Conf(s, e) == CASE e.op = "mlp" -> MlpConf(e) [] e.op = "elem" -> ElemConf(e) [] e.op = "rep" -> RepConf(e) [] e.op = "idr" -> IdrConf(e) [] e.op = "nerf" -> NerfConf(e)
                [] e.op \in {"bind", "hyper"} -> HyperConf(s.h, e) [] e.op \in {"code", "ids", "norm", "reload"} -> AutoConf(s.names, e) [] e.op = "time" -> TimeConf(e)
                [] e.op = "chunk" -> ChunkConf(e) [] e.op = "pre" -> PreConf(e) [] e.op = "loss" -> LossConf(e) [] OTHER -> ModelConf(e)
=============================================================================
