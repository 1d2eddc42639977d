-------------------------------- MODULE Data --------------------------------
(* Datasets of frames grouped in sequences: which frames a dataset holds after its filters and in what order, how they
   are found again (by index, by name, in order of time), subsets, joins, evaluation batches, batch samplers, loaders.
   fr: <<[seq, no, hasts, ts (1/8 s), mass (-1: none), sub (0: none), ft (frame type of the meta data)]>>, sq: <<[name, cat]>>
   names, categories, subsets are numbers (ordered like the strings they stand for).
   A dataset: [kind, ix: frames (positions in fr), lab: subset of each, hasev, ev: batches of 0-based indices, flt]. *)
EXTENDS Lists
S0(tr) == [fr |-> <<>>, sq |-> <<>>, ds |-> <<>>]
In(x, q) == \E i \in 1..Len(q) : q[i] = x
Pre(q, n) == SubSeq(q, 1, Min2(n, Len(q)))
FindF(s, q) == CHOOSE f \in 1..Len(s.fr) : s.fr[f].seq = q[1] /\ s.fr[f].no = q[2]
HasF(s, q) == \E f \in 1..Len(s.fr) : s.fr[f].seq = q[1] /\ s.fr[f].no = q[2]
Ts(s, f) == IF s.fr[f].hasts THEN s.fr[f].ts ELSE 0
CatOf(s, name) == s.sq[CHOOSE i \in 1..Len(s.sq) : s.sq[i].name = name].cat
RECURSIVE Uniq(_)
Uniq(q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o Uniq(SelectSeq(Tail(q), LAMBDA x : x # Head(q)))
SeqsOf(s, F) == Uniq([i \in 1..Len(F) |-> s.fr[F[i]].seq])
CountOf(s, F, q) == Cardinality({i \in 1..Len(F) : s.fr[F[i]].seq = q})
Distinct(q) == Cardinality(SeqToSet(q)) = Len(q)
(* ---------------------------------- filters ---------------------------------- *)
TimeLess(s, a, b) == LET x == s.fr[a] y == s.fr[b] IN x.seq < y.seq \/ (x.seq = y.seq /\ (Ts(s, a) < Ts(s, b) \/ (Ts(s, a) = Ts(s, b) /\ a < b)))
All(s) == [i \in 1..Len(s.fr) |-> i]
JFrames0(s, c) == LET F0 == IF c.sort THEN SetToSortSeq(1..Len(s.fr), LAMBDA a, b : TimeLess(s, a, b)) ELSE All(s)
                      F1 == SelectSeq(F0, LAMBDA f : ~c.rem \/ s.fr[f].mass > 1)
                  IN IF c.subsets = <<>> THEN F1 ELSE SelectSeq(F1, LAMBDA f : In(s.fr[f].sub, c.subsets))
JSeqs(s, c) == LET F == JFrames0(s, c)
                   A0 == IF c.subsets = <<>> THEN s.sq ELSE SelectSeq(s.sq, LAMBDA x : CountOf(s, F, x.name) > 0)
                   A1 == SelectSeq(A0, LAMBDA x : (c.cats = <<>> \/ In(x.cat, c.cats)) /\ (c.pick = <<>> \/ In(x.name, c.pick)) /\ ~In(x.name, c.excl))
               IN IF c.lseq > 0 THEN Pre(A1, c.lseq) ELSE A1
JFrames(s, c) == LET Q == Map(JSeqs(s, c), LAMBDA x : x.name) IN SelectSeq(JFrames0(s, c), LAMBDA f : In(s.fr[f].seq, Q))
(* the index F' is a choice of at most n frames of every sequence of F, then cut *)
Picked(s, F, n, lim, ix) ==
    LET Q == SeqsOf(s, F) blocks == Flat([i \in 1..Len(Q) |-> Rep(Min2(n, CountOf(s, F, Q[i])), Q[i])])
    IN Distinct(ix) /\ (\A i \in 1..Len(ix) : In(ix[i], F))
       /\ [i \in 1..Len(ix) |-> s.fr[ix[i]].seq] = (IF lim > 0 THEN Pre(blocks, lim) ELSE blocks)
JIxOk(s, c, ix) == LET F == JFrames(s, c) IN IF c.nf > 0 THEN Picked(s, F, c.nf, c.lim, ix) ELSE ix = (IF c.lim > 0 THEN Pre(F, c.lim) ELSE F)
JEmpty(s, c) == c.subsets # <<>> /\ JFrames0(s, c) = <<>>
JFlt(c) == c.rem \/ c.lim > 0 \/ c.lseq > 0 \/ c.pick # <<>> \/ c.excl # <<>> \/ c.cats # <<>> \/ c.nf > 0
SSeqs(s, c) == LET A1 == SelectSeq(s.sq, LAMBDA x : (c.cats = <<>> \/ In(x.cat, c.cats)) /\ (c.pick = <<>> \/ In(x.name, c.pick)) /\ ~In(x.name, c.excl)
                                       /\ (c.sclause = <<>> \/ In(x.cat, c.sclause[1]) \/ In(x.name, c.sclause[2])))
                   Rank(k) == Cardinality({j \in 1..k : A1[j].cat = A1[k].cat})
                   A2 == IF c.per > 0 THEN Map(SelectSeq([k \in 1..Len(A1) |-> k], LAMBDA k : Rank(k) <= c.per), LAMBDA k : A1[k]) ELSE A1
               IN IF c.lseq > 0 THEN Pre(A2, c.lseq) ELSE A2
NameLess(s, a, b) == LET x == s.fr[a] y == s.fr[b] IN x.seq < y.seq \/ (x.seq = y.seq /\ x.no < y.no)
SFrames(s, c) == LET Q == Map(SSeqs(s, c), LAMBDA x : x.name)
                     F == {f \in 1..Len(s.fr) : In(s.fr[f].seq, Q) /\ (c.subsets = <<>> \/ In(s.fr[f].sub, c.subsets))
                                               /\ (~c.rem \/ s.fr[f].mass # 0) /\ (c.fclause = <<>> \/ In(s.fr[f].no, c.fclause))}
                     G == SetToSortSeq(F, LAMBDA a, b : NameLess(s, a, b))
                 IN IF c.lim > 0 THEN Pre(G, c.lim) ELSE G
SIxOk(s, c, ix) == LET F == SFrames(s, c) IN
    /\ Distinct(ix) /\ \A i \in 1..Len(ix) : In(ix[i], F)
    /\ \A q \in SeqToSet(SeqsOf(s, F)) : CountOf(s, ix, q) = (IF c.nf >= 0 THEN Min2(c.nf, CountOf(s, F, q)) ELSE CountOf(s, F, q))
SEmpty(s, c) == SFrames(s, c) = <<>> \/ c.nf = 0
SFlt(c) == JFlt(c) \/ c.per > 0 \/ c.sclause # <<>> \/ c.fclause # <<>>
(* ------------------------------- access ------------------------------- *)
Ids(s, ix) == [i \in 1..Len(ix) |-> <<s.fr[ix[i]].seq, s.fr[ix[i]].no>>]
OfIds(s, q) == [i \in 1..Len(q) |-> FindF(s, q[i])]
At(s, d, q) == IF \E i \in 1..Len(d.ix) : Ids(s, d.ix)[i] = q THEN (CHOOSE i \in 1..Len(d.ix) : Ids(s, d.ix)[i] = q) - 1 ELSE 0 - 1
OrderLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Ordered(s, d, q, hasf, flt) ==
    SetToSortSeq({<<Ts(s, d.ix[i]), s.fr[d.ix[i]].no, i - 1>> : i \in {i \in 1..Len(d.ix) : s.fr[d.ix[i]].seq = q /\ (hasf => In(d.lab[i], flt))}}, OrderLess)
TheNames(s, d) == SeqToSet(SeqsOf(s, d.ix))
CatMap(s, d) == LET N == TheNames(s, d) IN {<<c, {n \in N : CatOf(s, n) = c}>> : c \in {CatOf(s, n) : n \in N}}
MapBatches(s, d, bs, remove) == LET m == [i \in 1..Len(bs) |-> [j \in 1..Len(bs[i]) |-> At(s, d, bs[i][j])]]
                                    v == [i \in 1..Len(m) |-> SelectSeq(m[i], LAMBDA x : x >= 0)]
                                IN IF remove THEN SelectSeq(v, LAMBDA b : b # <<>>) ELSE m
SomeMissing(s, d, bs) == \E i \in 1..Len(bs) : \E j \in 1..Len(bs[i]) : At(s, d, bs[i][j]) < 0
Labels(s, kind, c, ix) == [i \in 1..Len(ix) |-> IF kind = "sql" THEN (IF c.subsets = <<>> THEN 0 ELSE s.fr[ix[i]].sub) ELSE (IF c.lists THEN s.fr[ix[i]].sub ELSE 0)]
SubIx(s, d, fi) == LET p == SelectSeq([i \in 1..Len(fi) |-> At(s, d, fi[i])], LAMBDA x : x >= 0) IN [i \in 1..Len(p) |-> d.ix[p[i] + 1]]
SubRejected(s, d, e) == SomeMissing(s, d, <<e.fi>>) /\ ~(d.flt /\ e.allow)
(* sequences of the evaluation batches kept by the filters of the SQL dataset *)
KeepEv(s, c, ix, bs) == SelectSeq(bs, LAMBDA b : (c.pick = <<>> \/ In(b[1][1], c.pick)) /\ ~In(b[1][1], c.excl)
                            /\ (c.cats = <<>> \/ (In(b[1][1], SeqsOf(s, ix)) /\ In(CatOf(s, b[1][1]), c.cats))))
RECURSIVE JoinAll(_, _, _)
JoinAll(s, d, os) == IF os = <<>> THEN d ELSE
    LET o == s.ds[Head(os)] n == Len(d.ix) IN
    JoinAll(s, [d EXCEPT !.ix = @ \o o.ix, !.lab = @ \o o.lab, !.ev = @ \o [i \in 1..Len(o.ev) |-> [j \in 1..Len(o.ev[i]) |-> o.ev[i][j] + n]]], Tail(os))
MixedEv(s, e) == \E o \in SeqToSet(e.others) : s.ds[o].hasev # s.ds[e.d].hasev
Apply(s, e) ==
    CASE e.op = "tables" -> [s EXCEPT !.fr = e.fr, !.sq = e.sq]
      [] e.op \in {"json", "sql"} /\ ~e.rejected ->
            LET ix == OfIds(s, e.ix)
                d0 == [kind |-> e.op, ix |-> ix, lab |-> Labels(s, e.op, e.c, ix), hasev |-> e.c.hasev, ev |-> <<>>, flt |-> e.flt]
                ev == IF e.c.hasev /\ e.op = "json" THEN MapBatches(s, d0, e.c.ev, FALSE) ELSE <<>>
            IN [s EXCEPT !.ds = Append(@, [d0 EXCEPT !.ev = ev])]
      [] e.op = "sub" /\ ~e.rejected -> LET d == s.ds[e.d] ix == SubIx(s, d, e.fi) IN
            [s EXCEPT !.ds = Append(@, [d EXCEPT !.ix = ix, !.lab = [i \in 1..Len(ix) |-> s.fr[ix[i]].ft], !.hasev = FALSE, !.ev = <<>>])]
      [] e.op = "join" /\ ~e.rejected -> [s EXCEPT !.ds[e.d] = JoinAll(s, @, e.others)]
      [] OTHER -> s
(* ------------------------------- batches ------------------------------- *)
CeilDiv(a, b) == (a + b - 1) \div b
TheSeq(s, d, i) == s.fr[d.ix[i + 1]].seq
(* cut the frames of a sequence, in order of time, where the gap is too large; -> sequence of segments (of 0-based indices) *)
RECURSIVE Segs(_, _, _, _)
Segs(o, gap, gaps, acc) ==
    IF o = <<>> THEN acc ELSE
    LET x == Head(o)
        new == acc = <<>> \/ LET L == acc[Len(acc)] y == L[Len(L)] IN (gap > 0 /\ x[2] - y[2] > gap) \/ (gaps > 0 /\ x[1] - y[1] > gaps)
    IN Segs(Tail(o), gap, gaps, IF new THEN Append(acc, <<x>>) ELSE [acc EXCEPT ![Len(acc)] = Append(@, x)])
Segments(s, d, q, e) == LET o == Ordered(s, d, q, FALSE, <<>>)
                            g == IF e.gap > 0 \/ e.gaps > 0 THEN Segs(o, e.gap, e.gaps, <<>>) ELSE <<o>>
                        IN [i \in 1..Len(g) |-> [j \in 1..Len(g[i]) |-> g[i][j][3]]]
Eligible(segs, n) == LET big == {i \in 1..Len(segs) : Len(segs[i]) >= n} IN
    IF big # {} THEN big ELSE {i \in 1..Len(segs) : \A j \in 1..Len(segs) : Len(segs[j]) <= Len(segs[i])}
(* could chunk c be drawn from sequence q for n frames per sequence; cut: the end of the batch may have cut it *)
ChunkOk(s, d, e, q, n, c, cut) ==
    IF ~e.cons THEN LET w == Min2(n, CountOf(s, d.ix, q)) IN Distinct(c) /\ (IF cut THEN Len(c) <= w ELSE Len(c) = w)
    ELSE LET segs == Segments(s, d, q, e) IN
         \E i \in Eligible(segs, n) : LET g == segs[i] w == Min2(n, Len(g)) IN
            /\ (IF cut THEN Len(c) <= w ELSE Len(c) = w)
            /\ \E st \in 0..(Len(g) - w) : \A j \in 1..Len(c) : c[j] = g[st + j]
RECURSIVE Runs(_, _, _, _)
Runs(s, d, b, acc) == IF b = <<>> THEN acc ELSE
    Runs(s, d, Tail(b), IF acc # <<>> /\ TheSeq(s, d, Head(b)) = TheSeq(s, d, acc[Len(acc)][1]) THEN [acc EXCEPT ![Len(acc)] = Append(@, Head(b))] ELSE Append(acc, <<Head(b)>>))
SceneOk(s, d, e, b) ==
    LET runs == Runs(s, d, b, <<>>) names == [i \in 1..Len(runs) |-> TheSeq(s, d, runs[i][1])]
        cats == {CatOf(s, q) : q \in TheNames(s, d)} nn == Cardinality(TheNames(s, d))
    IN /\ Distinct(names) /\ Len(b) <= e.bs /\ b # <<>>
       /\ \E n \in SeqToSet(e.opts) : LET ns == CeilDiv(e.bs, n) IN
            /\ \A i \in 1..Len(runs) : ChunkOk(s, d, e, names[i], n, runs[i], i = Len(runs) /\ Len(b) = e.bs)
            /\ IF ~e.cataware THEN Len(runs) = Min2(ns, nn)
               ELSE IF Cardinality(cats) >= ns THEN Len(runs) = ns /\ Cardinality({CatOf(s, names[i]) : i \in 1..Len(names)}) = ns
               ELSE Len(runs) <= ns /\ (\A c \in cats : LET k == Cardinality({i \in 1..Len(names) : CatOf(s, names[i]) = c})
                                                            all == Cardinality({q \in TheNames(s, d) : CatOf(s, q) = c})
                                                        IN k <= all)
                    /\ (Len(runs) = ns \/ \E c \in cats : {q \in TheNames(s, d) : CatOf(s, q) = c} \subseteq SeqToSet(names))
PoolOk(first, rest, bs, b) == Len(b) = bs /\ In(b[1], first) /\ (\A i \in 2..Len(b) : In(b[i], rest)) /\ Distinct(Tail(b))
DoubleOk(e) == LET n == IF e.nb > 0 THEN e.nb ELSE Len(e.first) f == [i \in 1..Len(e.b) |-> e.b[i][1]] k == Len(e.first) IN
    C("number of batches", Len(e.b) = n /\ e.len = n)
    \cup C("first element from the first list, others distinct from the second", \A i \in 1..Len(e.b) : PoolOk(e.first, e.rest, e.bs, e.b[i]))
    \cup C("without replacement all first elements are used before one repeats",
           e.repl \/ \A r \in 0..(n \div k) : Distinct(SubSeq(f, r * k + 1, Min2((r + 1) * k, Len(f)))))
Known(l) == l \in {1, 3}
(* batches of a loader, as frames: <<dataset (1 or 2 = training set), 0-based index>> *)
Mode(e, d) == IF d.hasev /\ (e.kind # "tve" \/ e.split = "test") THEN "eval" ELSE
              IF e.kind = "simple" THEN "random" ELSE
              IF e.kind = "tve" THEN (IF e.opts # <<>> THEN "scene" ELSE IF e.bs = 1 THEN "random" ELSE "train") ELSE
              IF e.bs = 1 \/ (e.opts = <<>> /\ e.cond = "same") THEN "random" ELSE IF e.opts # <<>> THEN "scene" ELSE e.cond
Clash(e, d) == e.kind = "seq" /\ ~d.hasev /\ e.opts # <<>> /\ e.cond # "same"
LoaderConf(s, e) ==
    LET d == s.ds[e.d] t == s.ds[e.t] m == Mode(e, d) n == Len(d.ix)
        nb == IF e.nb > 0 THEN e.nb ELSE n
        idx(b) == [i \in 1..Len(b) |-> At(s, d, b[i])]
        first == SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : ~Known(d.lab[i + 1])) rest == SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : Known(d.lab[i + 1]))
        want == CASE m = "eval" -> Len(d.ev) [] m = "random" -> (IF e.nb > 0 THEN e.nb ELSE n \div e.bs) [] m = "scene" -> nb
                  [] m = "train" -> nb [] OTHER -> (IF e.nb > 0 THEN e.nb ELSE Len(first))
        short == (m = "known" /\ e.bs - 1 > Len(rest)) \/ (m = "train" /\ e.bs - 1 > Len(t.ix))
    IN IF Clash(e, d) \/ short \/ (m = "known" /\ In(0, d.lab)) THEN C("impossible conditioning rejected", e.rejected) ELSE
       C("accepted", ~e.rejected) \cup (IF e.rejected THEN {} ELSE
       C("number of batches", e.len = want /\ Len(e.b) = want)
       \cup C("batches of the loader (" \o m \o ")", \A i \in 1..Len(e.b) : LET b == e.b[i] IN
            CASE m = "eval" -> idx(b) = d.ev[i]
              [] m = "random" -> Len(b) = e.bs /\ \A j \in 1..Len(b) : idx(b)[j] >= 0
              [] m = "scene" -> (\A j \in 1..Len(b) : idx(b)[j] >= 0) /\ SceneOk(s, d, [e EXCEPT !.cataware = TRUE], idx(b))
              [] m = "train" -> Len(b) = e.bs /\ At(s, d, b[1]) >= 0 /\ Distinct(Tail(b)) /\ \A j \in 2..Len(b) : At(s, t, b[j]) >= 0
              [] OTHER -> PoolOk(first, rest, e.bs, idx(b)))
       \cup C("each frame once per epoch", ~(m = "random" /\ e.nb = 0) \/ Distinct(Flat(e.b))))
(* ------------------------------- providers ------------------------------- *)
(* e.parts: per category [cat, train, val, test: lists of frames, ev: batches]; every category is filtered on its own *)
CatTables(s, c) == [fr |-> SelectSeq([i \in 1..Len(s.fr) |-> [s.fr[i] EXCEPT !.ft = i]], LAMBDA f : CatOf(s, f.seq) = c), sq |-> SelectSeq(s.sq, LAMBDA x : x.cat = c), ds |-> <<>>]
(* the frames (positions in s.fr) of one category *)
BaseIx(s, c, cat) == LET t == CatTables(s, cat) F == JFrames(t, c) G == IF c.lim > 0 THEN Pre(F, c.lim) ELSE F IN [i \in 1..Len(G) |-> t.fr[G[i]].ft]
OnlyIn(s, ix, q) == SelectSeq(OfIds(s, q), LAMBDA f : In(f, ix))
KnownExt(s, train, k, b, o) ==   (* o = b followed by min(k, all) distinct training frames of the sequence of b *)
    LET mine == {f \in SeqToSet(train) : s.fr[f].seq = s.fr[b[1]].seq} n == Len(b) IN
    /\ Len(o) = n + Min2(k, Cardinality(mine)) /\ SubSeq(o, 1, n) = b
    /\ LET x == SubSeq(o, n + 1, Len(o)) IN Distinct(x) /\ SeqToSet(x) \subseteq mine
V2Conf(s, e) ==
    LET P == e.parts np == Len(P)
        base == [i \in 1..np |-> BaseIx(s, e.c, P[i].cat)]
        tr == [i \in 1..np |-> OnlyIn(s, base[i], P[i].train)] va == [i \in 1..np |-> OnlyIn(s, base[i], P[i].val)] te == [i \in 1..np |-> OnlyIn(s, base[i], P[i].test)]
        evs == Flat([i \in 1..np |-> LET m == [j \in 1..Len(P[i].ev) |-> OnlyIn(s, te[i], P[i].ev[j])] IN SelectSeq(m, LAMBDA b : b # <<>>)])
        gotev == [i \in 1..Len(e.ev) |-> OfIds(s, e.ev[i])]
        added == UNION {SeqToSet(gotev[i]) : i \in 1..Len(gotev)}
    IN C("training set", IF e.onlytest THEN ~e.hastrain ELSE e.hastrain /\ OfIds(s, e.train) = Flat(tr))
       \cup (IF e.ontrain THEN C("test on train", OfIds(s, e.val) = Flat(tr) /\ OfIds(s, e.test) = Flat(tr) /\ ~e.hasev) ELSE
             C("validation set", OfIds(s, e.val) = Flat(va))
             \cup (IF e.known = 0 THEN C("test set", OfIds(s, e.test) = Flat(te)) \cup C("evaluation batches", ~e.loadev \/ gotev = evs)
                   ELSE C("test set with known frames", Distinct(e.test) /\ SeqToSet(OfIds(s, e.test)) = SeqToSet(Flat(te)) \cup added)
                        \cup C("evaluation batches with known frames", Len(gotev) = Len(evs)
                               /\ \A i \in 1..Len(evs) : KnownExt(s, Flat([k \in 1..np |-> OfIds(s, P[k].train)]), e.known, evs[i], gotev[i]))))
       \cup C("frame types", \A i \in 1..Len(e.types) : e.types[i].ft = s.fr[FindF(s, e.types[i].id)].ft)
V1Conf(s, e) ==
    LET single == e.task = "singlesequence"
        evseqs == Uniq([i \in 1..Len(e.evall) |-> e.evall[i][1][1]])
        pick == IF single THEN <<evseqs[e.sid + 1]>> ELSE e.pick
        evs == SelectSeq(e.evall, LAMBDA b : pick = <<>> \/ In(b[1][1], pick))
        Cfg(subs, nf) == [e.c EXCEPT !.pick = pick, !.subsets = subs, !.nf = nf]
        train == Cfg(IF single THEN <<3>> ELSE <<1>>, e.nf) test == Cfg(IF single THEN <<3, 4>> ELSE <<3, 4, 1, 2>>, 0 - 1)
        tix == OfIds(s, e.test)
        dt == [ix |-> tix]
        seqs == SeqToSet(SeqsOf(s, (IF e.hastrain THEN OfIds(s, e.train) ELSE <<>>) \o tix))
        wantseqs == (IF e.onlytest THEN {} ELSE SeqToSet(SeqsOf(s, JFrames(s, train)))) \cup (IF e.ontrain THEN {} ELSE SeqToSet(SeqsOf(s, JFrames(s, test))))
        why == (~e.onlytest /\ JEmpty(s, train)) \/ (~e.ontrain /\ JEmpty(s, test)) \/ (e.single /\ Cardinality(wantseqs) > 1)
    IN IF e.rejected THEN C("rejected without reason", why) ELSE
       C("several sequences are refused", ~e.single \/ Cardinality(seqs) <= 1)
       \cup C("training set", e.onlytest \/ JIxOk(s, train, OfIds(s, e.train)))
       \cup (IF e.ontrain THEN C("test on train", e.test = e.train /\ e.val = e.train)
             ELSE C("validation and test sets", JIxOk(s, test, tix) /\ JIxOk(s, test, OfIds(s, e.val)))
                  \cup C("evaluation batches", e.hasev /\ [i \in 1..Len(e.ev) |-> [j \in 1..Len(e.ev[i]) |-> At(s, dt, e.ev[i][j])]] = MapBatches(s, dt, evs, FALSE)))
SPConf(s, e) ==
    LET Cfg(subs) == [e.c EXCEPT !.subsets = subs]
        tr == Cfg(IF e.ignore THEN <<>> ELSE e.trs) va == Cfg(IF e.ignore THEN <<>> ELSE e.vas) te == Cfg(IF e.ignore THEN <<>> ELSE e.tes \o (IF e.known > 0 THEN e.trs ELSE <<>>))
        tix == OfIds(s, e.test)
        kept == KeepEv(s, e.c, tix, e.evall)
        F(b) == OfIds(s, b)
        train == SelectSeq(tix, LAMBDA f : In(s.fr[f].sub, e.trs))
        ot == e.ontrain \/ (e.ignore /\ ~e.onlytest)
    IN IF e.rejected THEN C("rejected without reason", (~e.onlytest /\ SEmpty(s, tr)) \/ (~e.onlytest /\ ~ot /\ SEmpty(s, va)) \/ (~ot /\ SEmpty(s, te))) ELSE
       C("training set", e.onlytest \/ SIxOk(s, tr, OfIds(s, e.train)))
       \cup (IF e.ontrain \/ (e.ignore /\ ~e.onlytest) THEN C("test on train", e.test = e.train /\ e.val = e.train)
             ELSE C("validation set", e.onlytest \/ SIxOk(s, va, OfIds(s, e.val))) \cup C("test set", SIxOk(s, te, tix))
                  \cup C("evaluation batches", ~e.hasev \/ (Len(e.ev) = Len(kept) /\ \A i \in 1..Len(kept) :
                            IF e.known = 0 THEN e.ev[i] = kept[i] ELSE KnownExt(s, train, e.known, F(kept[i]), F(e.ev[i])))))
SingleConf(s, e) ==
    LET own == e.split[e.k + 1] ext == e.k # 0 /\ e.hask
        all == own \o (IF ext THEN e.split[1] ELSE <<>>) IN
    C("frames of the set", Len(e.got) = Len(all) /\ \A i \in 1..Len(all) :
        LET g == e.got[i] known == e.k = 0 \/ i > Len(own) IN g.img = all[i] /\ g.cam = all[i] /\ (IF e.hasfg THEN g.fg = all[i] ELSE g.fg = 0 - 1) /\ g.known = known /\ g.no = i - 1)
    \cup C("evaluation batches", IF e.k # 2 THEN ~e.hasev ELSE e.hasev /\ Len(e.ev) = Len(own) /\ \A i \in 1..Len(own) :
        LET b == e.ev[i] IN b[1] = i - 1 /\ Distinct(b) /\ Len(b) = 1 + (IF ext THEN Min2(e.nk, Len(e.split[1])) ELSE 0) /\ \A j \in 2..Len(b) : b[j] >= Len(own) /\ b[j] < Len(all))
    \cup C("order of frames", e.order = [i \in 1..Len(all) |-> i - 1])
    \cup C("training cameras", e.cams = e.split[1])
Conf(s, e) ==
    CASE e.op = "tables" -> {}
      [] e.op \in {"json", "sql"} ->
            LET empty == IF e.op = "json" THEN JEmpty(s, e.c) ELSE SEmpty(s, e.c)
                d == [ix |-> OfIds(s, e.ix), lab |-> <<>>]
                badev == e.op = "json" /\ e.c.hasev /\ SomeMissing(s, d, e.c.ev)
            IN IF e.rejected THEN C("a dataset with frames is accepted", empty \/ e.evmiss)
               ELSE C("an empty selection is rejected", ~empty)
                    \cup C("frames of the dataset", IF e.op = "json" THEN JIxOk(s, e.c, d.ix) ELSE SIxOk(s, e.c, d.ix))
                    \cup C("length", e.n = Len(e.ix))
                    \cup C("sequence names", SeqToSet(e.names) = TheNames(s, d) /\ Distinct(e.names))
                    \cup C("sequences of the categories", {<<e.cats[i].c, SeqToSet(e.cats[i].n)>> : i \in 1..Len(e.cats)} = CatMap(s, d))
                    \cup C("is_filtered", e.flt <=> IF e.op = "json" THEN JFlt(e.c) ELSE SFlt(e.c))
                    \cup C("reproducible", e.again = e.ix)
                    \cup C("evaluation batches", ~badev /\ (~e.c.hasev \/ IF e.op = "json" THEN e.ev = MapBatches(s, d, e.c.ev, FALSE) ELSE e.evn = KeepEv(s, e.c, d.ix, e.c.ev)))
      [] e.op = "order" -> LET o == Ordered(s, s.ds[e.d], e.q, e.hasf, e.flt) IN
            C("frames in order of time", e.out = o) \cup C("indices in order of time", e.idx = [i \in 1..Len(o) |-> o[i][3]])
      (* sel[2i-1], sel[2i]: the frames drawn from every sequence with the i-th seed, twice *)
      [] e.op = "seeds" -> C("frames drawn from a sequence", \A i \in 1..Len(e.sel) : \A q \in 1..Len(e.sel[i]) :
                                Len(e.sel[i][q]) = e.k /\ Distinct(e.sel[i][q]) /\ \A j \in 1..e.k : e.sel[i][q][j] \in 0..(e.n - 1))
                   \cup C("the same seed draws the same frames", \A i \in 1..(Len(e.sel) \div 2) : e.sel[2 * i - 1] = e.sel[2 * i])
                   \cup C("another seed draws other frames", \E i \in 1..Len(e.sel) : e.sel[i] # e.sel[1])
                   \cup C("sequences are drawn from independently", \E i \in 1..Len(e.sel) : \E q \in 1..Len(e.sel[i]) : e.sel[i][q] # e.sel[i][1])
      [] e.op = "nos" -> LET d == s.ds[e.d] one == Cardinality({TheSeq(s, d, e.i[j]) : j \in 1..Len(e.i)}) <= 1 IN
            IF d.kind = "sql" /\ ~one THEN C("several sequences rejected", e.rejected)
            ELSE C("frame numbers and time stamps", ~e.rejected /\ e.out = LET k == SelectSeq(e.i, LAMBDA i : ~e.hasf \/ In(d.lab[i + 1], e.flt)) IN
                    [j \in 1..Len(k) |-> <<s.fr[d.ix[k[j] + 1]].no, Ts(s, d.ix[k[j] + 1])>>])
      [] e.op = "get" -> LET d == s.ds[e.d] i == IF e.byname THEN At(s, d, e.q) ELSE e.i IN
            IF i < 0 \/ i >= Len(d.ix) \/ (e.haspath /\ ~e.rightpath) THEN C("unknown frame rejected", e.rejected)
            ELSE LET f == s.fr[d.ix[i + 1]] IN C("the frame", ~e.rejected /\ e.out = <<f.seq, f.no, Ts(s, d.ix[i + 1]), CatOf(s, f.seq), d.lab[i + 1]>> /\ e.path)
      [] e.op = "seqidx" -> LET d == s.ds[e.d] IN
            IF SomeMissing(s, d, e.b) /\ ~e.allow THEN C("missing frame rejected", e.rejected)
            ELSE C("indices of frames", ~e.rejected /\ e.out = MapBatches(s, d, e.b, e.allow /\ e.remove))
      [] e.op = "sub" -> LET d == s.ds[e.d] IN
            IF SubRejected(s, d, e) THEN C("missing frame rejected", e.rejected)
            ELSE LET n == [d EXCEPT !.ix = SubIx(s, d, e.fi)] IN
                 C("frames of the subset", ~e.rejected /\ e.ix = Ids(s, n.ix)) \cup C("sequences of the subset", SeqToSet(e.names) = TheNames(s, n)
                    /\ {<<e.cats[i].c, SeqToSet(e.cats[i].n)>> : i \in 1..Len(e.cats)} = CatMap(s, n))
                 \cup C("the dataset itself is unchanged", e.orig = Ids(s, d.ix))
      [] e.op = "join" -> IF MixedEv(s, e) THEN C("joins with and without batches rejected", e.rejected)
                          ELSE LET j == JoinAll(s, s.ds[e.d], e.others) IN
                               C("joined frames", ~e.rejected /\ e.ix = Ids(s, j.ix)) \cup C("joined batches", e.ev = j.ev)
                               \cup C("joined sequences", SeqToSet(e.names) = TheNames(s, j) /\ {<<e.cats[i].c, SeqToSet(e.cats[i].n)>> : i \in 1..Len(e.cats)} = CatMap(s, j))
      [] e.op = "scene" -> C("number of batches", Len(e.b) = e.nb /\ e.len = e.nb)
                           \cup C("batch of scenes", \A i \in 1..Len(e.b) : SceneOk(s, s.ds[e.d], e, e.b[i]))
      [] e.op = "double" -> IF e.bs - 1 > Len(e.rest) THEN C("too large batches rejected", e.rejected) ELSE C("accepted", ~e.rejected) \cup (IF e.rejected THEN {} ELSE DoubleOk(e))
      [] e.op = "loader" -> LoaderConf(s, e)
      [] e.op = "v2" -> V2Conf(s, e)
      [] e.op = "v1" -> V1Conf(s, e)
      [] e.op = "sqlprov" -> SPConf(s, e)
      [] e.op = "single" -> SingleConf(s, e)
      [] e.op = "dump" -> C("annotations read again are those written", e.same)
      [] e.op = "mapjoin" -> C("joined once", \A k \in 1..Len(e.got) : e.got[k] = e.want[k])
      [] OTHER -> {}
=============================================================================
