--------------------------------- MODULE Train ---------------------------------
(* Training with checkpoints: runs of an experiment which may be interrupted at any operation on the checkpoint files
   and are resumed later. What an epoch computes is a function of its number alone: random draws, learning rate,
   parameters and optimizer state are those of an uninterrupted run. Numbers are exact multiples of 2^-22 (SGD). *)
EXTENDS Trig
ONE == 4194304
P2(k) == 2 ^ k
(* state: seen: epoch -> [its, w, v, bw, bv, vits] as first computed; disk: dir -> epoch -> [h, vh] histories *)
S0(tr) == [cfg |-> [breed |-> ""], seen |-> <<>>, disk |-> <<<<>>, <<>>>>]
SeenAt(s, e) == e + 1 <= Len(s.seen)
(* learning rate of a group with base rate 2^-k at an epoch, * ONE *)
Lr(c, k, e) == CASE c.policy = "MultiStepLR" -> ONE \div P2(k + Cardinality({i \in 1..Len(c.miles) : c.miles[i] <= e}))
                 [] c.policy = "Exponential" -> ONE \div P2(k + e)
                 [] OTHER -> IF e = 0 THEN ONE \div P2(k + 1) ELSE IF e = 1 THEN 3 * (ONE \div P2(k + 2)) ELSE ONE \div P2(k + e - 2)
LrA(c, e) == IF c.policy = "LinearExponential" /\ e = 1 THEN 3 ELSE 1
LrS(c, k, e) == CASE c.policy = "MultiStepLR" -> k + Cardinality({i \in 1..Len(c.miles) : c.miles[i] <= e})
                  [] c.policy = "Exponential" -> k + e
                  [] OTHER -> IF e = 0 THEN k + 1 ELSE IF e = 1 THEN k + 2 ELSE k + e - 2
Groups(c) == IF c.grouped THEN <<<<"w">>, <<"v">>>> ELSE <<<<"w", "v">>>>
Lrs(c, e) == IF c.grouped THEN <<Lr(c, c.k0, e), Lr(c, c.slow, e)>> ELSE <<Lr(c, c.k0, e)>>
KV(c) == IF c.grouped THEN c.slow ELSE c.k0
Start == [w |-> ONE, v |-> 2 * ONE, bw |-> 0, bv |-> 0]
(* one step of stochastic gradient descent with momentum 0 or 1/2 *)
Step(c, m, e, it) == LET gw == (it.x + it.d[1]) * ONE
                         gv == (it.d[2] - it.d[3]) * ONE
                         bw == IF c.mom = 1 THEN m.bw \div 2 + gw ELSE gw
                         bv == IF c.mom = 1 THEN m.bv \div 2 + gv ELSE gv
                     IN [w |-> m.w - (LrA(c, e) * bw) \div P2(LrS(c, c.k0, e)), v |-> m.v - (LrA(c, e) * bv) \div P2(LrS(c, KV(c), e)), bw |-> bw, bv |-> bv]
RECURSIVE Steps(_, _, _, _)
Steps(c, m, e, its) == IF its = <<>> THEN m ELSE Steps(c, Step(c, m, e, Head(its)), e, Tail(its))
RECURSIVE ObjOk(_, _, _, _)
ObjOk(c, m, e, its) == its = <<>> \/ (Head(its).obj = m.w * (Head(its).x + Head(its).d[1]) + m.v * (Head(its).d[2] - Head(its).d[3])
                                     /\ ObjOk(c, Step(c, m, e, Head(its)), e, Tail(its)))
Before(s, e) == IF e = 0 THEN Start ELSE [w |-> s.seen[e].w, v |-> s.seen[e].v, bw |-> s.seen[e].bw, bv |-> s.seen[e].bv]
(* ------------------------------ the epochs of a run ------------------------------ *)
LastEp(D) == IF DOMAIN D = {} THEN 0 - 1 ELSE CHOOSE x \in DOMAIN D : \A y \in DOMAIN D : y <= x
From(s, e) == LET D == s.disk[e.dir] IN IF ~e.resume THEN 0 - 1 ELSE IF e.repoch > 0 THEN e.repoch ELSE LastEp(D)
Rejected(s, e) == LET D == s.disk[e.dir] IN (e.repoch > 0 /\ e.repoch \notin DOMAIN D) \/ (e.repoch <= 0 /\ e.force /\ DOMAIN D = {})
Trains(e) == SelectSeq(e.eps, LAMBDA x : x.train)
HasVal(c, n) == c.val /\ n % c.vint = 0
RECURSIVE Want(_, _, _)
Want(c, a, b) == IF a > b THEN <<>> ELSE <<[epoch |-> a, train |-> TRUE]>> \o (IF HasVal(c, a) THEN <<[epoch |-> a, train |-> FALSE]>> ELSE <<>>) \o Want(c, a + 1, b)
Shape(eps) == [i \in 1..Len(eps) |-> [epoch |-> eps[i].epoch, train |-> eps[i].train]]
(* learn what an epoch computed *)
RECURSIVE Learn(_, _)
Learn(s, eps) == IF eps = <<>> THEN s ELSE
    LET x == Head(eps)
        s2 == IF x.train /\ ~SeenAt(s, x.epoch)
              THEN [s EXCEPT !.seen = Append(@, [its |-> x.its, w |-> x.w, v |-> x.v,
                                                bw |-> IF s.cfg.breed = "SGD" THEN Steps(s.cfg, Before(s, x.epoch), x.epoch, x.its).bw ELSE 0,
                                                bv |-> IF s.cfg.breed = "SGD" THEN Steps(s.cfg, Before(s, x.epoch), x.epoch, x.its).bv ELSE 0, val |-> <<>>])]
              ELSE IF ~x.train /\ s.seen[x.epoch + 1].val = <<>> THEN [s EXCEPT !.seen[x.epoch + 1].val = x.its] ELSE s
    IN Learn(s2, Tail(eps))
(* the statistics: one list of values per epoch *)
Num(x) == [nan |-> FALSE, x |-> x]
NaNs(n) == [i \in 1..n |-> <<[nan |-> TRUE, x |-> 0]>>]
Sync(h, n) == IF Len(h) = n \/ Len(h) = 0 THEN h ELSE NaNs(n)
Pad(h, n) == IF Len(h) >= n THEN h ELSE h \o [i \in 1..(n - Len(h)) |-> <<>>]
Put(h, n, v) == [Pad(h, n + 1) EXCEPT ![n + 1] = @ \o v]
Nums(its) == [i \in 1..Len(its) |-> Num(its[i].obj)]
(* [h, vh] after each epoch of a run *)
RECURSIVE Hist(_, _, _, _)
Hist(s, st, a, b) == IF a > b THEN st ELSE
    Hist(s, [h |-> Put(st.h, a, Nums(s.seen[a + 1].its)), vh |-> IF HasVal(s.cfg, a) THEN Put(st.vh, a, Nums(s.seen[a + 1].val)) ELSE st.vh], a + 1, b)
Hist0(s, e) == LET f == From(s, e) IN IF f < 0 THEN [h |-> <<>>, vh |-> <<>>] ELSE
    [h |-> Sync(s.disk[e.dir][f].h, f + 1), vh |-> Sync(s.disk[e.dir][f].vh, f + 1)]
(* checkpoints on disk after saving epoch n *)
Purged(c, D, n) == [x \in {y \in DOMAIN D : c.purge = 0 \/ y >= n - c.purge} |-> D[x]]
RECURSIVE Saves(_, _, _, _, _)
Saves(s, st, D, a, b) == IF a > b THEN D ELSE
    LET st2 == Hist(s, st, a, a) IN Saves(s, st2, IF s.cfg.store THEN (a :> st2) @@ Purged(s.cfg, D, a) ELSE D, a + 1, b)
EndOf(e) == LET t == Trains(e) IN IF t = <<>> THEN 0 - 1 ELSE t[Len(t)].epoch
Files(e) == {e.files[i].epoch : i \in 1..Len(e.files)}
AtFile(e, n) == e.files[CHOOSE i \in 1..Len(e.files) : e.files[i].epoch = n]
(* a crash happens while an epoch is saved: the disk is as observed, which Conf restricts *)
DiskAfter(s, e) == LET a == From(s, e) + 1 z == EndOf(e) D == s.disk[e.dir] IN
    IF e.rejected \/ Trains(e) = <<>> THEN D
    ELSE IF ~e.crashed THEN Saves(s, Hist0(s, e), D, a, z)
    ELSE LET pre == Saves(s, Hist0(s, e), D, a, z - 1)
             post == Hist(s, Hist0(s, e), a, z)
         IN [n \in Files(e) |-> IF n = z /\ ~(z \in DOMAIN pre /\ AtFile(e, z).hist = pre[z].h /\ AtFile(e, z).vhist = pre[z].vh) THEN post ELSE IF n \in DOMAIN pre THEN pre[n] ELSE post]
Apply(s, e) == CASE e.op = "config" -> [s EXCEPT !.cfg = e.cfg]
                 [] e.op = "run" -> LET s2 == TLCEval(Learn(s, e.eps)) IN [s2 EXCEPT !.disk[e.dir] = DiskAfter(s2, e)]
FileC(s, x, D) ==
    C("checkpoint loads completely", x.ok)
    \cup (IF ~x.ok \/ ~SeenAt(s, x.epoch) THEN {} ELSE LET y == s.seen[x.epoch + 1] IN
        C("parameters stored for the epoch", x.w = y.w /\ x.v = y.v)
        \cup (IF s.cfg.breed # "SGD" THEN {} ELSE C("optimizer state stored for the epoch", x.bw = (IF s.cfg.mom = 1 THEN y.bw ELSE 0) /\ x.bv = (IF s.cfg.mom = 1 THEN y.bv ELSE 0)))
        \cup C("statistics stored for the epoch", x.sepoch = x.epoch /\ (x.epoch \notin DOMAIN D \/ (x.hist = D[x.epoch].h /\ x.vhist = D[x.epoch].vh))))
Conf(s, e) ==
    CASE e.op = "config" -> {}
      [] e.op = "run" -> UNION {UNION {
        LET c == s.cfg
            a == From(s, e) + 1
            z == EndOf(e)
            D == s2.disk[e.dir]
            pre == IF e.crashed /\ Trains(e) # <<>> THEN DOMAIN Saves(s2, Hist0(s2, e), D, a, z - 1) ELSE DOMAIN D
        IN C("a run is refused iff its checkpoint is missing", e.rejected <=> Rejected(s, e))
        \cup (IF e.rejected THEN C("refused run does nothing", e.eps = <<>>) ELSE
            C("epochs which were run", Shape(e.eps) = Want(c, a, IF e.crashed THEN z ELSE Max2(e.max - 1, a - 1)))
            \cup UNION {LET x == e.eps[i] IN
                C("learning rates", x.lr = Lrs(c, x.epoch))
                \cup C("parameter groups", x.names = Groups(c))
                \cup C("training and evaluation mode", x.mode)
                \cup (IF x.train THEN
                        C("batches in order", \A k \in 1..Len(x.its) : x.its[k].x = k) \cup C("every batch used", Len(x.its) = c.n)
                        \cup C("epoch computes the same on every run", SeenAt(s2, x.epoch) /\ s2.seen[x.epoch + 1].its = x.its /\ s2.seen[x.epoch + 1].w = x.w /\ s2.seen[x.epoch + 1].v = x.v)
                        \cup (IF c.breed = "SGD" THEN C("objective", ObjOk(c, Before(s2, x.epoch), x.epoch, x.its))
                              \cup C("parameters after the epoch", [Steps(c, Before(s2, x.epoch), x.epoch, x.its) EXCEPT !.bw = 0, !.bv = 0] = [w |-> x.w, v |-> x.v, bw |-> 0, bv |-> 0]) ELSE {})
                      ELSE C("validation leaves the parameters", x.w = s2.seen[x.epoch + 1].w /\ x.v = s2.seen[x.epoch + 1].v)
                           \cup C("validation computes the same on every run", s2.seen[x.epoch + 1].val = x.its))
                : i \in 1..Len(e.eps)})
        \cup C("checkpoints on disk", IF e.crashed THEN Files(e) \subseteq (pre \cup {z}) /\ \A n \in pre \ Files(e) : c.purge > 0 /\ n < z - c.purge ELSE Files(e) = DOMAIN D2)
        \cup C("last checkpoint", e.last = (IF Files(e) = {} THEN 0 - 1 ELSE CHOOSE x \in Files(e) : \A y \in Files(e) : y <= x))
        \cup C("all checkpoints", e.all = SetToSortSeq(Files(e), <))
        \cup UNION {FileC(s2, e.files[i], D2) : i \in 1..Len(e.files)}
        : D2 \in {TLCEval(DiskAfter(s2, e))}} : s2 \in {TLCEval(Learn(s, e.eps))}}
================================================================================
