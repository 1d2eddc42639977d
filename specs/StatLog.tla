-------------------------------- MODULE StatLog --------------------------------
(* The statistics of a training run, and the assignment of parameters to groups. A meter: one list of values per epoch,
   count and sum of the values of the current epoch. Values: integers; averages: * 1000. *)
EXTENDS Trig
S0(tr) == [vars |-> <<>>, epoch |-> 0 - 1, st |-> [x \in {} |-> 0], it |-> [x \in {} |-> 0], saved |-> <<>>]
NaNv == [nan |-> TRUE, x |-> 0]
Num(x) == [nan |-> FALSE, x |-> x]
Meter == [h |-> <<>>, cnt |-> 0, cur |-> <<>>]
Pad(h, n) == IF Len(h) >= n THEN h ELSE h \o [i \in 1..(n - Len(h)) |-> <<>>]
Add(m, e, x) == [h |-> [Pad(m.h, e + 1) EXCEPT ![e + 1] = Append(@, x)], cnt |-> m.cnt + 1, cur |-> Append(m.cur, x)]
Fresh(st) == [k \in DOMAIN st |-> [v \in DOMAIN st[k] |-> [st[k][v] EXCEPT !.cnt = 0, !.cur = <<>>]]]
NewEpoch(s) == [s EXCEPT !.epoch = @ + 1, !.st = Fresh(s.st), !.it = [k \in DOMAIN s.st |-> 0 - 1]]
InSeq(x, q) == \E i \in 1..Len(q) : q[i] = x
RECURSIVE Each(_, _, _, _)
Each(ms, vars, e, ep) == IF vars = <<>> THEN ms ELSE
    LET v == Head(vars) m == IF v \in DOMAIN ms THEN ms[v] ELSE Meter
        hit == {i \in 1..Len(e.preds) : e.preds[i].n = v}
    IN Each((v :> (IF hit = {} THEN m ELSE Add(m, ep, Num(e.preds[CHOOSE i \in hit : TRUE].x)))) @@ ms, Tail(vars), e, ep)
Update(s0, e) == LET s == IF s0.epoch = 0 - 1 THEN NewEpoch(s0) ELSE s0
                     s1 == IF e.set \in DOMAIN s.st THEN s ELSE [s EXCEPT !.st = (e.set :> [x \in {} |-> Meter]) @@ @, !.it = (e.set :> (0 - 1)) @@ @]
                 IN [s1 EXCEPT !.st[e.set] = Each(@, s.vars, e, s.epoch), !.it[e.set] = IF e.freeze THEN @ ELSE @ + 1]
Filled(n) == [h |-> [i \in 1..n |-> <<NaNv>>], cnt |-> n, cur |-> [i \in 1..n |-> NaNv]]
Sync1(ms, vars, n) == [v \in {vars[i] : i \in 1..Len(vars)} |-> IF v \notin DOMAIN ms THEN Filled(n) ELSE IF Len(ms[v].h) \in {n, 0} THEN ms[v] ELSE Filled(n)]
RECURSIVE AddVars(_, _)
AddVars(vs, new) == IF new = <<>> THEN vs ELSE AddVars(IF InSeq(Head(new), vs) THEN vs ELSE Append(vs, Head(new)), Tail(new))
Core(s) == [vars |-> s.vars, epoch |-> s.epoch, st |-> s.st, it |-> s.it]
Apply(s, e) == CASE e.op = "start" -> [s EXCEPT !.vars = e.vars]
                 [] e.op = "epoch" -> NewEpoch(s)
                 [] e.op = "update" -> Update(s, e)
                 [] e.op = "addvars" -> [s EXCEPT !.vars = AddVars(@, e.new)]
                 [] e.op = "sync" -> [s EXCEPT !.vars = e.new, !.st = [k \in DOMAIN @ |-> Sync1(@[k], e.new, s.epoch + 1)]]
                 [] e.op = "save" -> [s EXCEPT !.saved = <<Core(s)>>]
                 [] e.op = "load" -> LET c == s.saved[1] IN [vars |-> c.vars, epoch |-> c.epoch, st |-> c.st, it |-> c.it, saved |-> s.saved]
                 [] e.op = "reset" -> [s EXCEPT !.epoch = 0 - 1, !.st = [x \in {} |-> 0], !.it = [x \in {} |-> 0]]
                 [] OTHER -> s
RECURSIVE SumV(_)
SumV(q) == IF q = <<>> THEN 0 ELSE Head(q).x + SumV(Tail(q))
Mean(q) == IF q = <<>> \/ (\E i \in 1..Len(q) : q[i].nan) THEN NaNv ELSE Num(RDiv(1000 * SumV(q), Len(q)))
Near(o, w) == (o.nan <=> w.nan) /\ (w.nan \/ Abs(o.x - w.x) <= 1)
(* ------------------------------ parameter groups ------------------------------ *)
(* node: [name, params: <<[n, rg]>>, pg: <<[k: path, g]>>, ch] *)
Merge(a, b) == b @@ a
OwnMap(pg) == [p \in {pg[i].k : i \in 1..Len(pg)} |-> pg[CHOOSE i \in 1..Len(pg) : pg[i].k = p].g]
RECURSIVE Assigned(_, _, _, _)
Assigned(n, path, dft, map0) ==
    LET map == OwnMap(n.pg) @@ map0
        d == IF <<"self">> \in DOMAIN map THEN map[<<"self">>] ELSE dft
        At(key, other) == IF key \in DOMAIN map THEN map[key] ELSE other
    IN {<<path \o <<n.params[i].n>>, At(<<n.params[i].n>>, d)>> : i \in {i \in 1..Len(n.params) : n.params[i].rg}}
       \cup UNION {LET c == n.ch[i] sub == {p \in DOMAIN map : Len(p) > 1 /\ p[1] = c.name} IN
            Assigned(c, path \o <<c.name>>, At(<<c.name>>, d), [q \in {Tail(p) : p \in sub} |-> map[<<c.name>> \o q]]) : i \in 1..Len(n.ch)}
Rate(e, g) == IF g = "default" THEN e.lr ELSE e.rates[CHOOSE i \in 1..Len(e.rates) : e.rates[i].g = g].lr
HasRate(e, g) == g = "default" \/ \E i \in 1..Len(e.rates) : e.rates[i].g = g
Conf(s, e) ==
    CASE e.op = "start" -> {}
      [] e.op = "averages" ->
            LET set == {i \in 1..Len(e.out) : TRUE} IN
            C("sets with statistics", {e.out[i].set : i \in set} = DOMAIN s.st /\ Len(e.out) = Cardinality(DOMAIN s.st))
            \cup UNION {LET o == e.out[i] live == {v \in DOMAIN s.st[o.set] : s.st[o.set][v].cnt # 0} IN
                C("iteration and epoch", o.it = s.it[o.set] /\ o.max = s.epoch)
                \cup C("statistics which were updated", {o.vals[k].n : k \in 1..Len(o.vals)} = live)
                \cup UNION {LET v == o.vals[k] h == s.st[o.set][v.n].h IN
                     C("averages per epoch", IF e.all THEN Len(v.avg) = s.epoch /\ \A j \in 1..s.epoch : Near(v.avg[j], Mean(h[j])) ELSE Len(v.avg) = 1 /\ Near(v.avg[1], Mean(h[e.epoch + 1])))
                     : k \in {k \in 1..Len(o.vals) : o.vals[k].n \in live}}
                : i \in {i \in set : e.out[i].set \in DOMAIN s.st}}
      [] e.op = "status" -> LET live == {v \in DOMAIN s.st[e.set] : s.st[e.set][v].cnt # 0 /\ ~(e.skip /\ Mean(s.st[e.set][v].cur).nan)} IN
            C("status: epoch and iteration", e.epoch = s.epoch /\ e.it = s.it[e.set])
            \cup C("status: averages of the current epoch", {e.vals[i].n : i \in 1..Len(e.vals)} = live /\ Len(e.vals) = Cardinality(live)
                   /\ \A i \in 1..Len(e.vals) : e.vals[i].n \in live => Near(e.vals[i].avg, Mean(s.st[e.set][e.vals[i].n].cur)))
      [] e.op = "groups" -> LET w == Assigned(e.root, <<>>, "default", [x \in {} |-> ""])
                                bad == \E x \in w : ~HasRate(e, x[2])
                            IN C("missing learning rate rejected", e.rejected <=> bad)
                               \cup (IF bad \/ e.rejected THEN {} ELSE
                                    C("each trainable parameter is in exactly one group", Len(e.got) = Cardinality(w) /\ {e.got[i].p : i \in 1..Len(e.got)} = {x[1] : x \in w})
                                    \cup C("learning rate of each parameter", \A i \in 1..Len(e.got) : \A x \in w : x[1] = e.got[i].p => e.got[i].lr = Rate(e, x[2])))
      [] OTHER -> {}
================================================================================
