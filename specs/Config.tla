-------------------------------- MODULE Config --------------------------------
(* Implicitron's configuration system. Classes are defined one after the other; implementations of a base class are
   registered under their names, the last one registered under a name wins. A class is expanded once, at its first use,
   and knows from then on the implementations which its replaceable members had at that time. Configurations are trees. *)
EXTENDS Trig
(* class: [name, rk (rank of the name in alphabetical order), kind (base, impl, conf), par (0: none), own (members)]
   member: [n, k (int, conf, optconf, rep, optrep, setct, seten), d, ty, hasct, ct, tw, twn, cust]
   node: [t (int, bool, str, none, list, node, obj, custom), i, s, v, ch (name -> node)] *)
S0(tr) == [cls |-> <<>>, exp |-> <<>>]
Leaf(t, i, x) == [t |-> t, i |-> i, s |-> x, v |-> <<>>, ch |-> <<>>]
IntL(i) == Leaf("int", i, "")
BoolL(b) == Leaf("bool", IF b THEN 1 ELSE 0, "")
StrL(x) == Leaf("str", 0, x)
NoneL == Leaf("none", 0, "")
Tree(f) == [t |-> "node", i |-> 0, s |-> "", v |-> <<>>, ch |-> f]
Empty == [x \in {} |-> 0]
RECURSIVE Root(_, _), Chain(_, _)
Root(s, c) == IF s.cls[c].par = 0 THEN c ELSE Root(s, s.cls[c].par)
Chain(s, c) == IF s.cls[c].par = 0 THEN <<c>> ELSE Append(Chain(s, s.cls[c].par), c)      (* root first *)
IsSub(s, a, b) == \E i \in 1..Len(Chain(s, a)) : Chain(s, a)[i] = b
(* ------------------------------ the registry ------------------------------ *)
Impls(s, b) == {i \in 1..Len(s.cls) : s.cls[i].kind = "impl" /\ Root(s, i) = b /\ \A j \in (i + 1)..Len(s.cls) : ~(s.cls[j].kind = "impl" /\ s.cls[j].name = s.cls[i].name /\ Root(s, j) = b)}
Named(s, b, name) == {i \in Impls(s, b) : s.cls[i].name = name}
Lookup(s, b, name) == CHOOSE i \in Named(s, b, name) : TRUE
AllOf(s, c) == LET is == {i \in Impls(s, Root(s, c)) : IsSub(s, i, c) /\ i # c} IN SetToSortSeq(is, LAMBDA a, b : s.cls[a].rk < s.cls[b].rk)
(* ------------------------------ expansion ------------------------------ *)
Own(s, c) == s.cls[c].own
IsRep(m) == m.k \in {"rep", "optrep"}
IsConf(m) == m.k \in {"conf", "optconf"}
KnownNow(s, m) == [name \in {s.cls[i].name : i \in Impls(s, m.ty)} |-> Lookup(s, m.ty, name)]
ExpandOne(s, c) == IF s.exp[c].done THEN s ELSE
    [s EXCEPT !.exp[c] = [done |-> TRUE, known |-> [n \in {Own(s, c)[i].n : i \in {i \in 1..Len(Own(s, c)) : IsRep(Own(s, c)[i])}} |->
         KnownNow(s, Own(s, c)[CHOOSE i \in 1..Len(Own(s, c)) : Own(s, c)[i].n = n /\ IsRep(Own(s, c)[i])])]]]
RECURSIVE ExpandL(_, _)
ExpandL(s, cs) == IF cs = <<>> THEN s ELSE ExpandL(ExpandOne(s, Head(cs)), Tail(cs))
Expand(s, c) == ExpandL(s, Chain(s, c))
(* the members of a class, inherited ones first *)
RECURSIVE FlatM(_, _)
FlatM(s, cs) == IF cs = <<>> THEN <<>> ELSE [i \in 1..Len(Own(s, Head(cs))) |-> [m |-> Own(s, Head(cs))[i], c |-> Head(cs)]] \o FlatM(s, Tail(cs))
Mems(s, c) == FlatM(s, Chain(s, c))
(* classes whose defaults the defaults of c contain, in an expanded state *)
Nested(s, c) == UNION {LET x == Mems(s, c)[i] IN
    IF IsConf(x.m) THEN {x.m.ty}
    ELSE IF IsRep(x.m) THEN {Lookup(s, x.m.ty, n) : n \in DOMAIN s.exp[x.c].known[x.m.n]} ELSE {} : i \in 1..Len(Mems(s, c))}
Deep(s, c) == LET RECURSIVE Go(_, _, _)
                  Go(t, todo, seen) == IF todo = {} THEN t ELSE
                      LET x == CHOOSE y \in todo : TRUE
                          t2 == Expand(t, x)
                      IN Go(t2, ((todo \ {x}) \cup Nested(t2, x)) \ (seen \cup {x}), seen \cup {x})
              IN Go(s, {c}, {})
(* ------------------------------ default configurations ------------------------------ *)
LastSet(s, c, n, k) == LET ms == Mems(s, c) is == {i \in 1..Len(ms) : ms[i].m.n = n /\ ms[i].m.k = k} IN
    [has |-> is # {}, m |-> IF is = {} THEN ms[1].m ELSE ms[CHOOSE i \in is : \A j \in is : j <= i].m]
CtLeaf(m) == IF m.ct = "" THEN NoneL ELSE StrL(m.ct)
CtOf(s, c, m) == LET o == LastSet(s, c, m.n, "setct") IN IF o.has THEN CtLeaf(o.m) ELSE IF m.hasct THEN CtLeaf(m) ELSE StrL("UNDEFAULTED")
EnOf(s, c, m) == LET o == LastSet(s, c, m.n, "seten") IN IF o.has THEN o.m.d # 0 ELSE m.d # 0
RECURSIVE Dft(_, _)
Tweaked(s, m, c) == LET d == Dft(s, c) IN IF m.tw # 0 /\ s.cls[c].name = m.twn THEN [d EXCEPT !.ch["n"] = IntL(m.tw)] ELSE d
Fs(s, c) == LET ms == Mems(s, c) IN
    LET One(x) == IF x.m.k = "int" THEN (x.m.n :> IntL(LastSet(s, c, x.m.n, "int").m.d))
                  ELSE IF IsConf(x.m) THEN ((x.m.n \o "_args") :> Tweaked(s, x.m, x.m.ty)) @@ (IF x.m.k = "optconf" THEN ((x.m.n \o "_enabled") :> BoolL(EnOf(s, c, x.m))) ELSE Empty)
                  ELSE IF IsRep(x.m) THEN ((x.m.n \o "_class_type") :> CtOf(s, c, x.m)) @@
                       [k \in {x.m.n \o "_" \o n \o "_args" : n \in DOMAIN s.exp[x.c].known[x.m.n]} |->
                            Tweaked(s, x.m, Lookup(s, x.m.ty, CHOOSE n \in DOMAIN s.exp[x.c].known[x.m.n] : k = x.m.n \o "_" \o n \o "_args"))]
                  ELSE Empty
        RECURSIVE All(_)
        All(i) == IF i = 0 THEN Empty ELSE One(ms[i]) @@ All(i - 1)
    IN All(Len(ms))
Dft(s, c) == Tree(Fs(s, c))
RECURSIVE Put(_, _, _), Override(_, _)
Put(t, path, x) == IF Len(path) = 1 THEN [t EXCEPT !.ch[path[1]] = x] ELSE [t EXCEPT !.ch[path[1]] = Put(@, Tail(path), x)]
Override(t, os) == IF os = <<>> THEN t ELSE Override(Put(t, Head(os).path, Head(os).x), Tail(os))
(* ------------------------------ creation ------------------------------ *)
Members(s, c) == LET ms == Mems(s, c) IN SelectSeq(ms, LAMBDA x : IsRep(x.m) \/ IsConf(x.m))
ArgsKey(s, m, t) == IF IsConf(m) THEN m.n \o "_args" ELSE m.n \o "_" \o t.ch[m.n \o "_class_type"].s \o "_args"
Off(m, t) == (m.k = "optconf" /\ t.ch[m.n \o "_enabled"].i = 0) \/ (IsRep(m) /\ t.ch[m.n \o "_class_type"].t = "none")
Target(s, m, t) == IF IsConf(m) THEN m.ty ELSE Lookup(s, m.ty, t.ch[m.n \o "_class_type"].s)
RECURSIVE CanMake(_, _, _), Obj(_, _, _), Log(_, _, _), Renewed(_, _, _), Used(_, _, _)
CanMake(s, c, t) == \A i \in 1..Len(Members(s, c)) : LET m == Members(s, c)[i].m IN m.cust \/ Off(m, t) \/
    ((IsConf(m) \/ Named(s, m.ty, t.ch[m.n \o "_class_type"].s) # {}) /\ ArgsKey(s, m, t) \in DOMAIN t.ch /\ CanMake(s, Target(s, m, t), t.ch[ArgsKey(s, m, t)]))
Obj(s, c, t) == LET ms == Mems(s, c)
                    One(x) == IF x.m.k = "int" THEN (x.m.n :> t.ch[x.m.n])
                              ELSE IF IsRep(x.m) \/ IsConf(x.m) THEN (x.m.n :> (IF x.m.cust THEN Leaf("custom", 0, "") ELSE IF Off(x.m, t) THEN NoneL
                                                                                ELSE Obj(s, Target(s, x.m, t), t.ch[ArgsKey(s, x.m, t)])))
                              ELSE Empty
                    RECURSIVE All(_)
                    All(i) == IF i = 0 THEN Empty ELSE One(ms[i]) @@ All(i - 1)
                IN [t |-> "obj", i |-> c, s |-> s.cls[c].name, v |-> <<>>, ch |-> All(Len(ms))]
Log(s, c, t) == LET ms == Members(s, c)
                    RECURSIVE All(_)
                    All(i) == IF i > Len(ms) THEN <<>> ELSE (IF ms[i].m.cust \/ Off(ms[i].m, t) THEN <<>> ELSE Log(s, Target(s, ms[i].m, t), t.ch[ArgsKey(s, ms[i].m, t)])) \o All(i + 1)
                IN <<c>> \o All(1)
(* some created member is of a class which was registered again after its owner was expanded *)
KnownAs(s, c, name) == LET ch == Chain(s, c)
                           hits == {i \in 1..Len(ch) : \E n \in DOMAIN s.exp[ch[i]].known : name \in DOMAIN s.exp[ch[i]].known[n]}
                       IN IF hits = {} THEN 0 ELSE LET i == CHOOSE i \in hits : \A j \in hits : j <= i
                                                       n == CHOOSE n \in DOMAIN s.exp[ch[i]].known : name \in DOMAIN s.exp[ch[i]].known[n]
                                                   IN s.exp[ch[i]].known[n][name]
Renewed(s, c, t) == \E i \in 1..Len(Members(s, c)) : LET m == Members(s, c)[i].m IN ~m.cust /\ ~Off(m, t) /\
    ((IsRep(m) /\ KnownAs(s, c, t.ch[m.n \o "_class_type"].s) \notin {0, Target(s, m, t)}) \/ Renewed(s, Target(s, m, t), t.ch[ArgsKey(s, m, t)]))
(* the configuration without the parts which are not in use *)
Used(s, c, t) == LET ms == Members(s, c)
                     keep == {ArgsKey(s, ms[i].m, t) : i \in {i \in 1..Len(ms) : ~Off(ms[i].m, t)}}
                     args == UNION {LET x == ms[i] IN IF IsConf(x.m) THEN {x.m.n \o "_args"} ELSE {x.m.n \o "_" \o n \o "_args" : n \in DOMAIN s.exp[x.c].known[x.m.n]} : i \in 1..Len(ms)}
                     Of(k) == ms[CHOOSE i \in 1..Len(ms) : ~Off(ms[i].m, t) /\ ArgsKey(s, ms[i].m, t) = k].m
                 IN Tree([k \in {k \in DOMAIN t.ch : k \notin args \/ k \in keep} |-> IF k \in keep THEN Used(s, Target(s, Of(k), t), t.ch[k]) ELSE t.ch[k]])
(* ------------------------------ observations ------------------------------ *)
RECURSIVE Is(_, _)
Is(o, w) == o.t = w.t /\ o.i = w.i /\ o.s = w.s /\ o.v = w.v /\ Len(o.ch) = Cardinality(DOMAIN w.ch)
            /\ \A k \in 1..Len(o.ch) : o.ch[k].n \in DOMAIN w.ch /\ Is(o.ch[k].x, w.ch[o.ch[k].n])
Apply(s, e) == CASE e.op = "define" -> [cls |-> Append(s.cls, e.c), exp |-> Append(s.exp, [done |-> FALSE, known |-> Empty])]
                 [] e.op = "expand" -> Expand(s, e.c)
                 [] e.op = "defaults" -> Deep(s, e.c)
                 [] OTHER -> s
FnKeep(ps) == [n \in {ps[i].n : i \in {i \in 1..Len(ps) : ps[i].has /\ ps[i].prim}} |-> LET p == ps[CHOOSE i \in 1..Len(ps) : ps[i].n = n] IN [p.d EXCEPT !.ch = Empty]]
Conf(s, e) ==
    CASE e.op = "define" -> {}
      [] e.op = "expand" -> C("expansion returns the class itself", e.same) 
      [] e.op = "get" -> LET ok == \E i \in Named(s, Root(s, e.c), e.name) : IsSub(s, i, e.c) IN
            C("registered name found iff it was registered for the class", e.rejected <=> ~ok) \cup C("implementation found", ok /\ ~e.rejected => e.i = Lookup(s, Root(s, e.c), e.name))
      [] e.op = "getall" -> C("registered implementations in alphabetical order", e.is = AllOf(s, e.c))
      [] e.op = "defaults" -> UNION {C("default configuration", Is(e.cfg, Dft(s2, e.c))) : s2 \in {TLCEval(Deep(s, e.c))}}
      [] e.op = "create" -> UNION {LET ok == CanMake(s, e.c, t) IN
            C("object created iff its implementations exist", e.rejected <=> ~ok)
            \cup (IF ~ok \/ e.rejected THEN {} ELSE
                C("created object", Is(e.obj, Obj(s, e.c, t))) \cup C("order of creation, each member once", e.log = Log(s, e.c, t))
                \cup C("warning about a redefined implementation", e.warned <=> Renewed(s, e.c, t))
                \cup C("configuration reduced to the parts in use", Is(e.red, Used(s, e.c, t)))
                \cup C("object created from the reduced configuration", Is(e.obj2, Obj(s, e.c, t))))
            : t \in {TLCEval(Override(Dft(s, e.c), e.os))}}
      [] e.op = "fn" -> C("untyped defaults are rejected", e.rejected <=> \E i \in 1..Len(e.ps) : e.ps[i].has /\ ~e.ps[i].typed)
            \cup C("default arguments of a function", e.rejected \/ Is(e.cfg, Tree(FnKeep(e.ps))))
      [] e.op = "same" -> C(e.what, e.same)
===============================================================================
