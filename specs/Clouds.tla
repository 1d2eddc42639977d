------------------------------- MODULE Clouds -------------------------------
(* Abstract state of the point-cloud container: a register file of batches
   [c |-> <<cloud, ...>>, n |-> has normals, f |-> has features, C |-> channels, free |-> padding of the normals unconstrained]
   where a cloud is a sequence of points and a point is [p |-> <<x,y,z>>, n |-> normal (thousandths) or <<>>, f |-> channels or <<>>]. *)
EXTENDS Lists

Get(pt, fld) == CASE fld = "points" -> pt.p [] fld = "normals" -> pt.n [] OTHER -> pt.f
Has(o, fld) == CASE fld = "points" -> TRUE [] fld = "normals" -> o.n [] OTHER -> o.f
Width(o, fld) == IF fld = "features" THEN o.C ELSE 3
Num(o) == [i \in 1..Len(o.c) |-> Len(o.c[i])]
MaxP(o) == MaxSeq(Num(o), 0)
List(o, fld) == [i \in 1..Len(o.c) |-> [j \in 1..Len(o.c[i]) |-> Get(o.c[i][j], fld)]]
Padded(o, fld) == [i \in 1..Len(o.c) |-> PadTo(List(o, fld)[i], MaxP(o), Rep(Width(o, fld), 0))]
Make(p, n, f, C0) == [c |-> [i \in 1..Len(p) |-> [j \in 1..Len(p[i]) |->
                          [p |-> p[i][j], n |-> IF n = <<>> THEN <<>> ELSE n[i][j], f |-> IF f = <<>> THEN <<>> ELSE f[i][j]]]],
                      n |-> n # <<>>, f |-> f # <<>>, C |-> C0, free |-> FALSE]
PyIdx(i, n) == IF i < 0 THEN i + n + 1 ELSE i + 1
Sel(o, idx) == [o EXCEPT !.c = [k \in 1..Len(idx) |-> o.c[PyIdx(idx[k], Len(o.c))]], !.free = FALSE]
MapP(o, F(_, _, _)) == [o EXCEPT !.c = [i \in 1..Len(o.c) |-> [j \in 1..Len(o.c[i]) |-> [o.c[i][j] EXCEPT !.p = F(i, j, @)]]]]
SetN(o, pn) == [o EXCEPT !.n = TRUE, !.c = [i \in 1..Len(o.c) |-> [j \in 1..Len(o.c[i]) |-> [o.c[i][j] EXCEPT !.n = pn[i][j]]]]]
SetF(o, pf, C0) == [o EXCEPT !.f = TRUE, !.C = C0, !.c = [i \in 1..Len(o.c) |-> [j \in 1..Len(o.c[i]) |-> [o.c[i][j] EXCEPT !.f = pf[i][j]]]]]
BBox(c) == [a \in 1..3 |-> <<Min({c[j].p[a] : j \in 1..Len(c)}), Max({c[j].p[a] : j \in 1..Len(c)})>>]
In(p, b) == \A a \in 1..3 : b[1][a] <= p[a] /\ p[a] <= b[2][a]
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
Rows(p, n, f, i) == [j \in 1..Len(p[i]) |-> [p |-> p[i][j], n |-> IF n = <<>> THEN <<>> ELSE n[i][j], f |-> IF f = <<>> THEN <<>> ELSE f[i][j]]]
Joined(s, as) == LET a == s.objs[as[1]] IN [a EXCEPT !.c = Flat([k \in 1..Len(as) |-> s.objs[as[k]].c]), !.free = FALSE]

S0(tr) == [objs |-> <<>>]
Put(s, os) == [s EXCEPT !.objs = s.objs \o os]
O(s, e) == s.objs[e.a]
Apply(s, e) ==
    CASE e.op = "new" -> Put(s, <<Make(e.p, e.n, e.f, e.C)>>)
      [] e.op \in {"clone", "to_copy", "detach"} -> Put(s, <<O(s, e)>>)
      [] e.op = "getitem" -> Put(s, <<Sel(O(s, e), e.idx)>>)
      [] e.op = "split" -> Put(s, [k \in 1..Len(e.sizes) |-> LET st0 == First(e.sizes)[k] IN
                                   Sel(O(s, e), [t \in 1..e.sizes[k] |-> st0 + t - 1])])
      [] e.op = "extend" -> Put(s, <<LET o == O(s, e) IN [o EXCEPT !.c = Flat([i \in 1..Len(o.c) |-> Rep(e.n, o.c[i])]), !.free = FALSE]>>)
      [] e.op = "join_batch" -> Put(s, <<Joined(s, e.as)>>)
      [] e.op = "join_scene" -> Put(s, <<LET j == Joined(s, e.as) IN [j EXCEPT !.c = <<Flat(j.c)>>]>>)
      [] e.op = "subsample" -> Put(s, <<LET m == Make(e.o.p, e.o.n, e.o.f, O(s, e).C) IN m>>)
      [] e.op = "update_padded" -> Put(s, <<LET o == MapP(O(s, e), LAMBDA i, j, p : e.p[i][j])
                                                o1 == IF e.n = <<>> THEN o ELSE [SetN(o, e.n) EXCEPT !.free = FALSE]
                                            IN  IF e.f = <<>> THEN o1 ELSE SetF(o1, e.f, e.C)>>)
      [] e.op = "estimate_" -> [s EXCEPT !.objs[e.a] = [SetN(@, e.o) EXCEPT !.free = TRUE]]
      [] e.op = "offset_new" -> Put(s, <<LET o == O(s, e) IN MapP(o, LAMBDA i, j, p : VAdd(p, e.d[First(Num(o))[i] + j]))>>)
      [] e.op = "scale_new" -> Put(s, <<MapP(O(s, e), LAMBDA i, j, p : VScale(e.s[i], p))>>)
      [] e.op = "offset_" -> [s EXCEPT !.objs[e.a] = LET o == @ IN MapP(o, LAMBDA i, j, p : VAdd(p, e.d[First(Num(o))[i] + j]))]
      [] e.op = "shift_" -> [s EXCEPT !.objs[e.a] = MapP(@, LAMBDA i, j, p : VAdd(p, e.d))]
      [] e.op = "scale_" -> [s EXCEPT !.objs[e.a] = MapP(@, LAMBDA i, j, p : VScale(e.s[i], p))]
      [] OTHER -> s

ObsConf(o, e) ==
    LET r == e.o ok(x) == C("Pointclouds." \o e.acc, x)
        fld == e.fld none == e.none
    IN
    CASE e.kind = "list"   -> ok(IF Has(o, fld) THEN ~none /\ r = List(o, fld) ELSE none)
      [] e.kind = "packed" -> ok(IF Has(o, fld) THEN ~none /\ r = Flat(List(o, fld)) ELSE none)
      [] e.kind = "padded" -> ok(IF Has(o, fld) THEN ~none /\ (IF fld = "normals" /\ o.free
                                    THEN Len(r) = Len(o.c) /\ \A i \in 1..Len(r) : Len(r[i]) = MaxP(o) /\ SubSeq(r[i], 1, Num(o)[i]) = List(o, fld)[i]
                                    ELSE r = Padded(o, fld)) ELSE none)
      [] e.acc = "num_points_per_cloud" -> ok(r = Num(o))
      [] e.acc = "packed_to_cloud_idx" -> ok(r = Owner(Num(o)))
      [] e.acc = "cloud_to_packed_first_idx" -> ok(r = First(Num(o)))
      [] e.acc = "padded_to_packed_idx" -> ok(r = Flat([i \in 1..Len(o.c) |-> [j \in 1..Num(o)[i] |-> (i - 1) * MaxP(o) + j - 1]]))
      [] e.acc = "len" -> ok(r = Len(o.c))
      [] e.acc = "isempty" -> ok(r = (\A i \in 1..Len(o.c) : Num(o)[i] = 0))
      [] e.acc = "valid" -> ok(r = [i \in 1..Len(o.c) |-> Num(o)[i] > 0])
      [] e.acc = "get_bounding_boxes" -> ok(r = Map(o.c, BBox))
      [] e.acc = "get_cloud" -> ok(r.p = List(o, "points")[e.i + 1] /\ r.nn = ~o.n /\ r.nf = ~o.f /\ r.n = (IF o.n THEN List(o, "normals")[e.i + 1] ELSE <<>>)
                                   /\ r.f = (IF o.f THEN List(o, "features")[e.i + 1] ELSE <<>>))
      [] e.acc = "inside_box" -> ok(r = Flat([i \in 1..Len(o.c) |-> [j \in 1..Num(o)[i] |-> In(o.c[i][j].p, IF Len(e.box) = 1 THEN e.box[1] ELSE e.box[i])]]))
      [] OTHER -> {"unknown accessor " \o e.acc}

Conf(s, e) ==
    CASE e.op = "obs" -> ObsConf(O(s, e), e)
      [] e.op = "input" -> C("the tensors a batch was built from are not modified by operations on batches", e.same)
      [] e.op = "subsample" -> LET o == O(s, e) r == e.o IN
            C("subsample: sizes", Lens(r.p) = [i \in 1..Len(o.c) |-> Min2(Num(o)[i], e.max[i])])
            \cup C("subsample: fields kept", (r.n # <<>>) = o.n /\ (r.f # <<>>) = o.f)
            \cup C("subsample: distinct points of the cloud, with their own normals and features", \A i \in 1..Len(o.c) :
                    LET rows == Rows(r.p, r.n, r.f, i) IN
                    /\ (Num(o)[i] <= e.max[i] => rows = o.c[i])
                    /\ \A k \in 1..Len(rows) : Count(rows, rows[k]) <= Count(o.c[i], rows[k]))
      [] e.op = "subsample_self" -> C("subsample: the batch itself is returned only when every cloud is small enough", \A i \in 1..Len(O(s, e).c) : Num(O(s, e))[i] <= e.max[i])
      [] e.op = "rejects" -> C("invalid " \o e.what \o " is rejected", e.rejected)
      [] OTHER -> C("operation " \o e.op \o " succeeds", e.res = "ok")
=============================================================================
