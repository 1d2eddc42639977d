------------------------------- MODULE Meshes -------------------------------
(* Abstract state of the mesh container: a register file of immutable-by-value batches.
   A batch is a record  [m |-> <<mesh, ...>>, pad |-> minimum padded face width]
   where mesh = [v |-> seq of <<x,y,z>>, f |-> seq of <<i,j,k>> (0-based)].
   Whatever the history of constructions, derivations, in-place edits and accessor calls, every
   accessor must report the projection of this state defined below. *)
EXTENDS Lists

Mesh(v, f) == [v |-> v, f |-> f]
B(ms) == [m |-> ms, pad |-> 0]
NumV(o) == [i \in 1..Len(o.m) |-> Len(o.m[i].v)]
NumF(o) == [i \in 1..Len(o.m) |-> Len(o.m[i].f)]
MaxV(o) == MaxSeq(NumV(o), 0)
MaxF(o) == MaxSeq(NumF(o), 0)
VList(o) == [i \in 1..Len(o.m) |-> o.m[i].v]
FList(o) == [i \in 1..Len(o.m) |-> o.m[i].f]
Empty(o) == \A i \in 1..Len(o.m) : Len(o.m[i].v) = 0 \/ Len(o.m[i].f) = 0
VPacked(o) == Flat(VList(o))
VFirst(o) == First(NumV(o))
FFirst(o) == First(NumF(o))
FPacked(o) == Flat([i \in 1..Len(o.m) |-> [j \in 1..Len(o.m[i].f) |-> VAdd(o.m[i].f[j], Rep(3, VFirst(o)[i]))]])
VPadded(o) == [i \in 1..Len(o.m) |-> PadTo(o.m[i].v, MaxV(o), <<0, 0, 0>>)]
FPadded(o) == [i \in 1..Len(o.m) |-> PadTo(o.m[i].f, Max2(o.pad, MaxF(o)), <<-1, -1, -1>>)]
PadIdx(o) == Flat([i \in 1..Len(o.m) |-> [j \in 1..Len(o.m[i].v) |-> (i - 1) * MaxV(o) + j - 1]])

(* ---- edges ---- *)
SE(a, b) == IF a <= b THEN <<a, b>> ELSE <<b, a>>
EdgeSet(fs) == UNION {{SE(f[1], f[2]), SE(f[2], f[3]), SE(f[3], f[1])} : f \in SeqToSet(fs)}
EPacked(o) == SetToSortSeq(EdgeSet(FPacked(o)), Lex2)
NumE(o) == [i \in 1..Len(o.m) |-> Cardinality(EdgeSet(o.m[i].f))]
EFirst(o) == First(NumE(o))
F2E(o) == LET e == EPacked(o)
              fp == FPacked(o)
          IN  [j \in 1..Len(fp) |-> LET f == fp[j] IN
                  <<Pos(e, SE(f[2], f[3])) - 1, Pos(e, SE(f[3], f[1])) - 1, Pos(e, SE(f[1], f[2])) - 1>>]

(* ---- areas and normals.  Cross product = 2 * area * unit normal ---- *)
FCross(vp, f) == LET a == vp[f[1] + 1] b == vp[f[2] + 1] c == vp[f[3] + 1] IN Cross(VSub(b, a), VSub(c, a))
FCrosses(o) == LET vp == VPacked(o) fp == FPacked(o) IN [j \in 1..Len(fp) |-> FCross(vp, fp[j])]
VCrosses(o) ==
    LET vp == VPacked(o) fp == FPacked(o) fc == FCrosses(o)
    IN  [k \in 1..Len(vp) |->
            VSum([j \in 1..Len(fp) |-> VScale(Cardinality({t \in 1..3 : fp[j][t] = k - 1}), fc[j])], <<0, 0, 0>>)]
(* observed unit vector (thousandths) against the exact direction s *)
IsUnit(obs, s) == VClose(obs, Unit1000(s), IF N2(s) < 200000 THEN 2 ELSE 4)

(* ---- derivations ---- *)
PyIdx(i, n) == IF i < 0 THEN i + n + 1 ELSE i + 1      \* python index -> 1-based
Sel(o, idx) == B([k \in 1..Len(idx) |-> o.m[PyIdx(idx[k], Len(o.m))]])
Repl(o, n) == B(Flat([i \in 1..Len(o.m) |-> Rep(n, o.m[i])]))
MapV(o, F(_, _, _)) == [o EXCEPT !.m = [i \in 1..Len(o.m) |->
                          [o.m[i] EXCEPT !.v = [j \in 1..Len(@) |-> F(i, j, @[j])]]]]
Offset(o, d) == MapV(o, LAMBDA i, j, p : VAdd(p, d[VFirst(o)[i] + j]))
Shift(o, d) == MapV(o, LAMBDA i, j, p : VAdd(p, d))
Scale(o, s) == MapV(o, LAMBDA i, j, p : VScale(s[i], p))
SetV(o, pv) == MapV(o, LAMBDA i, j, p : pv[i][j])
Scene(o) == B(<<Mesh(VPacked(o), FPacked(o))>>)
SubMesh(m, ids) ==
    LET fs == [k \in 1..Len(ids) |-> m.f[ids[k] + 1]]
        used == SortedSeq(UNION {SeqToSet(fs[k]) : k \in 1..Len(fs)})
    IN  Mesh([k \in 1..Len(used) |-> m.v[used[k] + 1]],
             [k \in 1..Len(fs) |-> [t \in 1..3 |-> Pos(used, fs[k][t]) - 1]])
Sub(o, fidx) == B(Flat([i \in 1..Len(o.m) |-> [k \in 1..Len(fidx[i]) |-> SubMesh(o.m[i], fidx[i][k])]]))
BBox(m) == [a \in 1..3 |-> <<Min({m.v[j][a] : j \in 1..Len(m.v)}), Max({m.v[j][a] : j \in 1..Len(m.v)})>>]

(* ---- the state machine: s.objs is the register file ---- *)
S0(tr) == [objs |-> <<>>]
Put(s, os) == [s EXCEPT !.objs = s.objs \o os]
O(s, e) == s.objs[e.a]
Apply(s, e) ==
    CASE e.op = "list"       -> Put(s, <<[m |-> [i \in 1..Len(e.v) |-> Mesh(e.v[i], SelectSeq(e.f[i], LAMBDA f : f[1] >= 0 /\ f[2] >= 0 /\ f[3] >= 0))], pad |-> 0]>>)
      [] e.op = "padded"     -> Put(s, <<[m |-> [i \in 1..Len(e.v) |-> Mesh(e.v[i], SelectSeq(e.f[i], LAMBDA f : f[1] >= 0))], pad |-> Len(e.f[1])]>>)
      [] e.op \in {"clone", "to_copy", "detach", "pickle"}  -> Put(s, <<O(s, e)>>)
      [] e.op = "getitem"    -> Put(s, <<Sel(O(s, e), e.idx)>>)
      [] e.op = "split"      -> Put(s, [k \in 1..Len(e.sizes) |-> LET st0 == First(e.sizes)[k] IN
                                   Sel(O(s, e), [t \in 1..e.sizes[k] |-> st0 + t - 1])])
      [] e.op = "extend"     -> Put(s, <<Repl(O(s, e), e.n)>>)
      [] e.op = "join_batch" -> Put(s, <<B(Flat([k \in 1..Len(e.as) |-> s.objs[e.as[k]].m]))>>)
      [] e.op = "join_scene" -> Put(s, <<LET j == B(Flat([k \in 1..Len(e.as) |-> s.objs[e.as[k]].m])) IN
                                   IF Len(j.m) = 1 THEN (IF Len(e.as) = 1 THEN [j EXCEPT !.pad = s.objs[e.as[1]].pad] ELSE j) ELSE Scene(j)>>)
      [] e.op = "submeshes"  -> Put(s, <<Sub(O(s, e), e.fidx)>>)
      [] e.op = "update_padded" -> Put(s, <<[SetV(O(s, e), e.v) EXCEPT !.pad = Max2(@, MaxF(O(s, e)))]>>)
      [] e.op = "offset_new" -> Put(s, <<Offset(O(s, e), e.d)>>)
      [] e.op = "scale_new"  -> Put(s, <<Scale(O(s, e), e.s)>>)
      [] e.op = "offset_"    -> [s EXCEPT !.objs[e.a] = Offset(@, e.d)]
      [] e.op = "shift_"     -> [s EXCEPT !.objs[e.a] = Shift(@, e.d)]
      [] e.op = "scale_"     -> [s EXCEPT !.objs[e.a] = Scale(@, e.s)]
      [] OTHER -> s          \* accessor calls do not change the abstract state; neither do writes into copies

(* ---- what an accessor must return ---- *)
ObsConf(o, e) ==
    LET nm == e.acc r == e.o ok(x) == C("Meshes." \o nm, x)
        live == ~Empty(o)
    IN
    CASE nm = "verts_list"   -> ok(r = VList(o))
      [] nm = "faces_list"   -> ok(r = FList(o))
      [] nm = "len"          -> ok(r = Len(o.m))
      [] nm = "isempty"      -> ok(r = Empty(o))
      [] nm = "verts_packed" -> ok(r = IF live THEN VPacked(o) ELSE <<>>)
      [] nm = "faces_packed" -> ok(r = IF live THEN FPacked(o) ELSE <<>>)
      [] nm = "verts_packed_to_mesh_idx" -> ok(r = IF live THEN Owner(NumV(o)) ELSE <<>>)
      [] nm = "faces_packed_to_mesh_idx" -> ok(r = IF live THEN Owner(NumF(o)) ELSE <<>>)
      [] nm = "mesh_to_verts_packed_first_idx" -> ok(r = IF live THEN VFirst(o) ELSE <<>>)
      [] nm = "mesh_to_faces_packed_first_idx" -> ok(r = IF live THEN FFirst(o) ELSE <<>>)
      [] nm = "num_verts_per_mesh" -> ok(~live \/ r = NumV(o))
      [] nm = "num_faces_per_mesh" -> ok(~live \/ r = NumF(o))
      [] nm = "verts_padded" -> ok(~live \/ r = VPadded(o))
      [] nm = "faces_padded" -> ok(~live \/ r = FPadded(o))
      [] nm = "verts_padded_to_packed_idx" -> ok(~live \/ r = PadIdx(o))
      [] nm = "valid"        -> ok(r = [i \in 1..Len(o.m) |-> Len(o.m[i].v) > 0 /\ Len(o.m[i].f) > 0])
      [] nm = "edges_packed" -> ok(~live \/ r = EPacked(o))
      [] nm = "edges_packed_to_mesh_idx" -> ok(~live \/ r = Owner(NumE(o)))
      [] nm = "num_edges_per_mesh" -> ok(~live \/ r = NumE(o))
      [] nm = "mesh_to_edges_packed_first_idx" -> ok(~live \/ r = EFirst(o))
      [] nm = "faces_packed_to_edges_packed" -> ok(~live \/ r = F2E(o))
      \* four times the squared area, and normal times twice the area
      [] nm = "faces_areas_packed" -> ok(~live \/ r = Map(FCrosses(o), N2))
      [] nm = "faces_normals_packed" -> ok(~live \/ (Len(r) = Len(FCrosses(o)) /\ \A j \in 1..Len(r) : IsUnit(r[j], FCrosses(o)[j])))
      [] nm = "faces_normals_padded" -> ok(~live \/ (Len(r) = Len(o.m) /\ \A i \in 1..Len(r) :
              /\ Len(r[i]) = MaxF(o)
              /\ \A j \in 1..MaxF(o) : IF j <= NumF(o)[i] THEN IsUnit(r[i][j], FCrosses(o)[FFirst(o)[i] + j]) ELSE r[i][j] = <<0, 0, 0>>))
      [] nm = "faces_normals_list" -> ok(~live \/ (Lens(r) = NumF(o) /\ LET g == Flat(r) IN \A j \in 1..Len(g) : IsUnit(g[j], FCrosses(o)[j])))
      [] nm = "verts_normals_packed" -> ok(~live \/ LET vc == VCrosses(o) IN (Len(r) = Len(vc) /\ \A j \in 1..Len(r) : IsUnit(r[j], vc[j])))
      [] nm = "verts_normals_list" -> ok(~live \/ (Lens(r) = NumV(o) /\ LET g == Flat(r) vc == VCrosses(o) IN \A j \in 1..Len(g) : IsUnit(g[j], vc[j])))
      [] nm = "verts_normals_padded" -> ok(~live \/ LET vc == VCrosses(o) IN (Len(r) = Len(o.m) /\ \A i \in 1..Len(r) :
              /\ Len(r[i]) = MaxV(o)
              /\ \A j \in 1..MaxV(o) : IF j <= NumV(o)[i] THEN IsUnit(r[i][j], vc[VFirst(o)[i] + j]) ELSE r[i][j] = <<0, 0, 0>>))
      \* rows of the graph Laplacian, times 2520 (degrees up to 10)
      [] nm = "laplacian_packed" -> ok(~live \/
              LET es == EdgeSet(FPacked(o)) n == Len(VPacked(o))
                  deg(i) == Cardinality({x \in es : x[1] = i \/ x[2] = i})
              IN  (\E x \in es : x[1] = x[2]) \/     \* a face that repeats a vertex has no graph Laplacian
                  (Len(r) = n /\ \A i \in 1..n : \A j \in 1..n :
                    r[i][j] = IF i = j THEN -2520 ELSE IF SE(i - 1, j - 1) \in es THEN RDiv(2520, deg(i - 1)) ELSE 0))
      [] nm = "bounding_boxes" -> ok(r = Map(o.m, BBox))
      [] nm = "get_mesh_verts_faces" -> ok(r = <<o.m[e.i + 1].v, o.m[e.i + 1].f>>)
      [] OTHER -> {"unknown accessor " \o nm}

Conf(s, e) ==
    CASE e.op = "obs" -> ObsConf(O(s, e), e)
      [] e.op = "input" -> C("the tensors a batch was built from are not modified by operations on batches", e.same)
      [] e.op = "rejects" -> C("invalid " \o e.what \o " is rejected", e.rejected)
      [] OTHER -> C("operation " \o e.op \o " succeeds", e.res = "ok")
=============================================================================
