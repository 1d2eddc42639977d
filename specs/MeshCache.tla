------------------------------ MODULE MeshCache ------------------------------
(* Design model of the mesh container's lazily filled caches, structured like the implementation: one
   action per public operation, each stating which caches it fills, refreshes, keeps or drops.
   A cache entry carries the version of the geometry it was computed from:
     p  positions,  d  face directions (normals),  z  face sizes (areas)
   Coherent: no history leaves a cache holding anything but the current version.
   The same model generates the histories that are replayed into the real code (variable hist). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxObjs, Depth, MaxEdits, Multi

Caches == {"list", "packed", "padded", "edges", "areas", "vnormals", "lap", "padidx"}
Topo == {"edges", "lap", "padidx"}       \* depend on faces only

VARIABLES objs, hist
vars == <<objs, hist>>

None == <<-1, -1, -1>>
Need(o, c) == CASE c \in {"list", "packed", "padded"} -> <<o.p, 0, 0>>
                [] c = "areas"    -> <<0, o.d, o.z>>
                [] c = "vnormals" -> <<0, o.d, 0>>
                [] OTHER          -> <<0, 0, 0>>
Coherent == \A i \in 1..Len(objs) : \A c \in Caches :
               objs[i].cache[c] # None => objs[i].cache[c] = Need(objs[i], c)

Fresh(born) == [born |-> born, p |-> 0, d |-> 0, z |-> 0, ed |-> 0,
                cache |-> [c \in Caches |-> IF (c = "list" /\ born = "list") \/ (c = "padded" /\ born = "padded") THEN <<0, 0, 0>> ELSE None]]
(* filling a cache fills what it is computed from; the source versions decide what is stored *)
RECURSIVE Fill(_, _)
Fill(o, c) ==
    IF o.cache[c] # None THEN o ELSE
    LET dep == CASE c = "list" -> {"padded"} [] c = "padded" -> {"list"} [] c = "packed" -> {"list"}
                 [] c \in {"edges", "areas", "vnormals"} -> {"packed"} [] c = "lap" -> {"edges"} [] OTHER -> {}
        o1 == IF dep = {} THEN o ELSE Fill(o, CHOOSE x \in dep : TRUE)
        ver == CASE c \in {"list", "padded", "packed"} -> o1.cache[CHOOSE x \in dep : TRUE]
                 [] OTHER -> Need(o1, c)
    IN  [o1 EXCEPT !.cache[c] = ver]
Refresh(o, cs) == [o EXCEPT !.cache = [c \in Caches |-> IF c \in cs /\ @[c] # None THEN Need(o, c) ELSE @[c]]]

Log(e) == hist' = Append(hist, e)
Len0 == Len(objs)
InPlaceOk(i) == objs[i].ed < MaxEdits
CanAdd == Len0 < MaxObjs

New(b) == CanAdd /\ objs' = Append(objs, Fresh(b)) /\ Log([act |-> "new", born |-> b])
Touch(i, c) == objs' = [objs EXCEPT ![i] = Fill(@, c)] /\ Log([act |-> "touch", a |-> i, c |-> c])
OffsetFull(i) == /\ InPlaceOk(i)
    /\ objs' = [objs EXCEPT ![i] =
          LET o == Fill(Fill(@, "list"), "packed")
              n == [o EXCEPT !.p = o.p + 1, !.d = o.d + 1, !.z = o.z + 1, !.ed = o.ed + 1]
          IN  Refresh(n, {"list", "packed", "padded", "areas", "vnormals"})]
    /\ Log([act |-> "offset_", a |-> i])
ShiftAll(i) == /\ InPlaceOk(i)
    /\ objs' = [objs EXCEPT ![i] =
          LET o == Fill(Fill(@, "list"), "packed")
              n == [o EXCEPT !.p = o.p + 1, !.ed = o.ed + 1]
          IN  Refresh(n, {"list", "packed", "padded"})]       \* a translation keeps areas and normals
    /\ Log([act |-> "shift_", a |-> i])
ScaleAll(i) == /\ InPlaceOk(i)
    /\ objs' = [objs EXCEPT ![i] =
          LET o == Fill(@, "list")
              n == [o EXCEPT !.p = o.p + 1, !.z = o.z + 1, !.ed = o.ed + 1]
          IN  Refresh(n, {"list", "packed", "padded", "areas"})]  \* a uniform scaling keeps vertex normals
    /\ Log([act |-> "scale_", a |-> i])
Derive(i, a, o) == CanAdd /\ objs' = Append([objs EXCEPT ![i] = Fill(@, "list")], o) /\ Log([act |-> a, a |-> i])
Clone(i) == Derive(i, "clone", Fill(objs[i], "list"))
ToCopy(i) == Derive(i, "to_copy", Fill(objs[i], "list"))
OffsetNew(i) == objs[i].ed < MaxEdits /\
                Derive(i, "offset_new", LET o == Fill(Fill(objs[i], "list"), "packed") IN
                  Refresh([o EXCEPT !.p = o.p + 1, !.d = o.d + 1, !.z = o.z + 1, !.ed = o.ed + 1],
                          {"list", "packed", "padded", "areas", "vnormals"}))
ScaleNew(i) == objs[i].ed < MaxEdits /\
               Derive(i, "scale_new", LET o == Fill(objs[i], "list") IN
                  Refresh([o EXCEPT !.p = o.p + 1, !.z = o.z + 1, !.ed = o.ed + 1],
                          {"list", "packed", "padded", "areas"}))
GetItem(i) == Derive(i, "getitem", Fresh("list"))
Detach(i) == Derive(i, "detach", Fill(objs[i], "list"))
Extend(i) == Derive(i, "extend", Fresh("list"))
SubM(i) == Derive(i, "submeshes", Fresh("list"))
UpdatePadded(i) ==
    /\ CanAdd /\ objs[i].ed < MaxEdits
    /\ LET src == Fill(objs[i], "padded")
           src2 == IF src.cache["packed"] # None THEN Fill(src, "padidx") ELSE src
           n == [Fresh("padded") EXCEPT !.ed = src.ed + 1,
                   !.cache = [c \in Caches |-> CASE c = "padded" -> <<0, 0, 0>>
                                  [] c = "packed" -> IF src2.cache[c] # None THEN <<0, 0, 0>> ELSE None
                                  [] c = "padidx" -> IF src2.cache["packed"] # None THEN <<0, 0, 0>> ELSE None
                                  [] c \in {"edges", "lap"} -> src2.cache[c]
                                  [] OTHER -> None]]
       IN  objs' = Append([objs EXCEPT ![i] = src2], n)
    /\ Log([act |-> "update_padded", a |-> i])
JoinBatch(i, j) == Multi /\ CanAdd /\
    LET o1 == [objs EXCEPT ![i] = Fill(@, "list")]
        o2 == [o1 EXCEPT ![j] = Fill(@, "list")]
    IN  /\ objs' = Append(o2, Fresh("list"))
        /\ Log([act |-> "join_batch", a |-> i, b |-> j])
JoinScene(i) == Multi /\ Derive(i, "join_scene", Fresh("padded"))

Init == objs \in {<<Fresh("list")>>, <<Fresh("padded")>>} /\ hist = <<[act |-> "new", born |-> objs[1].born]>>
Next == /\ Len(hist) < Depth
        /\ \/ \E i \in 1..Len0 :
                \/ \E c \in Caches : Touch(i, c)
                \/ OffsetFull(i) \/ ShiftAll(i) \/ ScaleAll(i)
                \/ Clone(i) \/ OffsetNew(i) \/ ScaleNew(i) \/ UpdatePadded(i)
                \/ (Multi /\ (ToCopy(i) \/ GetItem(i) \/ Detach(i) \/ Extend(i) \/ SubM(i) \/ JoinScene(i)))
                \/ \E j \in 1..Len0 : JoinBatch(i, j)
           \/ (Multi /\ \E b \in {"list", "padded"} : New(b))
Spec == Init /\ [][Next]_vars
View == objs
Emit == Len(hist) < Depth \/ PrintT("BEH " \o ToJson(hist))
=============================================================================
