----------------------------- MODULE CloudCache -----------------------------
(* Design model of the point-cloud container's representations, structured like the implementation.
   Fields P (points), N (normals), F (features); each may be held in list, packed and padded form,
   and every form carries the version of the field it was computed from (-1: not held).
   The accessors are modelled with the code's laziness: the padded accessors recompute all fields when
   the *points* are not padded yet and otherwise return what is held.
   AccOk: at every reachable state every accessor would return the current version.
   The repaired update_padded is modelled; with Old = TRUE the unrepaired one, for which TLC finds the
   history  list-born batch, update_padded without features, features_padded. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxObjs, Depth, MaxEdits, Multi, Old
Fld == {"P", "N", "F"}
Rp == {"list", "packed", "padded"}
VARIABLES objs, hist
vars == <<objs, hist>>
NoRep == [f \in Fld |-> [r \in Rp |-> -1]]
Fresh(born, has, v) == [has |-> has, v |-> v, ed |-> 0,
     rep |-> [f \in Fld |-> [r \in Rp |-> IF f \in has /\ r = born THEN v[f] ELSE -1]]]
(* what the accessor f_r would do to the object, and return *)
PadList(o, f) == IF o.rep[f]["list"] # -1 THEN o ELSE [o EXCEPT !.rep[f]["list"] = o.rep[f]["padded"]]
Lists3(o) == PadList(PadList(PadList(o, "P"), "N"), "F")
Compute(o, r) == LET l == Lists3(o) IN [l EXCEPT !.rep = [f \in Fld |-> [l.rep[f] EXCEPT ![r] = l.rep[f]["list"]]]]
After(o, f, r) == CASE r = "list" -> PadList(o, f)
                    [] OTHER -> IF o.rep["P"][r] # -1 THEN o ELSE Compute(o, r)
Ret(o, f, r) == After(o, f, r).rep[f][r]
AccOk == \A i \in 1..Len(objs) : \A f \in Fld : \A r \in Rp :
            Ret(objs[i], f, r) = IF f \in objs[i].has THEN objs[i].v[f] ELSE -1
Log(e) == hist' = Append(hist, e)
Len0 == Len(objs)
CanAdd == Len0 < MaxObjs
Ed(i) == objs[i].ed < MaxEdits
New(b, h) == CanAdd /\ objs' = Append(objs, Fresh(b, h, [f \in Fld |-> 0])) /\ Log([act |-> "new", born |-> b, n |-> "N" \in h, f |-> "F" \in h])
Touch(i, f, r) == objs' = [objs EXCEPT ![i] = After(@, f, r)] /\ Log([act |-> "touch", a |-> i, f |-> f, r |-> r])
Edit(o0, packs) == LET o == IF packs THEN After(PadList(o0, "P"), "P", "packed") ELSE PadList(o0, "P")
                       v == o.v["P"] + 1
                   IN  [o EXCEPT !.v["P"] = v, !.ed = @ + 1, !.rep["P"] = [r \in Rp |-> IF r = "list" \/ @[r] # -1 THEN v ELSE -1]]
InPlace(i, a, packs) == Ed(i) /\ objs' = [objs EXCEPT ![i] = Edit(@, packs)] /\ Log([act |-> a, a |-> i])
NewEdit(i, a, packs) == CanAdd /\ Ed(i) /\ objs' = Append(objs, Edit(objs[i], packs)) /\ Log([act |-> a, a |-> i])
Copy(i, a) == CanAdd /\ objs' = Append(objs, objs[i]) /\ Log([act |-> a, a |-> i])
Derive(i, a, b) == CanAdd /\ objs' = Append([objs EXCEPT ![i] = Lists3(@)], Fresh(b, objs[i].has, objs[i].v)) /\ Log([act |-> a, a |-> i])
Est(i) == Ed(i) /\ objs' = [objs EXCEPT ![i] =
              LET o == After(@, "P", "padded") v == o.v["N"] + 1
                  l == IF o.rep["P"]["list"] # -1 THEN v ELSE -1
              IN  [o EXCEPT !.has = @ \cup {"N"}, !.v["N"] = v, !.ed = @ + 1,
                     !.rep["N"] = [r \in Rp |-> CASE r = "padded" -> v [] r = "list" -> l [] OTHER -> IF o.rep["P"]["packed"] # -1 THEN l ELSE -1]]]
          /\ Log([act |-> "estimate_", a |-> i])
UpdPad(i, g) == CanAdd /\ Ed(i) /\
    LET o == IF Old THEN objs[i] ELSE After(objs[i], "P", "padded")
        v == [f \in Fld |-> IF f \in g \/ f = "P" THEN o.v[f] + 1 ELSE o.v[f]]
        n == [has |-> o.has \cup g, v |-> v, ed |-> o.ed + 1,
              rep |-> [f \in Fld |-> IF f = "P" \/ f \in g THEN [r \in Rp |-> IF r = "padded" THEN v[f] ELSE -1] ELSE o.rep[f]]]
    IN  objs' = Append([objs EXCEPT ![i] = o], n) /\ Log([act |-> "update_padded", a |-> i, n |-> "N" \in g, f |-> "F" \in g])
Join(i, j) == Multi /\ CanAdd /\ objs[i].has = objs[j].has
    /\ objs' = Append([[objs EXCEPT ![i] = Lists3(@)] EXCEPT ![j] = Lists3(@)], Fresh("list", objs[i].has, [f \in Fld |-> 0]))
    /\ Log([act |-> "join_batch", a |-> i, b |-> j])
Subs == {{"P"} \cup x : x \in SUBSET {"N", "F"}}
Init == \E b \in {"list", "padded"} : \E h \in Subs : objs = <<Fresh(b, h, [f \in Fld |-> 0])>> /\ hist = <<[act |-> "new", born |-> b, n |-> "N" \in h, f |-> "F" \in h]>>
Next == /\ Len(hist) < Depth
        /\ \/ \E i \in 1..Len0 :
              \/ \E f \in Fld : \E r \in Rp : Touch(i, f, r)
              \/ InPlace(i, "offset_", TRUE) \/ InPlace(i, "shift_", TRUE) \/ InPlace(i, "scale_", FALSE)
              \/ NewEdit(i, "offset_new", TRUE) \/ NewEdit(i, "scale_new", FALSE)
              \/ Copy(i, "clone") \/ Est(i)
              \/ \E g \in SUBSET ({"N", "F"}) : UpdPad(i, g)
              \/ (Multi /\ (Copy(i, "to_copy") \/ Copy(i, "detach") \/ \E a \in {"getitem", "split", "extend", "subsample"} : Derive(i, a, "list")))
              \/ (Multi /\ Derive(i, "join_scene", "padded"))
              \/ \E j \in 1..Len0 : Join(i, j)
           \/ (Multi /\ \E b \in {"list", "padded"} : \E h \in Subs : New(b, h))
Spec == Init /\ [][Next]_vars
View == objs
Emit == Len(hist) < Depth \/ PrintT("BEH " \o ToJson(hist))
=============================================================================
