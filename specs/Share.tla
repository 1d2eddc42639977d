-------------------------------- MODULE Share --------------------------------
(* Data flow between batches.  Every element of a batch comes from one element of the batch the history
   started with (src); live: differentiable with respect to it.  fresh: the object was copied somewhere on
   the way, so that writing into its tensors cannot be seen through the original batch.
   state: sequence of objects [items, fresh]; object 1 is the original. *)
EXTENDS Lists

S0(tr) == [objs |-> <<>>]
O(s, e) == s.objs[e.a]
Put(s, o) == [s EXCEPT !.objs = Append(s.objs, o)]
Copies == {"clone", "to_copy", "offset", "scale"}
Apply(s, e) ==
    CASE e.op = "new" -> Put(s, [items |-> [i \in 1..e.n |-> [src |-> i, live |-> TRUE]], fresh |-> FALSE])
      [] e.op = "derive" /\ e.act \in Copies -> Put(s, [O(s, e) EXCEPT !.fresh = TRUE])
      [] e.op = "derive" /\ e.act = "detach" -> Put(s, [O(s, e) EXCEPT !.items = [i \in DOMAIN @ |-> [src |-> @[i].src, live |-> FALSE]]])
      [] e.op = "derive" /\ e.act \in {"to", "submeshes", "subsample", "inverse"} -> Put(s, O(s, e))
      [] e.op = "derive" /\ e.act = "extend" -> Put(s, [items |-> [j \in 1..(e.n * Len(O(s, e).items)) |-> O(s, e).items[((j - 1) \div e.n) + 1]], fresh |-> TRUE])
      [] e.op = "derive" /\ e.act = "getitem" -> Put(s, [items |-> [j \in 1..Len(e.idx) |-> O(s, e).items[e.idx[j] + 1]], fresh |-> O(s, e).fresh])
      [] e.op = "derive" /\ e.act = "join" -> Put(s, [items |-> O(s, e).items \o s.objs[e.b].items, fresh |-> O(s, e).fresh /\ s.objs[e.b].fresh])
      [] OTHER -> s
Live(o) == {o.items[i].src : i \in {j \in DOMAIN o.items : o.items[j].live}}
Conf(s, e) ==
    CASE e.op = "obs" -> C("gradients reach exactly the elements the data came from", ToSet(e.reach) = Live(O(s, e)))
                    \cup C("only differentiable data requires gradients", e.req = (Live(O(s, e)) # {}))
      [] e.op = "write" -> C("writing into a copy leaves the original alone", O(s, e).fresh => ~e.changed)
      [] OTHER -> {}
=============================================================================
