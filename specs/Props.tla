-------------------------------- MODULE Props --------------------------------
(* Batched tensor properties: an object holds named fields, each a batch of rows of integers.
   A batch of one stands for any batch size (broadcasting).  obj = [n, f], f: name -> sequence of n rows. *)
EXTENDS Rat

S0(tr) == [objs |-> <<>>]
Bc(s, n) == IF Len(s) = n THEN s ELSE [i \in 1..n |-> s[1]]
(* python indexing: an integer (possibly negative) or a slice given by the resulting 0-based indices *)
Put(s, o) == [s EXCEPT !.objs = Append(s.objs, o)]
MaxN(f) == CHOOSE m \in {Len(f[k]) : k \in DOMAIN f} : \A k \in DOMAIN f : Len(f[k]) <= m
PosOf(ix, i) == CHOOSE k \in 1..Len(ix) : ix[k] = i - 1
SetRows(rows, ix, v) == [i \in 1..Len(rows) |-> IF \E k \in 1..Len(ix) : ix[k] = i - 1 THEN (IF Len(v) = 1 THEN v[1] ELSE v[PosOf(ix, i)]) ELSE rows[i]]
Apply(s, e) ==
    CASE e.op = "new" -> Put(s, [n |-> MaxN(e.f), f |-> [k \in DOMAIN e.f |-> Bc(e.f[k], MaxN(e.f))]])
      [] e.op = "set" -> [s EXCEPT !.objs[e.a].f[e.name] = SetRows(s.objs[e.a].f[e.name], e.ix, e.v)]
      [] e.op = "clone" -> Put(s, s.objs[e.a])
      [] e.op = "gather" -> LET o == s.objs[e.a] IN
            [s EXCEPT !.objs[e.a] = [n |-> IF o.n = 1 THEN 1 ELSE Len(e.ix), f |-> IF o.n = 1 THEN o.f ELSE [k \in DOMAIN o.f |-> [j \in 1..Len(e.ix) |-> o.f[k][e.ix[j] + 1]]]]]
      [] OTHER -> s

(* ---- sampling an image at NDC locations ---- *)
(* e.img[r][c] integers, h x w; location: quarter-pixel screen coordinates (x4 = 4 * x, pixel centres at 4 c + 2) *)
PixAt(img, r, c) == IF r < 0 \/ c < 0 \/ r >= Len(img) \/ c >= Len(img[1]) THEN 0 ELSE img[r + 1][c + 1]
PixB(img, r, c) == img[Max2(0, Min2(r, Len(img) - 1)) + 1][Max2(0, Min2(c, Len(img[1]) - 1)) + 1]
(* bilinear interpolation, value times 16 *)
Bil(img, x4, y4, border) == LET c == (x4 - 2) \div 4 r == (y4 - 2) \div 4 fx == (x4 - 2) % 4 fy == (y4 - 2) % 4
        P(rr, cc) == IF border THEN PixB(img, rr, cc) ELSE PixAt(img, rr, cc) IN
    (4 - fy) * ((4 - fx) * P(r, c) + fx * P(r, c + 1)) + fy * ((4 - fx) * P(r + 1, c) + fx * P(r + 1, c + 1))
Near(img, x4, y4) == PixAt(img, y4 \div 4, x4 \div 4)
(* NDC -> grid_sample coordinates (thousandths): negate, and scale the longer side *)
GridX(x, h, w) == RDiv(-x * (IF h >= w THEN w ELSE h), w)
GridY(y, h, w) == RDiv(-y * (IF h >= w THEN w ELSE h), h)

Conf(s, e) ==
    CASE e.op = "obs" -> LET o == s.objs[e.a] IN
            C("field " \o e.name \o " has the broadcast values", e.o = o.f[e.name])
            \cup C("batch size", e.n = -1 \/ e.n = o.n)
      [] e.op = "attrs" -> C("strings, booleans and None are kept as they are", e.o = <<"str", "x", "bool", "True", "None">>)
      [] e.op = "get" -> C("indexing reads the rows of the batch", e.o = [k \in 1..Len(e.ix) |-> s.objs[e.a].f[e.name][e.ix[k] + 1]])
      [] e.op = "dtype" -> C("dtype of created tensors", e.o = e.want)
      [] e.op = "bcast" -> LET n == CHOOSE m \in {Len(e.v[k]) : k \in 1..Len(e.v)} : \A k \in 1..Len(e.v) : Len(e.v[k]) <= m IN
            C("convert_to_tensors_and_broadcast", Len(e.o) = Len(e.v) /\ \A k \in 1..Len(e.v) : e.o[k] = Bc(e.v[k], n))
      [] e.op = "size" -> C("parse_image_size", e.o = e.want)
      [] e.op = "grid" -> C("NDC to grid_sample coordinates", \A k \in 1..Len(e.p) : Close(e.o[k][1], GridX(e.p[k][1], e.h, e.w), 2) /\ Close(e.o[k][2], GridY(e.p[k][2], e.h, e.w), 2))
      [] e.op = "sample" -> C("ndc_grid_sample reads the image at the NDC location", Len(e.o) = Len(e.img) /\ \A b \in 1..Len(e.img) : \A c \in 1..Len(e.img[b]) : Len(e.o[b][c]) = Len(e.loc[b]) /\ \A k \in 1..Len(e.loc[b]) :
              LET im == e.img[b][c] l == e.loc[b][k] IN
              e.o[b][c][k] = IF e.mode = "nearest" THEN 16 * Near(im, l[1], l[2]) ELSE Bil(im, l[1], l[2], e.mode = "border"))
      [] e.op = "input" -> C("tensors given by the user are not modified", e.same)
      [] e.op = "rejects" -> C("invalid " \o e.what \o " is rejected", e.rejected)
      [] OTHER -> C("operation " \o e.op \o " succeeds", e.res = "ok")
=============================================================================
