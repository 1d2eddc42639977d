import torch
from harness import enc, guard
from pytorch3d.ops import ball_query, knn_gather, knn_points, sample_farthest_points
from pytorch3d.ops.utils import masked_gather
MODULE = "Neigh"
ASSUMPTIONS = ["coordinates on a half-integer grid (distances exact in float32); ties may be resolved either way", "CPU kernels, float32"]


def clouds(ctx, rng, norm, tight):
    N, P1, P2, D = rng.choice([0, 1, 1, 2, 3]), rng.choice([0, 1, 2, 5, 7]), rng.choice([0, 1, 3, 6, 9]), rng.choice([1, 2, 3, 3, 5, 9])
    B = 2 if tight else 12
    p1, p2 = ctx.ints((N, P1, D), -B, B), ctx.ints((N, P2, D), -B, B)
    if norm == 1:  # no ties in a coordinate: the L1 gradient is unique
        p1, p2 = 2 * p1, 2 * p2 + 1
    if rng.random() < 0.3:  # non-contiguous views
        p1, p2 = p1.transpose(0, 1).contiguous().transpose(0, 1), p2.transpose(0, 1).contiguous().transpose(0, 1)
    l1 = l2 = None
    if rng.random() < 0.7:
        l1, l2 = torch.tensor([rng.randint(0, P1) for _ in range(N)], dtype=torch.int64), torch.tensor([rng.randint(0, P2) for _ in range(N)], dtype=torch.int64)
        if rng.random() < 0.2:
            l1 = None
    return N, P1, P2, D, p1, p2, l1, l2


def query(ctx, rng, tr):
    norm, ball = rng.choice([1, 2, 2]), rng.random() < 0.4
    if ball:
        norm = 2
    N, P1, P2, D, p1, p2, l1, l2 = clouds(ctx, rng, norm, rng.random() < 0.3)
    K = rng.choice([1, 1, 2, 3, 5, 8, 11])
    e = {"op": "ball" if ball else "knn", "N": N, "P1": P1, "P2": P2, "D": D, "K": K, "norm": norm, "p1": enc(p1), "p2": enc(p2),
         "l1": enc(l1) if l1 is not None else [P1] * N, "l2": enc(l2) if l2 is not None else [P2] * N, "hasnn": rng.random() < 0.6, "hasg": True}
    e["sorted"] = rng.random() < 0.8
    g = ctx.ints((N, P1, K), -3, 3)
    snap = [x.clone() if x is not None else None for x in (p1, p2, l1, l2)]

    def go(e):
        a, b = (p1 / 2).requires_grad_(), (p2 / 2).requires_grad_()
        if ball:
            r4 = rng.choice([1, 5, 30, 100, 4000])  # radius^2 in quarter units, between grid values
            e["r4"] = r4
            kw = {} if rng.random() < 0.5 else {"skip_points_outside_cube": True}
            o = ball_query(a, b, l1, l2, K=K, radius=((r4 - 0.5) / 4) ** 0.5, return_nn=e["hasnn"], **kw)
        else:
            o = knn_points(a, b, l1, l2, K=K, norm=norm, return_nn=e["hasnn"], return_sorted=e["sorted"], **({"version": rng.choice([0, 1, 2, 3])} if rng.random() < 0.2 else {}))
        e.update(d=enc(o.dists, 4), idx=enc(o.idx))
        if e["hasnn"]:
            e["nn"] = enc(o.knn, 2)
        elif o.knn is not None:
            raise AssertionError("neighbours returned although not requested")
        (o.dists * g).sum().backward()
        e.update(g=enc(g), g1=enc(a.grad), g2=enc(b.grad))
    tr.append(guard(e, go))
    same = all((x is None and y is None) or torch.equal(x, y) for x, y in zip(snap, (p1, p2, l1, l2)))
    tr.append({"op": "same", "what": "a neighbour query does not modify its inputs", "same": same})
    if not ball and "idx" in e and rng.random() < 0.5 and P1 and N:
        U = rng.choice([1, 2, 4])
        x, gg = ctx.ints((N, P2, U), -9, 9), ctx.ints((N, P1, K, U), -3, 3)
        useL = l2 if rng.random() < 0.8 or P2 < K else None

        def gat(f):
            y = x.clone().requires_grad_()
            o = knn_gather(y, torch.tensor(e["idx"]), useL)
            f.update(o=enc(o))
            if o.requires_grad:
                o.backward(gg)
            f["gx"] = enc(y.grad if y.grad is not None else torch.zeros_like(y))
        tr.append(guard({"op": "gather", "knn": True, "x": enc(x), "D": U, "K": K, "idx": e["idx"], "len": enc(useL) if useL is not None else [P2] * N, "g": enc(gg)}, gat))


def masked(ctx, rng, tr):
    N, P, Q, K, D = rng.choice([1, 2, 3]), rng.choice([0, 1, 2, 5]), rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
    x = ctx.ints((N, P, D), -9, 9)
    two = rng.random() < 0.4
    idx = torch.tensor([[[rng.randint(-1, P - 1) for _ in range(K)] for _ in range(1 if two else Q)] for _ in range(N)])
    g = ctx.ints(tuple(idx.shape) + (D,), -3, 3)

    def go(e):
        y = x.clone().requires_grad_()
        i0 = idx[:, 0] if two else idx
        o = masked_gather(y, i0.clone())
        e["o"] = enc(o[:, None] if two else o)
        if o.requires_grad:
            o.backward(g[:, 0] if two else g)
        e["gx"] = enc(y.grad if y.grad is not None else torch.zeros_like(y))
    tr.append(guard({"op": "gather", "knn": False, "x": enc(x), "D": D, "K": K, "idx": enc(idx), "len": [], "g": enc(g)}, go))


def fps(ctx, rng, tr):
    N, P, D = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 4, 7, 10]), rng.choice([1, 2, 3, 3, 6])
    if rng.random() < 0.1:
        P = 0
    p = ctx.ints((N, P, D), *((-1, 1) if rng.random() < 0.3 else (-9, 9)))
    ln = torch.tensor([rng.randint(0, P) for _ in range(N)]) if rng.random() < 0.7 else None
    form = rng.choice(["int", "list", "tensor"])
    k = [rng.choice([0, 1, 2, 3, 6, 12]) for _ in range(N)]
    if form == "int":
        k = [rng.choice([0, 1, 2, 3, 6, 12])] * N
    Kv = k[0] if form == "int" else (list(k) if form == "list" else torch.tensor(k, dtype=rng.choice([torch.int64, torch.int32])))
    rand = rng.random() < 0.4 and (P > 0)
    g = ctx.ints((N, max(k), D), -3, 3)
    snap = p.clone()

    def go(e):
        x = (p / 2).requires_grad_()
        o, i = sample_farthest_points(x, ln, Kv, random_start_point=rand)
        e.update(o=enc(o, 2), idx=enc(i))
        if o.requires_grad:
            o.backward(g)
        e["gp"] = enc(x.grad if x.grad is not None else torch.zeros_like(x))
    tr.append(guard({"op": "fps", "N": N, "P": P, "D": D, "p": enc(p), "len": enc(ln) if ln is not None else [P] * N, "k": k, "rand": rand, "g": enc(g)}, go))
    tr.append({"op": "same", "what": "farthest point sampling does not modify its inputs", "same": torch.equal(snap, p)})
    if rng.random() < 0.15 and P > 0:
        n = rng.randint(1, P)

        def starts(e):
            x = ctx.ints((60 * P, P, 2), -9, 9)
            _, i = sample_farthest_points(x, None if n == P else torch.full((60 * P,), n), 1, random_start_point=True)
            e["o"] = sorted(set(enc(i[:, 0])))
        tr.append(guard({"op": "starts", "n": n}, starts))


def rejects(ctx, rng, tr):
    r = lambda *s: ctx.ints(s, -3, 3)  # noqa: E731
    for what, f in (("batch sizes of a neighbour query", lambda: knn_points(r(2, 3, 3), r(1, 3, 3))),
                    ("dimensions of a neighbour query", lambda: knn_points(r(1, 3, 3), r(1, 3, 2))),
                    ("norm", lambda: knn_points(r(1, 3, 3), r(1, 3, 3), norm=3)),
                    ("batch sizes of a ball query", lambda: ball_query(r(2, 3, 3), r(1, 3, 3))),
                    ("dimensions of a ball query", lambda: ball_query(r(1, 3, 3), r(1, 3, 2))),
                    ("batch of gathered features", lambda: knn_gather(r(2, 3, 3), torch.zeros(1, 2, 1, dtype=torch.int64))),
                    ("batch of gathered points", lambda: masked_gather(r(2, 3, 3), torch.zeros(1, 2, dtype=torch.int64))),
                    ("number of sample counts", lambda: sample_farthest_points(r(2, 3, 3), None, [1])),
                    ("number of lengths", lambda: sample_farthest_points(r(2, 3, 3), torch.tensor([1]), 2)),
                    ("length beyond the cloud", lambda: sample_farthest_points(r(2, 3, 3), torch.tensor([1, 4]), 2))):
        try:
            f()
            ok = False
        except ValueError:
            ok = True
        tr.append({"op": "rejects", "what": what, "rejected": ok})


def traces(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(400, 4000)):
        tr = []
        for _ in range(3):
            query(ctx, rng, tr)
        masked(ctx, rng, tr)
        fps(ctx, rng, tr)
        yield tr
    tr = []
    rejects(ctx, rng, tr)
    yield tr
