import torch
from harness import enc, guard, q
from pytorch3d.loss import chamfer_distance, point_mesh_edge_distance, point_mesh_face_distance
from pytorch3d.loss.point_mesh_distance import edge_point_distance, face_point_distance, point_edge_distance, point_face_distance
from pytorch3d.structures import Meshes, Pointclouds
MODULE = "Dists"
ASSUMPTIONS = ["integer coordinates, float32, CPU kernels", "gradients where nearest elements are unique up to the shared foot point", "distances of elements without counterpart in their batch element are not judged"]


def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False


def cham(ctx, rng, tr):
    N, D, hasn = rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 3, 3, 3]), rng.random() < 0.4
    form = rng.choice(["tensor", "lengths", "clouds", "mixed"])
    if form in ("clouds", "mixed") or hasn:
        D = 3
    B = rng.choice([3, 9, 9])
    full = form == "tensor"
    P1, P2 = rng.randint(1, 6), rng.randint(1, 6)
    l1 = [P1 if full else rng.randint(0, P1) for _ in range(N)]
    l2 = [P2 if full or form == "mixed" else rng.randint(0, P2) for _ in range(N)]
    if form in ("clouds", "mixed"):  # (clouds without any point have no normals at all)
        l1[0], l2[0] = max(l1[0], 1), max(l2[0], 1)
    norm, single = rng.choice([1, 2, 2]), rng.random() < 0.3
    point = rng.choice(["mean", "mean", "sum", "none", "max"])
    batch = "none" if point == "none" else rng.choice(["mean", "mean", "sum", "none"])
    if point == "max":
        hasn = False
        l1[0], l2[0] = max(l1[0], 1), max(l2[0], 1)
    hasw = rng.random() < 0.5
    w = [rng.choice([0, 1, 1, 2, 3]) for _ in range(N)] if hasw else [1] * N
    if hasw and sum(w) == 0:
        w[0] = 1
    absc = rng.random() < 0.6
    x, y = ctx.ints((N, P1, D), -B, B), ctx.ints((N, P2, D), -B, B)
    xn, yn = ctx.ints((N, P1, 3), -3, 3), ctx.ints((N, P2, 3), -3, 3)
    if form in ("clouds", "mixed"):
        P1 = max(l1)
        x, xn = x[:, :P1], xn[:, :P1]
    if form == "clouds":
        P2 = max(l2)
        y, yn = y[:, :P2], yn[:, :P2]
    e = {"op": "cham", "norm": norm, "single": single, "point": point, "batch": batch, "hasn": hasn, "hasw": hasw, "abs": absc, "w": w,
         "x": [enc(x[n, :l1[n]]) for n in range(N)], "y": [enc(y[n, :l2[n]]) for n in range(N)],
         "xn": [enc(xn[n, :l1[n]]) for n in range(N)], "yn": [enc(yn[n, :l2[n]]) for n in range(N)]}
    snap = [t.clone() for t in (x, y, xn, yn)]
    # the mean does not depend on the scale of the weights
    W = torch.tensor(w).float() * (rng.choice([1, 1 / 64, 16]) if batch == "mean" else 1) if hasw else None
    kw = dict(weights=W, batch_reduction=None if batch == "none" else batch, point_reduction=None if point == "none" else point, norm=norm, single_directional=single, abs_cosine=absc)

    def call(x, y):
        a = Pointclouds([x[n, :l1[n]] for n in range(N)], normals=[xn[n, :l1[n]] for n in range(N)] if hasn else None) if form in ("clouds", "mixed") else x
        b = Pointclouds([y[n, :l2[n]] for n in range(N)], normals=[yn[n, :l2[n]] for n in range(N)] if hasn else None) if form == "clouds" else y
        k = dict(kw)
        if form in ("lengths",):
            k.update(x_lengths=torch.tensor(l1), y_lengths=torch.tensor(l2))
        if hasn and torch.is_tensor(a):
            k["x_normals"] = xn
        if hasn and torch.is_tensor(b):
            k["y_normals"] = yn
        return chamfer_distance(a, b, **k)

    def go(e):
        o, on = call(x, y)
        e["gotn"] = on is not None
        if point == "none":
            ox, oy = (o, torch.zeros(N, 0)) if single else o
            if tuple(ox.shape) != (N, P1) or (not single and tuple(oy.shape) != (N, P2)):
                raise AssertionError("shape of the terms")
            e.update(ox=q(ox, 10000), oy=q(oy, 10000))
            if hasn:
                nx, ny = (on, torch.zeros(N, 0)) if single else on
                e.update(nx=q(nx, 10000), ny=q(ny, 10000))
        else:
            if tuple(o.shape) != ((N,) if batch == "none" else ()):
                raise AssertionError("shape of the loss")
            e["o"] = q(o.reshape(-1), 10000)
            if hasn and on is not None:
                e["on"] = q(on.reshape(-1), 10000)
    tr.append(guard(e, go))
    if form == "lengths":  # what lies beyond the lengths is no part of the clouds
        def scramble(t, l):
            t = t.clone()
            for n in range(N):
                t[n, l[n]:] = ctx.ints(t[n, l[n]:].shape, -B, B)
            return t

        def padding(e):
            k = dict(kw, x_lengths=torch.tensor(l1), y_lengths=torch.tensor(l2))
            a = chamfer_distance(x, y, **k, **({"x_normals": xn, "y_normals": yn} if hasn else {}))
            b = chamfer_distance(scramble(x, l1), scramble(y, l2), **k, **({"x_normals": scramble(xn, l1), "y_normals": scramble(yn, l2)} if hasn else {}))
            flat = lambda o: [t for u in o for t in (u if isinstance(u, tuple) else (u,)) if t is not None]
            e["same"] = len(flat(a)) == len(flat(b)) and all(torch.allclose(s, t, atol=1e-5) for s, t in zip(flat(a), flat(b)))
        tr.append(guard({"op": "same", "what": "the chamfer distance does not depend on the padding"}, padding))
    tr.append({"op": "same", "what": "the chamfer distance does not modify its inputs", "same": all(torch.equal(s, t) for s, t in zip(snap, (x, y, xn, yn)))})
    if point in ("mean", "sum") and norm == 2 and not hasn:
        def grad(e):
            a, b = x.clone().requires_grad_(), y.clone().requires_grad_()
            k = kw["batch_reduction"]
            kw["batch_reduction"] = "sum"
            kw["weights"] = torch.tensor(w).float() if hasw else None
            o = call(a, b)[0]
            if o.requires_grad:
                o.backward()
            kw["batch_reduction"] = k
            e.update(gx=q(a.grad if a.grad is not None else torch.zeros_like(a), 10000), gy=q(b.grad if b.grad is not None else torch.zeros_like(b), 10000))
        tr.append(guard({**{k: e[k] for k in ("norm", "single", "point", "w", "x", "y")}, "op": "chamgrad"}, grad))


def geometry(ctx, rng, empty):
    N = rng.choice([1, 1, 2, 3])
    v, f, p = [], [], []
    for _ in range(N):
        V = rng.randint(3, 6)
        F = rng.randint(0 if empty else 1, 4)
        x = ctx.ints((V, 3), -3, 3)
        if rng.random() < 0.3:
            x[:, 2] = 0
        v.append(x)
        f.append(torch.tensor([rng.sample(range(V), 3) for _ in range(F)], dtype=torch.int64).reshape(-1, 3))
        p.append(ctx.ints((rng.randint(0 if empty else 1, 5), 3), -3, 3))
    return N, v, f, p


def edges(f):
    return [sorted({tuple(sorted((int(t[i]), int(t[j])))) for t in fi for i, j in ((0, 1), (1, 2), (0, 2))}) for fi in f]


def meshdist(ctx, rng, tr):
    N, v, f, p = geometry(ctx, rng, False)
    face = rng.random() < 0.6
    amin = 0 if rng.random() < 0.6 else rng.choice([4, 30, 150])
    e = {"op": "mesh", "p": enc(p), "v": enc(v), "h": enc(f) if face else edges(f), "amin": amin, "thin": False}
    if face:  # feet almost on the border of thin triangles are numerically undecided
        for vi, fi in zip(v, f):
            for t in fi:
                if torch.linalg.cross(vi[t[1]] - vi[t[0]], vi[t[2]] - vi[t[0]]).norm() < 1e-6:
                    e["thin"] = True

    def go(e):
        vs, ps = [t.clone().requires_grad_() for t in v], [t.clone().requires_grad_() for t in p]
        m, c = Meshes(vs, f), Pointclouds(ps)
        if face:
            o = point_mesh_face_distance(m, c) if amin == 0 else point_mesh_face_distance(m, c, min_triangle_area=(amin + 0.5) ** 0.5 / 2)
        else:
            o = point_mesh_edge_distance(m, c)
        o.backward()
        e.update(o=q(o, 1000), gp=[q(t.grad, 1000) for t in ps], gv=[q(t.grad, 1000) for t in vs])
    tr.append(guard(e, go))


def each(ctx, rng, tr):
    N, v, f, p = geometry(ctx, rng, True)
    ed = edges(f)
    face, topoint = rng.random() < 0.5, rng.random() < 0.5
    h = enc(f) if face else [[list(x) for x in s] for s in ed]
    amin = 0 if rng.random() < 0.6 else rng.choice([4, 30, 150])
    e = {"op": "each", "p": enc(p), "v": enc(v), "h": h, "amin": amin, "topoint": topoint}

    def go(e):
        hull = torch.cat([v[n][torch.tensor(h[n], dtype=torch.int64).reshape(-1, 3 if face else 2)] for n in range(N)])
        P = torch.cat(p)
        first = lambda k: torch.tensor([sum(k[:i]) for i in range(N)])
        fp, fh = first([len(x) for x in p]), first([len(x) for x in h])
        fn = {(True, False): point_face_distance, (True, True): face_point_distance, (False, False): point_edge_distance, (False, True): edge_point_distance}[face, topoint]
        mx = max(len(x) for x in (h if topoint else p))
        args = [P, fp, hull, fh, mx] + ([(amin + 0.5) ** 0.5 / 2] if face and amin else [])
        o = fn(*args)
        if o.shape != (len(hull) if topoint else len(P),):
            raise AssertionError("number of distances")
        e["r"] = [q(t, 1000) for t in torch.split(o, [len(x) for x in (h if topoint else p)])]
    tr.append(guard(e, go))


def rejects(ctx, rng, tr):
    x, y = ctx.ints((2, 4, 3), -3, 3), ctx.ints((2, 5, 3), -3, 3)
    m = Meshes([x[0]], [torch.tensor([[0, 1, 2]])])
    for what, f in [("batch reduction", lambda: chamfer_distance(x, y, batch_reduction="max")), ("point reduction", lambda: chamfer_distance(x, y, point_reduction="min")),
                    ("batch reduction without point reduction", lambda: chamfer_distance(x, y, point_reduction=None)), ("norm", lambda: chamfer_distance(x, y, norm=3)),
                    ("normals with max", lambda: chamfer_distance(x, y, x_normals=x, y_normals=y, point_reduction="max")), ("batch sizes", lambda: chamfer_distance(x, y[:1])),
                    ("dimensions", lambda: chamfer_distance(x, y[..., :2])), ("two-dimensional clouds", lambda: chamfer_distance(x[0], y[0])),
                    ("lengths", lambda: chamfer_distance(x, y, x_lengths=torch.tensor([4, 5]))), ("number of lengths", lambda: chamfer_distance(x, y, y_lengths=torch.tensor([4]))),
                    ("negative weights", lambda: chamfer_distance(x, y, weights=torch.tensor([1.0, -1.0]))), ("number of weights", lambda: chamfer_distance(x, y, weights=torch.ones(3))),
                    ("type of the clouds", lambda: chamfer_distance([x], y)),
                    ("batch of meshes and clouds", lambda: point_mesh_face_distance(m, Pointclouds(list(x)))), ("batch of meshes and clouds", lambda: point_mesh_edge_distance(m, Pointclouds(list(x))))]:
        tr.append({"op": "rejects", "what": what, "rejected": raises(f)})


def traces(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(220, 4000)):
        for f in (cham, meshdist, each):
            tr = []
            f(ctx, rng, tr)
            f(ctx, rng, tr)
            yield tr
    tr = []
    rejects(ctx, rng, tr)
    yield tr
