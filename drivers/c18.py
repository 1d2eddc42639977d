import torch
from harness import enc, q, guard
from meshlib import rand_lists, T3
from pytorch3d.structures import Meshes
from pytorch3d.ops import GraphConv, SubdivideMeshes, packed_to_padded, padded_to_packed, cot_laplacian, laplacian, norm_laplacian, taubin_smoothing
from pytorch3d.ops.graph_conv import gather_scatter_python
MODULE = "Topo"
ASSUMPTIONS = ["integer rows, weights and vertices (float32 exact); irrational Laplacian entries within 1%; smoothing of meshes whose vertices stay apart", "CPU"]


def pack(ctx, rng, tr):
    N, trail = rng.choice([0, 1, 2, 3, 5]), rng.choice([(), (1,), (3,), (2, 3), (2, 1, 2)])
    cnt = [rng.choice([0, 1, 2, 4]) for _ in range(N)]
    F, mx = sum(cnt), max(cnt + [0]) + rng.choice([0, 0, 2])
    first = [sum(cnt[:i]) for i in range(N)]
    D = 1
    for t in trail:
        D *= t
    ft = torch.tensor(first, dtype=torch.int64)
    x, g = ctx.ints((F,) + trail, -9, 9), ctx.ints((N, mx) + trail, -9, 9)
    base = {"first": first, "F": F, "max": mx, "D": D}

    def p(e):
        y = x.clone().requires_grad_()
        o = packed_to_padded(y, ft, mx)
        o.backward(g)
        e.update(shape=list(o.shape), o=enc(o.reshape(N, mx, D)), gx=enc(y.grad.reshape(F, D)), same=True)
    tr.append(guard(dict(base, op="pack", want=[N, mx] + list(trail), x=enc(x.reshape(F, D)), g=enc(g.reshape(N, mx, D))), p))
    k = rng.randint(1, 1 + len(trail))
    xin = g.movedim(1, k)

    def u(e):
        y = xin.clone().requires_grad_()
        o = padded_to_packed(y, ft, F, **({} if k == 1 else {"max_size_dim": k}))
        o.backward(x)
        e.update(shape=list(o.shape), o=enc(o.reshape(F, D)), gx=enc(y.grad.movedim(k, 1).reshape(N, mx, D)))
    tr.append(guard(dict(base, op="unpack", want=[F] + list(trail), x=enc(g.reshape(N, mx, D)), g=enc(x.reshape(F, D))), u))


def graph(ctx, rng, tr):
    V, D, O = rng.choice([1, 2, 4, 6]), rng.randint(1, 4), rng.randint(1, 4)
    E = rng.choice([0, 1, 3, 8])
    edges = [[rng.randrange(V), rng.randrange(V)] for _ in range(E)]
    et = torch.tensor(edges, dtype=torch.int64).reshape(-1, 2)
    direct = rng.random() < 0.5
    x, g = ctx.ints((V, D), -5, 5), ctx.ints((V, O), -5, 5)
    if rng.random() < 0.2:
        et = et.t().contiguous().t()

    def agg(e):
        y = x.clone().requires_grad_()
        o = gather_scatter_python(y, et, direct)
        gg = ctx.ints((V, D), -5, 5)
        o.backward(gg)
        e.update(o=enc(o), gx=enc(y.grad), g=enc(gg))
    tr.append(guard({"op": "agg", "edges": edges, "dir": direct, "x": enc(x), "D": D}, agg))
    w = [ctx.ints(s, -3, 3) for s in ((O, D), (O,), (O, D), (O,))]

    def conv(e):
        init = rng.choice(["normal", "zero"])
        m = GraphConv(D, O, init=init, directed=direct)
        if init == "zero" and (m.w0.weight.any() or m.w1.weight.any()):
            raise AssertionError("weights initialised with zero are not zero")
        with torch.no_grad():
            for p, v in zip((m.w0.weight, m.w0.bias, m.w1.weight, m.w1.bias), w):
                p.copy_(v)
        y = x.clone().requires_grad_()
        o = m(y, et)
        o.backward(g)
        e.update(o=enc(o), gx=enc(y.grad))
    tr.append(guard({"op": "conv", "edges": edges, "dir": direct, "x": enc(x), "D": D, "g": enc(g), "w0": enc(w[0]), "b0": enc(w[1]), "w1": enc(w[2]), "b1": enc(w[3])}, conv))
    if rng.random() < 0.1:
        o = GraphConv(D, O)(torch.zeros(0, D), torch.zeros(0, 2, dtype=torch.int64))
        tr.append({"op": "same", "what": "a graph without vertices gives no rows", "same": tuple(o.shape) == (0, O)})


def local_edges(m, n):
    ed, first, cnt = m.edges_packed(), m.mesh_to_edges_packed_first_idx(), m.num_edges_per_mesh()
    off = int(m.mesh_to_verts_packed_first_idx()[n])
    return enc(ed[int(first[n]):int(first[n]) + int(cnt[n])] - off)


def plain(fs):
    return [[f for f in F if len(set(f)) == 3] for F in fs]


def sub(ctx, rng, tr):
    pre = rng.random() < 0.4
    if pre:
        vs, fs = rand_lists(ctx, 1, False)
        n = rng.choice([1, 2, 3])
        vs, fs = [[[rng.randint(-3, 3) for _ in range(3)] for _ in vs[0]] for _ in range(n)], fs * n
    else:
        vs, fs = rand_lists(ctx)
    fs = plain(fs)
    if not any(fs):
        return
    if rng.random() < 0.3 and len({len(v) for v in vs}) == 1 and len({len(f) for f in fs}) == 1:
        m = Meshes(4 * torch.tensor(vs).float(), torch.tensor(fs))
    else:
        m = Meshes([4 * T3(v) for v in vs], [T3(f, torch.int64) for f in fs])
    D = rng.choice([0, 0, 1, 3])
    feats = None if D == 0 else 4 * ctx.ints((sum(map(len, vs)), D), -5, 5)
    for level in range(rng.choice([1, 1, 2])):
        if max(map(len, fs)) > 8:
            break
        V, Fc = [enc(v) for v in m.verts_list()], [enc(f) for f in m.faces_list()]
        nv = [len(v) for v in V]
        ev = {"op": "sub", "v": V, "f": Fc, "ed": [], "x": [] if feats is None else [enc(t) for t in feats.split(nv)]}
        snap = [m.verts_packed().clone(), m.faces_packed().clone()]
        keep = []

        def go(e):
            e["ed"] = [local_edges(m, i) for i in range(len(m))]
            S = SubdivideMeshes(m[0]) if pre else SubdivideMeshes()
            fin = feats
            if pre and feats is not None and rng.random() < 0.5:
                fin = feats.view(len(nv), nv[0], D)
            r = S(m, fin) if feats is not None else S(m)
            m2, f2 = r if feats is not None else (r, None)
            e.update(ov=[enc(v, 2) for v in m2.verts_list()], of=[enc(f) for f in m2.faces_list()], ox=[])
            if f2 is not None:
                f2 = f2.reshape(-1, D)
                e["ox"] = [enc(t, 2) for t in f2.split([len(v) for v in m2.verts_list()])]
            keep.append((m2, f2))
        tr.append(guard(ev, go))
        tr.append({"op": "same", "what": "subdivision does not modify the mesh", "same": torch.equal(snap[0], m.verts_packed()) and torch.equal(snap[1], m.faces_packed())})
        if not keep:
            break
        m, feats = keep[0]
        fs = [enc(f) for f in m.faces_list()]


def laps(ctx, rng, tr):
    V = rng.randint(3, 6)
    v = rng.sample([[a, b, c] for a in range(-2, 3) for b in range(-2, 3) for c in range(-2, 3)], V)
    sub_ = lambda a, b: [x - y for x, y in zip(a, b)]  # noqa: E731
    cross = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]  # noqa: E731
    f = [t for t in (rng.sample(range(V), 3) for _ in range(rng.randint(1, 5))) if any(cross(sub_(v[t[1]], v[t[0]]), sub_(v[t[2]], v[t[0]])))]
    vt, ft = torch.tensor(v).float(), torch.tensor(f, dtype=torch.int64).reshape(-1, 3)
    allp = [[a, b] for a in range(V) for b in range(a + 1, V)]
    edges = [p if rng.random() < 0.5 else p[::-1] for p in rng.sample(allp, rng.randint(0, len(allp)))]
    et = torch.tensor(edges, dtype=torch.int64).reshape(-1, 2)

    def lap(e):
        e["o"] = enc(laplacian(vt, et), 10000, exact=0)
    tr.append(guard({"op": "lap", "V": V, "edges": edges}, lap))

    def nrm(e):
        e["o"] = q(norm_laplacian(vt, et).to_dense(), 100000)
    tr.append(guard({"op": "norm", "V": V, "edges": edges, "v": v}, nrm))

    def cot(e):
        s = rng.choice([1, 1, 1 / 8, 1 / 64, 8])  # angles do not depend on the unit of length
        L, ia = cot_laplacian(vt * s, ft)
        e.update(o=q(L.to_dense(), 1000), ia=q(ia * s * s, 1000000))
    tr.append(guard({"op": "cot", "V": V, "f": f, "v": v}, cot))


def taubin(ctx, rng, tr):
    vs, fs = rand_lists(ctx)
    fs = plain(fs)
    if not any(fs):
        return
    grid = [[a, b, c] for a in range(-3, 4) for b in range(-3, 4) for c in range(-3, 4)]
    vs = [rng.sample(grid, len(v)) for v in vs]
    m = Meshes([T3(v) for v in vs], [T3(f, torch.int64) for f in fs])
    lam, mu, n = rng.choice([1, 2]), rng.choice([0, -1, -2]), rng.choice([0, 1, 1, 2])
    ev = {"op": "taubin", "v": enc(m.verts_packed()), "f": [enc(f) for f in m.faces_list()], "edges": enc(m.edges_packed()), "lam": lam, "mu": mu, "n": n}

    def go(e):
        o = taubin_smoothing(m, lam / 4, mu / 4, n)
        e.update(o=q(o.verts_packed(), 1000), of=[enc(f) for f in o.faces_list()])
    tr.append(guard(ev, go))
    tr.append({"op": "same", "what": "smoothing does not modify the mesh", "same": enc(m.verts_packed()) == ev["v"]})


def rejects(tr):
    i64 = torch.int64
    for what, f in (("two-dimensional first index", lambda: packed_to_padded(torch.zeros(2, 3), torch.zeros(1, 1, dtype=i64), 2)),
                    ("dtype of packed rows", lambda: packed_to_padded(torch.zeros(2, 3, dtype=torch.float64), torch.zeros(1, dtype=i64), 2)),
                    ("dtype of first indices", lambda: packed_to_padded(torch.zeros(2, 3), torch.zeros(1, dtype=torch.int32), 2)),
                    ("type of max_size", lambda: packed_to_padded(torch.zeros(2, 3), torch.zeros(1, dtype=i64), 2.0)),
                    ("dtype of padded rows", lambda: padded_to_packed(torch.zeros(1, 2, 3, dtype=torch.float64), torch.zeros(1, dtype=i64), 2)),
                    ("type of num_inputs", lambda: padded_to_packed(torch.zeros(1, 2, 3), torch.zeros(1, dtype=i64), 2.0)),
                    ("GraphConv initialization", lambda: GraphConv(2, 2, init="ones")),
                    ("shape of edges", lambda: gather_scatter_python(torch.zeros(2, 2), torch.zeros(2, 3, dtype=i64), False)),
                    ("dtype of edges", lambda: gather_scatter_python(torch.zeros(2, 2), torch.zeros(2, 2), False))):
        try:
            f()
            ok = False
        except ValueError:
            ok = True
        tr.append({"op": "rejects", "what": what, "rejected": ok})


def traces(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(300, 3000)):
        tr = []
        pack(ctx, rng, tr)
        graph(ctx, rng, tr)
        sub(ctx, rng, tr)
        laps(ctx, rng, tr)
        taubin(ctx, rng, tr)
        yield tr
    tr = []
    rejects(tr)
    yield tr
