import torch
from harness import enc, guard, q
from pytorch3d.loss import mesh_edge_loss, mesh_laplacian_smoothing, mesh_normal_consistency
from pytorch3d.ops import sample_points_from_meshes
from pytorch3d.renderer import TexturesAtlas, TexturesUV, TexturesVertex
from pytorch3d.structures import Meshes
MODULE = "Regs"
ASSUMPTIONS = ["integer vertices, float32", "vertices whose cotangent weights do not have a clearly positive sum are not judged (cot)",
               "distribution of the samples: counts within six standard deviations"]


def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False


def mesh(ctx, rng, empty=True, flat=True):
    kind = rng.choice(["strip", "random", "tetra", "fan", "book"])
    B = 3
    while True:
        if kind == "tetra":
            V, f = 4, [[0, 1, 2], [0, 3, 1], [1, 3, 2], [2, 3, 0]]
        elif kind == "strip":
            V = rng.randint(4, 7)
            f = [[i, i + 1, i + 2] if i % 2 == 0 else [i + 1, i, i + 2] for i in range(V - 2)]
        elif kind == "book":  # all faces share one edge
            V = rng.randint(4, 7)
            f = [[0, 1, i] if rng.random() < 0.7 else [1, 0, i] for i in range(2, V)]
        elif kind == "fan":
            V = rng.randint(4, 7)
            f = [[0, i, i + 1] for i in range(1, V - 1)]
        else:
            V = rng.randint(3, 6)
            f = []
            for _ in range(rng.randint(0 if empty else 1, 5)):
                t = rng.sample(range(V), 3)
                if all(set(t) != set(x) for x in f):
                    f.append(t)
        v = ctx.ints((V, 3), -B, B)
        if flat or all(torch.linalg.cross(v[t[1]] - v[t[0]], v[t[2]] - v[t[0]]).norm() > 0.5 for t in f):
            return v, torch.tensor(f, dtype=torch.int64).reshape(-1, 3)


def batch(ctx, rng, empty=True, flat=True):
    while True:
        vf = [mesh(ctx, rng, empty, flat) for _ in range(rng.choice([1, 2, 3]))]
        if any(len(f) for v, f in vf):
            return [v for v, f in vf], [f for v, f in vf]


def losses(ctx, rng, tr):
    for op in rng.sample(["edge", "lap", "lap", "normal", "normal"], 3):
        method = rng.choice(["uniform", "cot", "cotcurv"])
        v, f = batch(ctx, rng, True, not (op == "lap" and method != "uniform"))
        t = rng.choice([0, 0, 5, 20])
        e = {"op": op, "v": enc(v), "f": enc(f), "t": t, "method": method, "hasg": False}
        distinct = all(torch.any(vi[a] != vi[b]) for vi, fi in zip(v, f) for x in fi.tolist() for a, b in ((x[0], x[1]), (x[1], x[2]), (x[0], x[2])))

        def go(e):
            vs = [x.clone().requires_grad_() for x in v]
            m = Meshes(vs, f)
            if rng.random() < 0.3:  # internally cached quantities make no difference
                m.edges_packed(), m.faces_normals_packed(), m.verts_padded()
            o = mesh_edge_loss(m, t / 10) if op == "edge" else mesh_normal_consistency(m) if op == "normal" else mesh_laplacian_smoothing(m, method=method)
            e["o"] = q(o.reshape(()), 10000)
            o.sum().backward()
            if op == "edge" and t == 0 and distinct:
                e.update(hasg=True, g=q([x.grad.tolist() for x in vs], 10000))
        tr.append(guard(e, go))


def sampling(ctx, rng, tr):
    v, f = batch(ctx, rng, True, True)
    if rng.random() < 0.3:  # an empty mesh within the batch
        i = rng.randrange(len(v) + 1)
        v.insert(i, torch.zeros(0, 3))
        f.insert(i, torch.zeros(0, 3, dtype=torch.int64))
    keep = []
    for vi, fi in zip(v, f):  # at least one face of positive area unless empty
        if len(fi) == 0 or any(torch.linalg.cross(vi[t[1]] - vi[t[0]], vi[t[2]] - vi[t[0]]).norm() > 0.5 for t in fi):
            keep.append((vi, fi))
    if not any(len(x[1]) for x in keep):
        return
    v, f = [x[0] for x in keep], [x[1] for x in keep]
    N, S = len(v), rng.choice([1, 5, 12])
    hasn, hast = rng.random() < 0.6, rng.random() < 0.6
    ta, tb = [[rng.randint(-2, 2) for _ in range(3)] for _ in range(rng.choice([1, 3, 4]))], []
    tb = [rng.randint(-3, 3) for _ in ta]
    kind = "vertex"
    e = {"op": "sample", "v": enc(v), "f": enc(f), "S": S, "hasn": hasn, "hast": hast, "hasg": not hast, "ta": ta, "ofs": tb}

    def go(e):
        vs = [x.clone().requires_grad_() for x in v]
        A, b = torch.tensor(ta).float(), torch.tensor(tb).float()
        tex = TexturesVertex([x @ A.T + b * (n + 1) for n, x in enumerate(v)]) if hast else None
        m = Meshes(vs, f, textures=tex)
        o = sample_points_from_meshes(m, S, return_normals=hasn, return_textures=hast)
        o = list(o) if isinstance(o, tuple) else [o]
        if len(o) != 1 + hasn + hast or any(x.shape[:2] != (N, S) for x in o):
            raise AssertionError("form of the result")
        e["s"] = q(o[0], 1000)
        if hasn:
            e["n"] = q(o[1], 10000)
        if hast:
            e["tx"] = q(o[-1], 1000)
        if not hast:
            o[0].sum().backward()
            e["g"] = q([x.grad.tolist() if x.grad is not None else torch.zeros_like(x).tolist() for x in vs], 1000)
    tr.append(guard(e, go))


def uvsampling(ctx, rng, tr):
    """Samples of UV maps and atlases: constant maps per mesh, blank for empty meshes."""
    v, f = batch(ctx, rng, False, False)
    N, S = len(v), 6
    cols = torch.tensor([[float(rng.randint(1, 9)) for _ in range(3)] for _ in range(N)])
    uv = rng.random() < 0.5
    i = rng.randrange(N + 1) if rng.random() < 0.5 else None
    if i is not None:
        v.insert(i, torch.zeros(0, 3)), f.insert(i, torch.zeros(0, 3, dtype=torch.int64))
        cols = torch.cat([cols[:i], torch.full((1, 3), 5.0), cols[i:]])
        N += 1
    if uv:
        tex = TexturesUV(cols[:, None, None, :].repeat(1, 4, 4, 1), [x.clone() for x in f], [torch.rand(max(len(x), 1), 2) if len(x) else torch.zeros(0, 2) for x in v])
    else:
        tex = TexturesAtlas([cols[n].view(1, 1, 1, 3).repeat(len(x), 2, 2, 1) for n, x in enumerate(f)])
    ok, what = [], "samples of a %s carry the texture of their own mesh" % ("UV map" if uv else "texture atlas")

    def go(e):
        s, t = sample_points_from_meshes(Meshes(v, f, textures=tex), S, return_textures=True)
        want = cols[:, None].repeat(1, S, 1)
        if i is not None:
            want[i] = 0
        e["same"] = t.shape == want.shape and torch.allclose(t, want, atol=1e-4)
    tr.append(guard({"op": "same", "what": what}, go))


def counts(ctx, rng, tr):
    n = rng.randint(2, 5)
    V, F, area = [], [], []
    for i in range(n):  # separated triangles in the planes z = i
        while True:
            t = ctx.ints((3, 3), -3, 3)
            t[:, 2] = i
            a = abs(float(torch.linalg.cross(t[1] - t[0], t[2] - t[0])[2]))
            if a > 0.5 or rng.random() < 0.1:
                break
        V.append(t), F.append([3 * i, 3 * i + 1, 3 * i + 2]), area.append(int(round(a)))
    if sum(area) == 0:
        return
    S = 20000
    other = mesh(ctx, rng, False, False)
    first = rng.random() < 0.5

    def go(e):
        v, f = torch.cat(V), torch.tensor(F)
        m = Meshes([v, other[0]], [f, other[1]]) if first else Meshes([other[0], v], [other[1], f])
        s = sample_points_from_meshes(m, S)[0 if first else 1]
        z = s[:, 2].round().long()
        quart = [0] * 4
        for i in range(n):
            p = s[z == i]
            if area[i] == 0:
                quart[0] += len(p)
                continue
            a, b, c = (x[:2].double() for x in V[i])
            w = torch.linalg.solve(torch.stack([b - a, c - a], 1), (p[:, :2].double() - a).T).T
            w = torch.cat([1 - w.sum(1, keepdim=True), w], 1)
            big = (w > 0.5)
            for k in range(3):
                quart[k] += int(big[:, k].sum())
            quart[3] += int((~big.any(1)).sum())
        e.update(cnt=[int((z == i).sum()) for i in range(n)], quart=quart)
    tr.append(guard({"op": "count", "area": area, "S": S}, go))


def rejects(ctx, rng, tr):
    v, f = torch.rand(3, 3), torch.tensor([[0, 1, 2]])
    bad = v.clone()
    bad[1, 1] = float(rng.choice(["nan", "inf"]))
    none = Meshes([v], [f[:0]])
    for what, fn in [("empty meshes", lambda: sample_points_from_meshes(none, 5)), ("meshes without textures", lambda: sample_points_from_meshes(Meshes([v], [f]), 5, return_textures=True)),
                     ("vertices which are not finite", lambda: sample_points_from_meshes(Meshes([bad], [f]), 5)), ("smoothing method", lambda: mesh_laplacian_smoothing(Meshes([v], [f]), method="x"))]:
        tr.append({"op": "rejects", "what": what, "rejected": raises(fn)})
    for what, fn in (("edge", mesh_edge_loss), ("normal consistency", mesh_normal_consistency), ("Laplacian", mesh_laplacian_smoothing)):
        def go(e):
            o = fn(none)
            e["same"] = float(o) == 0 and o.requires_grad
        tr.append(guard({"op": "same", "what": "the %s loss of empty meshes is zero" % what}, go))


def traces(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(200, 3000)):
        for f in (losses, sampling):
            tr = []
            f(ctx, rng, tr)
            if tr:
                yield tr
    for _ in range(ctx.n(30, 300)):
        tr = []
        counts(ctx, rng, tr)
        uvsampling(ctx, rng, tr)
        yield tr
    tr = []
    rejects(ctx, rng, tr)
    yield tr
