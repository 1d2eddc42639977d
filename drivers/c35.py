import math
import torch
from harness import enc, guard, q
from pytorch3d.common.workaround import symeig3x3
from pytorch3d.datasets.utils import collate_batched_meshes
from pytorch3d.implicitron.tools.circle_fitting import fit_circle_in_2d, fit_circle_in_3d, get_rotation_to_best_fit_xy
from pytorch3d.ops import estimate_pointcloud_local_coord_frames, estimate_pointcloud_normals, get_point_covariances, mesh_face_areas_normals, vert_align
from pytorch3d.ops.utils import convert_pointclouds_to_tensor, eyes, masked_gather, wmean
from pytorch3d.renderer import TexturesAtlas
from pytorch3d.structures import Meshes, Pointclouds
from pytorch3d.structures import utils as su
from pytorch3d.utils import checkerboard, ico_sphere, torus
MODULE = "Prims"
ASSUMPTIONS = ["integer inputs scaled by powers of two", "float32 CPU", "eigenvalue gradients where the eigenvalues are separated",
               "points whose K-th nearest neighbour is ambiguous are not judged in local frames", "in-plane offsets of generated circle points have an unspecified direction"]


def raises(f, *exc):
    try:
        f()
    except (exc or (ValueError,)):
        return True
    return False


def rej(tr, what, f, *exc):
    tr.append({"op": "rejects", "what": what, "rejected": raises(f, *exc)})


def fan(ctx, rng, tr):
    V = rng.randint(3, 6)
    v = [[rng.randint(-3, 3) for _ in range(3)] for _ in range(V)]
    fs = []
    for _ in range(rng.randint(1, 5)):
        fs.append(rng.sample(range(V), 3) if rng.random() < 0.85 else [rng.randrange(V) for _ in range(3)])
    ga, gn = [], []
    for f in fs:
        a, b, c = (torch.tensor(v[i], dtype=torch.float64) for i in f)
        deg = torch.cross(b - a, c - a, dim=0).abs().max() == 0
        ga.append(rng.randint(-3, 3))
        gn.append([0, 0, 0] if deg else [rng.randint(-3, 3) for _ in range(3)])

    def go(e):
        dt = rng.choice([torch.float32, torch.float32, torch.float64])
        x = torch.tensor(v, dtype=dt)
        if rng.random() < 0.3:
            x = x.t().contiguous().t()
        x.requires_grad_(True)
        a, n = mesh_face_areas_normals(x, torch.tensor(fs))
        (a * torch.tensor(ga)).sum().add((n * torch.tensor(gn)).sum()).backward()
        e.update(area=q(a, 1000), normal=q(n, 10000), g=q(x.grad, 10000))
    tr.append(guard({"op": "fan", "v": v, "faces": fs, "ga": ga, "gn": gn}, go))
    if rng.random() < 0.2:
        x, f = torch.rand(4, 3), torch.tensor([[0, 1, 2]])
        rej(tr, "vertex and face shapes", rng.choice([lambda: mesh_face_areas_normals(x[:, :2], f), lambda: mesh_face_areas_normals(x[None], f),
                                                      lambda: mesh_face_areas_normals(x, f[:, :2]), lambda: mesh_face_areas_normals(x, f[None]), lambda: mesh_face_areas_normals(x, f.int())]))


def valign(ctx, rng, tr):
    N = rng.choice([1, 2, 3])
    kind = rng.choice(["tensor", "meshes", "clouds"])
    V = rng.randint(1, 4)
    lens = [V if kind == "tensor" else rng.randint(1, V) for _ in range(N)]
    lim = rng.choice([7, 8, 12])
    pts = [[[rng.randint(-lim, lim) for _ in range(2)] + [rng.randint(-8, 8)] for _ in range(l)] for l in lens]
    M = max(lens)
    feats = [ctx.ints((N, rng.choice([1, 2]), rng.choice([1, 2, 3]), rng.choice([1, 2, 4])), -9, 9) for _ in range(rng.choice([1, 1, 2]))]
    al, mode, pad = rng.random() < 0.6, rng.choice(["bilinear", "bilinear", "nearest"]), rng.choice(["zeros", "border", "reflection"])
    packed = rng.random() < 0.5
    padded = [p + [[0, 0, 0]] * (M - len(p)) for p in pts]
    X = [torch.tensor(p).float().view(-1, 3) / 8 for p in pts]
    verts = {"tensor": lambda: torch.stack(X), "clouds": lambda: Pointclouds(X),
             "meshes": lambda: Meshes(X, [torch.zeros(1, 3, dtype=torch.long) for _ in X])}[kind]()
    sl = [M] * N if kind == "tensor" else lens

    def go(e):
        f = feats if len(feats) > 1 or rng.random() < 0.5 else feats[0]
        kw = {}
        if packed:
            kw["return_packed"] = True
        if mode != "bilinear" or rng.random() < 0.5:
            kw["interp_mode"] = mode
        if pad != "zeros" or rng.random() < 0.5:
            kw["padding_mode"] = pad
        if not al or rng.random() < 0.5:
            kw["align_corners"] = al
        e["out"] = q(vert_align(f, verts, **kw), 256)
    tr.append(guard({"op": "valign", "feats": [enc(f) for f in feats], "pts": padded, "lens": sl, "al": al, "mode": mode, "pad": pad, "packed": packed}, go))
    if rng.random() < 0.15:
        f = feats[0]
        x = torch.rand(N, 3, 3)
        rej(tr, "arguments of vert_align", rng.choice([lambda: vert_align(f[0], x), lambda: vert_align(f, x[0]), lambda: vert_align(f, [1]),
                                                       lambda: vert_align(torch.cat([f, f]), x)]))


def ico(ctx, rng, tr):
    for level in range(ctx.n(3, 4)):
        def go(e):
            m, p = ico_sphere(level), ico_sphere(max(level - 1, 0))
            e.update(v=q(m.verts_packed(), 10000), f=enc(m.faces_packed()), pv=q(p.verts_packed(), 10000), pf=enc(p.faces_packed()))
        tr.append(guard({"op": "ico", "level": level}, go))
    rej(tr, "level", lambda: ico_sphere(-1))


def tor(ctx, rng, tr):
    r, R = rng.randint(2, 9), rng.randint(10, 30)
    sides, rings = rng.choice([3, 4, 5, 7]), rng.choice([3, 4, 6])

    def go(e):
        m = torus(r / 10, R / 10, sides, rings)
        e.update(v=q(m.verts_packed(), 1000), f=enc(m.faces_packed()))
    tr.append(guard({"op": "torus", "r": r, "R": R, "sides": sides, "rings": rings}, go))
    rej(tr, "sides and rings of a torus", rng.choice([lambda: torus(1, 2, 0, 3), lambda: torus(1, 2, 3, 0)]))


def checker(ctx, rng, tr):
    r = rng.choice([1, 2, 3])
    c1, c2 = [rng.randint(0, 4) for _ in range(3)], [rng.randint(5, 9) for _ in range(3)]

    def go(e):
        m = checkerboard(r, tuple(map(float, c1)), tuple(map(float, c2)))
        e.update(v=enc(m.verts_packed()), f=enc(m.faces_packed()), col=enc(m.textures.atlas_packed()[:, 0, 0]))
    tr.append(guard({"op": "checker", "radius": r, "c1": c1, "c2": c2}, go))
    rej(tr, "radius", lambda: checkerboard(0))


def clouds(rng, K, same=False):
    N = rng.choice([1, 2])
    n0 = K + rng.randint(1, 4)
    B = rng.choice([3, 6])
    return [[[rng.randint(-B, B) for _ in range(3)] for _ in range(n0 if same else K + rng.randint(1, 4))] for _ in range(N)]


def pad(X):
    return su.list_to_padded(X)


def cov(ctx, rng, tr):
    K = rng.randint(1, 5)
    pts = clouds(rng, K)
    if rng.random() < 0.3:
        pts[0] = pts[0][:K]
    k = 2.0 ** rng.choice([0, 0, -3, -7, 4])
    sh = torch.tensor([float(rng.choice([0, 0, 5])) for _ in range(3)]) * k

    def go(e):
        X = [torch.tensor(p).float() * k + sh for p in pts]
        c, nn = get_point_covariances(pad(X), torch.tensor([len(p) for p in pts]), K)
        e["cov"] = [q(c[n, :len(p)] * K * K / k / k, 1) for n, p in enumerate(pts)]
        e["nn"] = [enc((nn[n, :len(p)] - sh) / k) for n, p in enumerate(pts)]
    tr.append(guard({"op": "cov", "pts": pts, "K": K}, go))


def eig(ctx, rng, tr):
    N = rng.choice([1, 2, 3])
    A = []
    for _ in range(N):
        fam = rng.choice(["any", "any", "diag", "rank1", "block", "scalar"])
        a = [[rng.randint(-5, 5) for _ in range(3)] for _ in range(3)]
        if fam == "diag":
            a = [[a[i][i] if i == j else 0 for j in range(3)] for i in range(3)]
        if fam == "scalar":
            a = [[a[0][0] if i == j else 0 for j in range(3)] for i in range(3)]
        if fam == "rank1":
            x = [rng.randint(-2, 2) for _ in range(3)]
            a = [[x[i] * x[j] for j in range(3)] for i in range(3)]
        if fam == "block":
            k = rng.randrange(3)
            a = [[0 if (i == k) != (j == k) else a[i][j] for j in range(3)] for i in range(3)]
        A.append([[a[min(i, j)][max(i, j)] for j in range(3)] for i in range(3)])
    s = 2.0 ** rng.choice([0, 0, -6, -12, 8])
    w = [rng.randint(-3, 3) for _ in range(3)]

    def go(e):
        x = (torch.tensor(A).float() * s)
        if rng.random() < 0.3:
            x = x[None]
        x.requires_grad_(True)
        val, vec = symeig3x3(x)
        if val.shape != x.shape[:-1] or vec.shape != x.shape:
            raise AssertionError("shapes")
        alone = symeig3x3(x, eigenvectors=False)
        if alone[1] is not None:
            raise AssertionError("eigenvectors were not asked for")
        (val * torch.tensor(w)).sum().backward()
        g = x.grad.view(-1, 3, 3)
        e.update(val=q(val.view(-1, 3) / s, 1000), vec=q(vec.view(-1, 3, 3), 10000), alone=q(alone[0].view(-1, 3) / s, 1000), g=q((g + g.transpose(1, 2)) / 2, 10000))
    tr.append(guard({"op": "eig", "A": A, "w": w}, go))
    if rng.random() < 0.1:
        rej(tr, "shape of the matrices", lambda: symeig3x3(torch.rand(2, 2)))


def frames(ctx, rng, tr):
    K = rng.randint(4, 6)
    tensor = rng.random() < 0.4
    pts = clouds(rng, K, tensor)
    if rng.random() < 0.3:  # a plane
        a, b = rng.choice([([1, 2, 2], [2, 1, -2]), ([1, 0, 0], [0, 1, 1]), ([1, 1, 0], [0, 1, 1])])
        pts = [[[p[0] * x + p[1] * y for x, y in zip(a, b)] for p in c] for c in pts]
        pts = [[[max(-12, min(12, x)) for x in p] for p in c] for c in pts]
    k = 2.0 ** rng.choice([0, -3, -6, -10, 4])
    dis, work, only = rng.random() < 0.7, rng.random() < 0.7, rng.random() < 0.3

    def go(e):
        X = [torch.tensor(p).float() * k for p in pts]
        P = torch.stack(X) if tensor else Pointclouds(X)
        kw = {"neighborhood_size": K, "disambiguate_directions": dis}
        if not work or rng.random() < 0.5:
            kw["use_symeig_workaround"] = work
        c, f = estimate_pointcloud_local_coord_frames(P, **kw)
        n = estimate_pointcloud_normals(P, **kw)
        if not torch.equal(torch.nan_to_num(n), torch.nan_to_num(f[..., 0])):
            raise AssertionError("normals are the first column of the frames")
        e["val"] = [q(c[i, :len(p)] * K * K / k / k, 10) for i, p in enumerate(pts)]
        e["frame"] = [q(f[i, :len(p)], 10000) for i, p in enumerate(pts)]
    tr.append(guard({"op": "frames", "pts": pts, "K": K, "dis": dis}, go))
    if rng.random() < 0.2:
        rej(tr, "neighbourhood", rng.choice([lambda: estimate_pointcloud_normals(torch.rand(1, 5, 3), 5), lambda: estimate_pointcloud_normals(torch.rand(1, 9, 2), 5)]))


def conv(ctx, rng, tr):
    N, nd = rng.randint(1, 4), rng.choice([1, 2, 2])
    D = rng.randint(1, 3)
    sizes = [rng.randint(1 if nd == 1 else 0, 3) for _ in range(N)]
    cols = [rng.randint(1, 3) for _ in range(N)] if nd == 2 and rng.random() < 0.4 else [D] * N
    eq = rng.random() < 0.2
    if eq:
        sizes, cols = [sizes[0]] * N, [cols[0]] * N
    pv = rng.choice([0, 0, -1, 7])
    X = [ctx.ints((s,) if nd == 1 else (s, c), 1, 6) for s, c in zip(sizes, cols)]
    real = [x for x in X if len(x)] or X
    dims = [max(x.shape[i] for x in real) for i in range(nd)]
    ps = None
    if rng.random() < 0.3:
        ps = [d + rng.randint(0, 2) for d in dims]
        ps = [max(a, max(x.shape[i] for x in X)) for i, a in enumerate(ps)]
        dims, eq = ps, False
    # one more regular batch for packing
    Y = [ctx.ints((s, D), 1, 6) for s in sizes]
    M = max(max(sizes), 1) + rng.randint(0, 1)
    form = rng.choice(["none", "int", "lists"])

    def go(e):
        kw = {"pad_value": float(pv)} if pv or rng.random() < 0.3 else {}
        p = su.list_to_padded(X, ps, equisized=eq, **kw)
        e["padded"] = enc(p)
        ss = {"none": None, "int": sizes, "lists": [list(x.shape) for x in X]}[form]
        e["cut"] = {"none": [[99]] * N, "int": [[s] for s in sizes], "lists": ss}[form]
        e["back"] = [enc(x) for x in su.padded_to_list(p, ss)]
        a, num, first, own = su.list_to_packed(Y)
        e.update(packed=enc(a), num=enc(num), first=enc(first), owner=enc(own))
        e["unpacked"] = [enc(x) for x in su.packed_to_list(a, sizes)]
        p3 = su.list_to_padded(Y, [M, D], pad_value=float(pv))
        e["p3"] = enc(p3)
        e["p2p"] = enc(su.padded_to_packed(p3, split_size=rng.choice([list, tuple])(sizes)))
        e["p2pv"] = enc(su.padded_to_packed(p3, pad_value=pv))
        e["p2pn"] = enc(su.padded_to_packed(p3))
    tr.append(guard({"op": "conv", "dims": dims, "pv": pv, "ss": sizes, "d3": [M, D], "x": [enc(y) for y in X], "y": [enc(y) for y in Y]}, go))
    if rng.random() < 0.2:
        x = torch.rand(2, 3, 4)
        rej(tr, "conversions", rng.choice([
            lambda: su.padded_to_list(x, [1]), lambda: su.padded_to_packed(x[0]), lambda: su.padded_to_packed(x, [1, 2], 0), lambda: su.padded_to_packed(x, [1]),
            lambda: su.padded_to_packed(x, [[1, 2], [1, 2]]), lambda: su.list_to_padded([x[0], x[0, 0]]), lambda: su.list_to_padded([x[0]], [3]),
            lambda: su.list_to_padded([x[0], 3]), lambda: su.list_to_packed([])]))


def gather(ctx, rng, tr):
    N, P, D = rng.choice([1, 2]), rng.randint(1, 4), rng.choice([1, 2, 3])
    nd = rng.choice([2, 3])
    x = ctx.ints((N, P, D), -9, 9)
    idx = ctx.ints((N, 3) if nd == 2 else (N, rng.randint(1, 3), 2), -1, P - 1, torch.long)
    snap = x.clone(), idx.clone()
    tr.append(guard({"op": "gather", "x": enc(x), "idx": enc(idx), "nd": nd, "D": D}, lambda e: e.update(out=enc(masked_gather(x, idx)))))
    tr.append({"op": "same", "what": "gathering does not modify its arguments", "same": torch.equal(x, snap[0]) and torch.equal(idx, snap[1])})
    w = rng.choice([None, [[rng.randint(0, 3) for _ in range(P)] for _ in range(rng.choice([1, N]))]])
    keep = rng.random() < 0.5

    def go(e):
        W = None if w is None else torch.tensor(w).float()
        if W is not None and len(w) == 1 and rng.random() < 0.5:
            W = W[0]
        o = wmean(x, W, keepdim=keep) if not keep or rng.random() < 0.5 else wmean(x, W)
        if tuple(o.shape) != ((N, 1, D) if keep else (N, D)):
            raise AssertionError("shape")
        e["out"] = q(o.view(N, D), 1000)
    tr.append(guard({"op": "wmean", "x": enc(x), "w": w or []}, go))
    # weights of any broadcastable shape, means over the points, over the batch or over both
    A, B = rng.choice([1, N]), rng.choice([1, P])
    w = [[rng.randint(0, 3) for _ in range(B)] for _ in range(A)]
    over = rng.choice(["points", "batch", "all"])

    def broad(e):
        W = torch.tensor(w).float()
        if A == 1 and rng.random() < 0.5:
            W = W[0]
        dim = {"points": rng.choice([1, -2]), "batch": rng.choice([0, -3]), "all": rng.choice([(0, 1), (-3, -2)])}[over]
        o = wmean(x, W, dim=dim, keepdim=keep)
        shape = {"points": (N, 1, D), "batch": (1, P, D), "all": (1, 1, D)}[over]
        if tuple(o.shape) != (shape if keep else {"points": (N, D), "batch": (P, D), "all": (D,)}[over]):
            raise AssertionError("shape")
        e["out"] = q(o.reshape(-1, D), 1000)
    tr.append(guard({"op": "wmeanb", "x": enc(x), "w": w, "over": over}, broad))
    if rng.random() < 0.2:
        rej(tr, "weights or indices", rng.choice([lambda: wmean(x[:, :1].repeat(1, 2, 1), torch.ones(3)), lambda: masked_gather(x, torch.zeros(N + 1, 2).long()), lambda: masked_gather(x, torch.zeros(N).long())]))
        d, n = rng.choice([2, 3, 4]), rng.choice([1, 3])
        tr.append({"op": "same", "what": "identity matrices", "same": torch.equal(eyes(d, n), torch.eye(d)[None].expand(n, d, d))})
        pc = Pointclouds([x[0], x[0][:1]]) if D == 3 else x
        X, l = convert_pointclouds_to_tensor(pc)
        tr.append({"op": "same", "what": "clouds as tensors", "same": l.tolist() == ([P, 1] if D == 3 else [P] * N) and X.shape[1] == P})


def angles(rng):
    k = rng.randint(1, 4)
    return [rng.randint(-30000, 60000) for _ in range(k)]


def circ(ctx, rng, tr):
    off = rng.choice([[(5, 0), (3, 4), (-3, 4), (-4, -3), (0, -5), (4, -3), (0, 5), (-5, 0)], [(1, 0), (0, 1), (-1, 0), (0, -1)]])
    c = [rng.randint(-5, 5) for _ in range(2)]
    k = rng.randint(3, len(off))
    st, d = rng.randrange(len(off)), rng.choice([1, -1])
    srt = sorted(off, key=lambda p: math.atan2(p[1], p[0]))
    p = [[c[0] + x, c[1] + y] for x, y in (srt[(st + d * i) % len(srt)] for i in range(k))]
    if rng.random() < 0.4 and len(off) == 8:  # noisy
        p = [[x + rng.choice([-1, 0, 0, 1]), y] for x, y in p]
    area = sum((p[i][0] - p[0][0]) * (p[i + 1][1] - p[0][1]) - (p[i + 1][0] - p[0][0]) * (p[i][1] - p[0][1]) for i in range(len(p) - 1))
    if area == 0 or len({tuple(x) for x in p}) < 3:
        return
    n = rng.choice([0, 0, 1, 3, 5])
    ang = angles(rng) if n == 0 and rng.random() < 0.8 else [] if n == 0 else [0] if n == 1 else [round(2 * math.pi * i / (n - 1) * 10000) for i in range(n)]

    def go(e):
        P = torch.tensor(p, dtype=torch.float64)
        if n:
            r = fit_circle_in_2d(P, n_points=n)
        elif ang:
            r = fit_circle_in_2d(P, angles=torch.tensor(ang, dtype=torch.float64) / 10000, n_points=rng.choice([0, 2]))
        else:
            r = fit_circle_in_2d(P)
        if tuple(r.generated_points.shape) != (len(ang), 2):
            raise AssertionError("shape")
        e.update(c=q(r.center, 10000), r=q(r.radius, 10000), gen=q(r.generated_points, 10000))
        if abs(r.center).max() > 40 or r.radius > 20:
            e["skip"] = True
    ev = guard({"op": "circle2", "p": p, "ang": ang}, go)
    if not ev.pop("skip", False):
        tr.append(ev)
    if rng.random() < 0.2:
        rej(tr, "number of points of a circle", lambda: fit_circle_in_2d(torch.rand(2, 2)))


BASES = [([3, 0, 0], [0, 3, 0]), ([1, 2, 2], [2, 1, -2]), ([2, 2, 1], [-2, 1, 2]), ([0, 0, 3], [0, 3, 0]), ([1, -2, 2], [2, 2, 1])]


def circ3(ctx, rng, tr):
    u, v = rng.choice(BASES)
    off = [(1, 0), (0, 1), (-1, 0), (0, -1)] if rng.random() < 0.3 else [(5, 0), (3, 4), (-3, 4), (-4, -3), (0, -5), (4, -3), (0, 5), (-5, 0)]
    srt = sorted(off, key=lambda p: math.atan2(p[1], p[0]))
    k, st, d = rng.randint(3, len(off)), rng.randrange(len(off)), rng.choice([1, -1])
    ctr = [rng.randint(-4, 4) for _ in range(3)]
    if len(off) == 4:
        k = 4
    m = [srt[(st + d * i) % len(srt)] for i in range(k)]
    p = [[ctr[i] + x * u[i] + y * v[i] for i in range(3)] for x, y in m]
    up = [rng.randint(-3, 3) for _ in range(3)]
    nrm = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    o = rng.choice([0, 0, 1, -2])
    if sum(a * b for a, b in zip(up, nrm)) == 0:
        o = 0
    ang = angles(rng) if rng.random() < 0.8 else []
    if not ang:
        o = 0

    def go(e):
        P = torch.tensor(p, dtype=torch.float64)
        kw = {"angles": torch.tensor(ang, dtype=torch.float64) / 10000} if ang else {}
        if o:
            kw.update(offset=torch.tensor([0.0, 0.0, o], dtype=torch.float64), up=torch.tensor(up, dtype=torch.float64))
        r = fit_circle_in_3d(P, **kw)
        if tuple(r.generated_points.shape) != (len(ang), 3):
            raise AssertionError("shape")
        e.update(c=q(r.center, 1000), r=q(r.radius, 1000), n=q(r.normal, 10000), gen=q(r.generated_points, 1000))
    tr.append(guard({"op": "circle3", "p": p, "ctr": ctr, "ang": ang, "off": o, "up": up}, go))
    if rng.random() < 0.2:
        P = torch.tensor(p).float()
        rej(tr, "offset without up vector", lambda: fit_circle_in_3d(P, n_points=3, offset=torch.ones(3)))


def best(ctx, rng, tr):
    N = rng.choice([1, 2, 3, 3])
    M = rng.randint(4, 6)
    p = [[[rng.randint(-3, 3) for _ in range(3)] for _ in range(M)] for _ in range(N)]
    form = rng.choice(["batch", "batch", "given", "scalar", "single"])
    if form == "single":
        N, p = 1, p[:1]
    c = [[rng.randint(-2, 2)] * 3 if form == "scalar" else [rng.randint(-2, 2) for _ in range(3)] for _ in range(N)]
    if form == "scalar":
        c = [c[0]] * N
    if form in ("batch", "single"):  # centroid by default: make it integer
        for n in range(N):
            for a in range(3):
                r = sum(x[a] for x in p[n]) % M
                p[n][0][a] -= r
            c[n] = [sum(x[a] for x in p[n]) // M for a in range(3)]

    def go(e):
        P = torch.tensor(p, dtype=torch.float64)
        if form == "single":
            R = get_rotation_to_best_fit_xy(P[0])[None]
        elif form == "batch":
            R = get_rotation_to_best_fit_xy(P)
        elif form == "scalar":
            R = get_rotation_to_best_fit_xy(P, c[0][0])
        else:
            R = get_rotation_to_best_fit_xy(P, torch.tensor(c, dtype=torch.float64)[:, None])
        e["R"] = q(R, 10000)
    tr.append(guard({"op": "bestxy", "p": p, "c": c}, go))


def coll(ctx, rng, tr):
    n = rng.randint(1, 3)
    hasm, hast = rng.random() < 0.8, rng.random() < 0.5
    items, raw = [], []
    R = rng.choice([1, 2])
    for i in range(n):
        V, F = rng.randint(3, 5), rng.randint(1, 3)
        v, f, t = ctx.ints((V, 3), -3, 3), ctx.ints((F, 3), 0, V - 1, torch.long), ctx.ints((F, R, R, 3), 0, 9)
        d = {"id": i, "verts": v}
        if hasm:
            d["faces"] = f
        if hast:
            d["textures"] = t
        raw.append(d)
        items.append({"verts": enc(v), "faces": enc(f), "atlas": enc(t)})

    def go(e):
        o = collate_batched_meshes(raw)
        e["keys"] = sorted(o)
        m = o["mesh"]
        e["mesh"] = m is not None
        if o["id"] != list(range(n)):
            raise AssertionError("lists")
        if m is not None:
            e.update(verts=[enc(x) for x in m.verts_list()], faces=[enc(x) for x in m.faces_list()], atlas=[enc(x) for x in m.textures.atlas_list()] if m.textures is not None else [])
    tr.append(guard({"op": "collate", "items": items, "wkeys": sorted(list(raw[0]) + ["mesh"]), "wmesh": hasm, "hast": hast, "verts": [], "faces": [], "atlas": []}, go))
    tr.append({"op": "same", "what": "an empty batch is collated to nothing", "same": collate_batched_meshes([]) is None and collate_batched_meshes(None) is None})


def split(ctx, rng, tr):
    n = rng.randint(1, 4)
    V = [ctx.ints((rng.randint(3, 5), 3), -3, 3) for _ in range(n)]
    F = [ctx.ints((rng.randint(1, 3), 3), 0, len(v) - 1, torch.long) for v in V]
    sizes, left = [], n
    while left and rng.random() < 0.9:
        sizes.append(rng.randint(1, left))
        left -= sizes[-1]
    if not sizes:
        sizes, left = [n], 0
    cloud = rng.random() < 0.4
    one = lambda v, f: [enc(v), enc(f)]

    def go(e):
        m = Pointclouds(V) if cloud else Meshes(V, F)
        if rng.random() < 0.5:
            m.points_padded() if cloud else m.verts_padded()
        if not cloud and rng.random() < 0.5:
            m.edges_packed(), m.faces_padded()
        o = m.split(list(sizes))
        e["out"] = [[one(v, F[0] if cloud else f) for v, f in (zip(x.points_list(), x.points_list()) if cloud else zip(x.verts_list(), x.faces_list()))] for x in o]
    if cloud:
        F = [F[0]] * n
    tr.append(guard({"op": "split", "sizes": sizes, "all": [one(v, f) for v, f in zip(V, F)]}, go))
    if rng.random() < 0.2:
        rej(tr, "split sizes", lambda: Meshes(V, F).split([1.5]))


def traces(ctx):
    rng = ctx.rng
    tr = []
    ico(ctx, rng, tr)
    yield tr
    for fn, n in ((fan, 60), (valign, 90), (tor, 8), (checker, 6), (cov, 30), (eig, 80), (frames, 60), (conv, 60), (gather, 40), (circ, 50), (circ3, 40), (best, 40), (coll, 15), (split, 25)):
        for _ in range(ctx.n(n, n * 12)):
            tr = []
            fn(ctx, rng, tr)
            if tr:
                yield tr
