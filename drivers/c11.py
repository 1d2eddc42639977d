import itertools, numpy as np, torch
from harness import q, guard, attempt
from pytorch3d.structures import Meshes
from pytorch3d.renderer import (MeshRasterizer, RasterizationSettings, PerspectiveCameras, OrthographicCameras,
    FoVPerspectiveCameras, FoVOrthographicCameras, rasterize_meshes)
from pytorch3d.renderer.mesh.rasterize_meshes import rasterize_meshes_python
MODULE = "Rast"
ASSUMPTIONS = ["integer vertex grids relative to the pixel grid; pixels exactly on an edge are decided only where float32 arithmetic is exact",
               "faces seen almost edge-on by perspective cameras and clipped faces on their internal diagonal are not decided"]
PERMS = [(p, s) for p in itertools.permutations(range(3)) for s in itertools.product((1, -1), repeat=3)
         if round(np.linalg.det(np.eye(3)[list(p)] * np.array(s))) == 1]


def sizes(rng, big=False):
    m = rng.choice([1, 2, 2, 4, 4, 4, 3, 5])
    M = rng.choice([m, m, m + 1, m + 2, 2 * m])
    return rng.choice([(m, M), (M, m)])


def tri_faces(rng, nv, nf):
    return [rng.sample(range(nv), 3) if nv >= 3 else [0, 0, 0] for _ in range(nf if nv >= 3 else 0)]


def out(r, n):
    f, z, b, d = r
    z, b, d = (torch.round(x.double().clamp(-2e5, 2e5) * 10000) for x in (z, b, d))
    t = torch.cat([f[..., None].double(), z[..., None], b, d[..., None]], -1)
    if not torch.isfinite(t).all():
        raise AssertionError("non-finite rasterization output")
    return t.long().tolist()


def mesh(rng, vs, fs, dtype=torch.int64):
    return Meshes([torch.tensor(v).float().reshape(-1, 3) for v in vs], [torch.tensor(f).to(dtype).reshape(-1, 3) for f in fs])


def raw(ctx, rng, tr):
    H, W = sizes(rng)
    m = min(H, W)
    kind = rng.choice(["plain", "plain", "blur", "blur", "clip", "clip"])
    pc, cull, clipb = rng.random() < 0.5, rng.random() < 0.3, rng.random() < 0.5
    zlo = -16 if kind == "clip" else -4 if rng.random() < 0.1 else 1
    ex = rng.choice([1.2, 1.2, 2])
    vs, fs = [], []
    for _ in range(rng.choice([1, 1, 2, 3])):
        nv = rng.choice([0, 3, 4, 5, 7])
        vs.append([[rng.randint(-int(2 * W * ex), int(2 * W * ex)), rng.randint(-int(2 * H * ex), int(2 * H * ex)),
                    rng.choice([z for z in range(zlo, 33) if z != 0]) if rng.random() < 0.8 else 8] for _ in range(nv)])
        fs.append(tri_faces(rng, nv, rng.choice([0, 1, 2, 4, 6])))
    zclip = [rng.choice([1, 2, 4])] if kind == "clip" else []
    blur = rng.choice([100, 500, 2500, 9000]) if kind == "blur" else 0
    K = rng.choice([1, 2, 3, 8])
    cf = kind != "blur" and rng.random() < 0.3
    e = {"op": "raster", "mode": "raw", "H": H, "W": W, "K": K, "pc": pc, "clipb": clipb, "cull": cull, "zclip": zclip, "blur": blur, "verts": vs, "faces": fs, "frustum": cf}
    scaled = [[[x / (2 * m), y / (2 * m), z / 4] for x, y, z in v] for v in vs]
    M = mesh(rng, scaled, fs)
    kw = dict(image_size=rng.choice([(H, W), [H, W]]) if H != W or rng.random() < 0.5 else H, blur_radius=blur / 1e4, faces_per_pixel=K, bin_size=rng.choice([None, 0]),
              perspective_correct=pc, clip_barycentric_coords=clipb, cull_backfaces=cull, z_clip_value=zclip[0] / 4 if zclip else None, cull_to_frustum=cf)
    before = M.verts_padded().clone()

    def go(e):
        r = rasterize_meshes(M, **kw)
        e["o"] = out(r, len(vs))
    tr.append(guard(e, go))
    tr.append({"op": "same", "what": "the meshes are not modified", "same": torch.equal(before, M.verts_padded())})
    if kind != "clip" and any(fs) and rng.random() < (0.5 if cf and H != W else 0.15) and H * W <= 20:
        def py(e):
            kw2 = {k: v for k, v in kw.items() if k != "bin_size"}
            kw2["image_size"] = (H, W)
            e["o"] = out(rasterize_meshes_python(M, **kw2), len(vs))
        tr.append(guard({k: v for k, v in e.items() if k not in ("o", "exc", "tb")}, py))
    return M, kw


def cam(ctx, rng, tr):
    H, W = sizes(rng)
    m = min(H, W)
    N = rng.choice([1, 1, 2, 3])
    nc = rng.choice([1, N])
    kind = rng.choice(["persp", "persp", "screen", "fovp", "fovp", "fovp", "ortho", "fovo"])
    persp = kind in ("persp", "fovp", "screen")
    cams, Rs, Ts = [], [], []
    for _ in range(nc):
        p, s = rng.choice(PERMS)
        R = [[0] * 3 for _ in range(3)]
        for i in range(3):
            R[i][p[i]] = s[i]
        f = [rng.randint(1, 2), rng.randint(1, 2)] if kind in ("persp", "screen", "ortho") else [1, 1]
        pp = [rng.randint(-1, 1), rng.randint(-1, 1)] if kind in ("persp", "screen", "ortho") else [0, 0]
        cams.append({"R": R, "T": [rng.randint(-2, 2), rng.randint(-2, 2), rng.randint(2, 8)], "f": f, "p": pp, "persp": persp})
    R = torch.tensor([c["R"] for c in cams]).float()
    T = torch.tensor([c["T"] for c in cams]).float()
    f, pp = torch.tensor([c["f"] for c in cams]).float(), torch.tensor([c["p"] for c in cams]).float()
    zclip = []
    if kind == "persp":
        C = PerspectiveCameras(focal_length=f, principal_point=pp, R=R, T=T)
    elif kind == "screen":
        C = PerspectiveCameras(focal_length=f * m / 2, principal_point=torch.tensor([W / 2, H / 2]) - pp * m / 2, R=R, T=T, in_ndc=False, image_size=((H, W),))
    elif kind == "fovp":
        znear = rng.choice([1.0, 2.0, 4.0, 6.0])
        C = FoVPerspectiveCameras(znear=rng.choice([znear, torch.full((nc,), znear)]), fov=90.0, R=R, T=T)
        zclip = [int(2 * znear)]
    elif kind == "ortho":
        C = OrthographicCameras(focal_length=f, principal_point=pp, R=R, T=T)
    else:
        C = FoVOrthographicCameras(R=R, T=T)
    vs, fs = [], []
    for _ in range(N):
        nv = rng.choice([3, 4, 5, 7])
        r = 4 if persp else 2
        c = cams[min(len(vs), nc - 1)]
        v = []
        while len(v) < nv:
            x = [rng.randint(-r, r) for _ in range(3)]
            if sum(x[i] * c["R"][i][2] for i in range(3)) + c["T"][2] != 0:  # a vertex in the camera plane has no projection
                v.append(x)
        vs.append(v)
        fs.append(tri_faces(rng, nv, rng.choice([0, 1, 2, 4])))
    if rng.random() < 0.15:
        vs[-1], fs[-1] = [], []
    K = rng.choice([1, 2, 4])
    st = dict(image_size=(H, W), faces_per_pixel=K)
    pc = persp
    if not persp and rng.random() < 0.3:
        st["perspective_correct"] = False
    if persp and rng.random() < 0.15:
        st["perspective_correct"] = False
        pc, zclip = False, []
    elif persp and rng.random() < (0.15 if kind == "fovp" else 0.4):
        zclip = [rng.choice([2, 4])]
        st["z_clip_value"] = zclip[0] / 4
    blur = 0
    clipb = False
    if not persp and rng.random() < 0.4:
        blur = rng.choice([500, 2500])
        st["blur_radius"] = blur / 1e4
        clipb = rng.choice([None, True, False])
        st["clip_barycentric_coords"] = clipb
        clipb = clipb is not False
    cull = rng.random() < 0.3
    st["cull_backfaces"] = cull
    if blur == 0 and rng.random() < 0.3:
        st["cull_to_frustum"] = True
    e = {"op": "raster", "mode": "cam", "H": H, "W": W, "K": K, "pc": pc, "clipb": clipb, "cull": cull, "zclip": zclip, "blur": blur, "verts": vs, "faces": fs, "cams": cams, "kind": kind}
    M = mesh(rng, vs, fs)
    before = M.verts_padded().clone()
    how = rng.choice(["init", "cam kwarg", "settings kwarg"])

    def go(e):
        S = RasterizationSettings(**st)
        if how == "init":
            r = MeshRasterizer(cameras=C, raster_settings=S)(M)
        elif how == "cam kwarg":
            r = MeshRasterizer(raster_settings=S)(M, cameras=C)
        else:
            r = MeshRasterizer(cameras=C, raster_settings=RasterizationSettings(image_size=7))(M, raster_settings=S)
        e["o"] = out((r.pix_to_face, r.zbuf, r.bary_coords, r.dists), N)
    tr.append(guard(e, go))
    tr.append({"op": "same", "what": "the meshes are not modified", "same": torch.equal(before, M.verts_padded())})


def grad(ctx, rng, tr):
    """central differences of the float32 forward pass; components at which the set of faces changes or which have a kink are skipped"""
    g = torch.Generator().manual_seed(rng.randrange(1 << 30))
    nv = rng.choice([3, 4, 5])
    clip, pc = rng.random() < 0.5, rng.random() < 0.7
    v = torch.rand(nv, 3, generator=g) * torch.tensor([2.4, 2.4, 3.0]) - torch.tensor([1.2, 1.2, 1.2 if clip else -0.8])
    v[:, 2] = torch.where(v[:, 2].abs() < 0.3, v[:, 2] + 0.8, v[:, 2])
    fs = torch.tensor(tri_faces(rng, nv, 2))
    H, W = sizes(rng)
    K = 2
    kw = dict(image_size=(H, W), faces_per_pixel=K, perspective_correct=pc, clip_barycentric_coords=rng.random() < 0.5,
              blur_radius=0.0 if clip else rng.choice([0.0, 0.05]), z_clip_value=0.5 if clip else None)
    wz, wb, wd = torch.rand(1, H, W, K, generator=g), torch.rand(1, H, W, K, 3, generator=g), torch.rand(1, H, W, K, generator=g)

    def f(v):
        r = rasterize_meshes(Meshes([v], [fs]), **kw)
        return (r[1] * wz).double().sum() + (r[2] * wb).double().sum() + (r[3] * wd).double().sum(), r[0]

    def go(e):
        x = v.clone().requires_grad_()
        l0, p0 = f(x)
        gr = torch.autograd.grad(l0, x)[0] if (p0 >= 0).any() else torch.zeros_like(v)
        rows, h = [], 4e-3
        for i in range(nv):
            for j in range(3):
                d = torch.zeros_like(v)
                d[i, j] = h
                (a, pa), (b, pb), (a2, pa2), (b2, pb2) = f(v + d), f(v - d), f(v + d / 2), f(v - d / 2)
                n1, n2 = (a - b) / (2 * h), (a2 - b2) / h
                ok = all(torch.equal(p, p0) for p in (pa, pb, pa2, pb2)) and abs(n1 - n2) < 2e-3 * (1 + abs(n2)) and abs((a - l0) - (l0 - b)) / h < 0.02 * (1 + abs(n1)) and abs(n1) < 100
                rows.append([int(round(float(gr[i, j].clamp(-1e5, 1e5)) * 1000)), int(round(float(n2.clamp(-1e5, 1e5)) * 1000)), int(bool(ok))])
        e["o"] = rows
    tr.append(guard({"op": "grad", "clip": clip, "pc": pc, "kw": str(kw), "v": str(v.tolist()), "fs": fs.tolist()}, go))


def traces(ctx):
    M = Meshes([torch.rand(3, 3)] * 2, [torch.tensor([[0, 1, 2]])] * 2)
    cams = PerspectiveCameras(R=torch.eye(3)[None].expand(3, 3, 3), T=torch.ones(3, 3))
    tr = []
    for k, f in {
        "image size 0": lambda: rasterize_meshes(M, 0),
        "image size with three entries": lambda: rasterize_meshes(M, (4, 4, 4)),
        "fractional image size": lambda: rasterize_meshes(M, (4.0, 4.0)),
        "negative image size": lambda: rasterize_meshes(M, (-4, 4)),
        "number of cameras": lambda: MeshRasterizer(cameras=cams)(M),
        "missing cameras": lambda: MeshRasterizer()(M),
        "bin size": lambda: rasterize_meshes(M, 64, bin_size=2),
    }.items():
        tr.append({"op": "rejects", "what": k, "rejected": not attempt(f)[0]})
    yield tr
    for k in range(ctx.n(260, 8000)):
        tr = []
        raw(ctx, ctx.rng, tr)
        cam(ctx, ctx.rng, tr)
        if k % 3 == 0:
            grad(ctx, ctx.rng, tr)
        yield tr
