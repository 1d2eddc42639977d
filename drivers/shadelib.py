import math, torch
from pytorch3d.structures import Meshes
from pytorch3d.renderer import (TexturesVertex, PerspectiveCameras, FoVPerspectiveCameras, OrthographicCameras, PointLights, DirectionalLights, AmbientLights, Materials)
from pytorch3d.renderer.mesh.rasterizer import Fragments
from c11 import PERMS
LN2 = math.log(2.0)


def fragments(ctx, rng, N, H, W, K, first, nf, sigma, D, gamma, zfar):
    """random fragments; first[n], nf[n]: packed range of the faces of image n.  -> Fragments and rows of exponents"""
    g = torch.full((N, H, W, K), -1, dtype=torch.int64)
    d = ctx.ints((N, H, W, K), -8, 6)
    z = torch.zeros(N, H, W, K)
    for n in range(N):
        for y in range(H):
            for x in range(W):
                cnt = rng.randint(0, K) if nf[n] else 0
                ms = sorted((rng.choice([0, 1, 2, 3, 5, 8, 12, 40]) for _ in range(cnt)), reverse=True)
                for k in range(cnt):
                    g[n, y, x, k] = first[n] + rng.randrange(nf[n])
                    z[n, y, x, k] = ms[k]
    b = torch.zeros(N, H, W, K, 3, dtype=torch.int64)
    for i in range(b.numel() // 3):
        u, v = sorted((rng.randint(0, 8), rng.randint(0, 8)))
        b.view(-1, 3)[i] = torch.tensor([u, v - u, 8 - v])
    m = g >= 0
    neg = torch.full((), -1.0)
    fr = Fragments(pix_to_face=g, zbuf=torch.where(m, (zfar - D * gamma * LN2 * z).float(), neg),
                   bary_coords=torch.where(m[..., None], b / 8, neg), dists=torch.where(m, (d * sigma * LN2).float(), neg))
    rows = lambda t: t.long().reshape(N * H * W, *t.shape[3:]).tolist()  # noqa: E731
    return fr, {"g": rows(g), "d": rows(d), "z": rows(z), "b": rows(b), "img": [n + 1 for n in range(N) for _ in range(H * W)]}


def cameras(rng, nc, N):
    Rs, Ts, cc = [], [], []
    for _ in range(nc):
        p, s = rng.choice(PERMS)
        R = [[0] * 3 for _ in range(3)]
        for i in range(3):
            R[i][p[i]] = s[i]
        T = [rng.randint(-3, 3) for _ in range(3)]
        Rs.append(R)
        Ts.append(T)
        cc.append([-sum(T[j] * R[i][j] for j in range(3)) for i in range(3)])
    cls = rng.choice([PerspectiveCameras, OrthographicCameras])
    return cls(R=torch.tensor(Rs).float(), T=torch.tensor(Ts).float()), cc


def lights(rng, N, C, ambient):
    n = lambda: rng.choice([1, N])  # noqa: E731
    col = lambda k, lo=0: [[rng.randint(lo, 4) for _ in range(C)] for _ in range(k)]  # noqa: E731
    kind = "ambient" if ambient else rng.choice(["point", "point", "directional"])
    v = lambda k: [[rng.randint(-4, 4) for _ in range(3)] for _ in range(k)]  # noqa: E731
    s = {"kind": kind, "amb": col(n()), "dif": col(n()), "spc": col(n()), "x": v(n())}
    form = rng.choice(["tensor", "list"])
    f = lambda x, q: torch.tensor(x).float() / q if form == "tensor" else [[a / q for a in r] for r in x]  # noqa: E731
    if kind == "ambient":
        L = AmbientLights(ambient_color=f(s["amb"], 4))
        s["dif"], s["spc"] = [[0] * C], [[0] * C]
    elif kind == "point":
        L = PointLights(ambient_color=f(s["amb"], 4), diffuse_color=f(s["dif"], 4), specular_color=f(s["spc"], 4), location=f(s["x"], 1))
    else:
        L = DirectionalLights(ambient_color=f(s["amb"], 4), diffuse_color=f(s["dif"], 4), specular_color=f(s["spc"], 4), direction=f(s["x"], 1))
    return L, s


def materials(rng, N, C):
    n = lambda: rng.choice([1, N])  # noqa: E731
    col = lambda k: [[rng.randint(0, 4) for _ in range(C)] for _ in range(k)]  # noqa: E731
    s = {"amb": col(n()), "dif": col(n()), "spc": col(n()), "sh": [rng.randint(1, 5) for _ in range(n())]}
    f = lambda x: torch.tensor(x).float() / 4  # noqa: E731
    return Materials(ambient_color=f(s["amb"]), diffuse_color=f(s["dif"]), specular_color=f(s["spc"]),
                     shininess=torch.tensor(s["sh"]).float() if len(s["sh"]) > 1 or rng.random() < 0.5 else s["sh"][0]), s


def mesh(ctx, rng, N, C):
    v, f, vc, vn = [], [], [], []
    for n in range(N):
        k = rng.choice([3, 4, 6]) if rng.random() < 0.9 else 0
        v.append([[rng.randint(-3, 3) for _ in range(3)] for _ in range(k)])
        vn.append([[rng.randint(-3, 3) for _ in range(3)] for _ in range(k)])
        vc.append([[rng.randint(-2, 2) for _ in range(C)] for _ in range(k)])
        f.append([rng.sample(range(k), 3) for _ in range(rng.choice([1, 2, 4]))] if k else [])
    t = lambda x, c, d: [torch.tensor(a, dtype=d).reshape(-1, c) for a in x]  # noqa: E731
    M = Meshes(t(v, 3, torch.float32), t(f, 3, torch.int64), verts_normals=t(vn, 3, torch.float32), textures=TexturesVertex(t(vc, C, torch.float32)))
    first, s = [], 0
    for a in f:
        first.append(s)
        s += len(a)
    return M, {"v": v, "f": f, "vc": vc, "vn": vn, "C": C}, first, [len(a) for a in f]
