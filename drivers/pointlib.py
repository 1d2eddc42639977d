import itertools, numpy as np, torch
from pytorch3d.structures import Pointclouds
from pytorch3d.renderer import PerspectiveCameras, OrthographicCameras, FoVPerspectiveCameras, FoVOrthographicCameras
from c11 import PERMS


def sizes(rng, dyadic=False):
    m = rng.choice([1, 2, 2, 4, 4] if dyadic else [1, 2, 2, 4, 4, 3, 5])
    M = rng.choice([m, m, m + 1, m + 2, 2 * m])
    return rng.choice([(m, M), (M, m)])


def cams(rng, nc, H, W, dyadic=False):
    m = min(H, W)
    kind = rng.choice(["ortho", "fovo"] if dyadic else ["persp", "screen", "fovp", "ortho", "fovo"])
    persp = kind in ("persp", "fovp", "screen")
    cs = []
    for _ in range(nc):
        p, s = rng.choice(PERMS)
        R = [[0] * 3 for _ in range(3)]
        for i in range(3):
            R[i][p[i]] = s[i]
        own = kind in ("persp", "screen", "ortho")
        cs.append({"R": R, "T": [rng.randint(-2, 2), rng.randint(-2, 2), rng.randint(0, 8)],
                   "f": [rng.randint(1, 2), rng.randint(1, 2)] if own else [1, 1], "p": [rng.randint(-1, 1), rng.randint(-1, 1)] if own else [0, 0], "persp": persp})
    R, T = torch.tensor([c["R"] for c in cs]).float(), torch.tensor([c["T"] for c in cs]).float()
    f, pp = torch.tensor([c["f"] for c in cs]).float(), torch.tensor([c["p"] for c in cs]).float()
    if kind == "persp":
        C = PerspectiveCameras(focal_length=f, principal_point=pp, R=R, T=T)
    elif kind == "screen":
        C = PerspectiveCameras(focal_length=f * m / 2, principal_point=torch.tensor([W / 2, H / 2]) - pp * m / 2, R=R, T=T, in_ndc=False, image_size=((H, W),))
    elif kind == "fovp":
        C = FoVPerspectiveCameras(fov=90.0, R=R, T=T)
    elif kind == "ortho":
        C = OrthographicCameras(focal_length=f, principal_point=pp, R=R, T=T)
    else:
        C = FoVOrthographicCameras(R=R, T=T)
    return cs, C, kind


def cloud(pts, feats=None, scale=(1, 1, 1)):
    ps = [torch.tensor(p).float().reshape(-1, 3) * torch.tensor(scale) for p in pts]
    return Pointclouds(ps, features=None if feats is None else [torch.tensor(f).float().reshape(len(p), -1 if len(p) else 1) for f, p in zip(feats, ps)])


def radius_arg(rng, pts, m, lo=1, hi=8):
    """-> (spec form, implementation value) ; units 1/(4m)"""
    P = max((len(p) for p in pts), default=0)
    if rng.random() < 0.5:
        r = rng.randint(lo, hi)
        return [[r]], r / (4 * m)
    rs = [[rng.randint(lo, hi) for _ in range(P)] for _ in pts]
    if len(pts) == 1 and P <= 1:
        rs = [[rs[0][0] if P else 1]]
    t = torch.tensor(rs).float().reshape(len(pts), P) / (4 * m) if P else torch.zeros(len(pts), 0)
    spec = rs if P else [[1]]
    how = rng.choice(["tensor", "tensor", "list", "noncontig", "1d"])
    if how == "list" and P:
        return spec, t.tolist()
    if how == "noncontig":
        return spec, t.t().contiguous().t()
    if how == "1d" and len(pts) == 1:
        return spec, t[0]
    return spec, t
