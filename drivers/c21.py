import math
import torch
import warnings
from harness import enc, guard, q
from pytorch3d.implicitron.tools import camera_utils
from pytorch3d.implicitron.tools.eval_video_trajectory import generate_eval_video_cameras
from pytorch3d.ops import corresponding_cameras_alignment, corresponding_points_alignment, efficient_pnp, iterative_closest_point
from pytorch3d.ops.points_alignment import SimilarityTransform
from pytorch3d.renderer import FoVPerspectiveCameras, PerspectiveCameras
from pytorch3d.structures import Pointclouds
MODULE = "Align"
ASSUMPTIONS = ["integer points of at most 7 per cloud, dimensions 2 and 3", "float32 for ICP",
               "steps of ICP with almost ambiguous nearest neighbours are not judged", "PnP recovery for six or more points in general position"]
warnings.filterwarnings("ignore")


def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False


def sim(o, n=None):
    R, T, s = q(o.R, 10000), q(o.T, 1000), q(o.s, 10000)
    return [{"R": R[i], "t": T[i], "s": s[i]} for i in range(len(R))]


def umeyama(ctx, rng, tr):
    d, b, lists = rng.choice([2, 3, 3, 3]), rng.choice([1, 2, 3]), rng.random() < 0.5
    if lists:
        d = 3
    n = [rng.randint(1, 6) for _ in range(b)]
    if not lists:
        n = [n[0]] * b
    x = [ctx.ints((k, d), -4, 4) for k in n]
    kind = rng.choice(["noise", "mirror", "exact", "near"])
    y = [ctx.ints((k, d), -4, 4) if kind == "noise" else (a * torch.tensor([-1.0] + [1.0] * (d - 1)) if kind == "mirror" else
         (a.flip(1) * torch.tensor([-1.0] + [1.0] * (d - 1)) * rng.choice([1, 1, 2]) + (0 if kind == "exact" else ctx.ints((k, d), -1, 1)))) for k, a in zip(n, x)]
    w = None
    if rng.random() < 0.6:
        w = [torch.tensor([float(rng.choice([0, 1, 1, 2, 3])) for _ in range(k)]) for k in n]
    est, refl = rng.random() < 0.6, rng.random() < 0.3
    dt = torch.float64 if not lists else torch.float32
    e = {"op": "umeyama", "x": enc(x), "y": enc(y), "w": enc(w) if w else [[1] * k for k in n], "est": est, "refl": refl}

    def go(e):
        if lists:
            X, Y = Pointclouds(x), Pointclouds(y)
            W = w
            if w is not None and rng.random() < 0.5:
                W = torch.zeros(b, max(n)) + (7.0 if rng.random() < 0.5 else 0.0)  # weights of padding are irrelevant
                for i, v in enumerate(w):
                    W[i, :len(v)] = v
        else:
            X, Y = torch.stack(x).to(dt), torch.stack(y).to(dt)
            W = None if w is None else (torch.stack(w).to(dt) if rng.random() < 0.7 else [v.to(dt) for v in w])
        snap = (X.clone(), Y.clone()) if not lists else (X.points_padded().clone(), Y.points_padded().clone())
        o = corresponding_points_alignment(X, Y, weights=W, estimate_scale=est, allow_reflection=refl)
        now = (X, Y) if not lists else (X.points_padded(), Y.points_padded())
        if not all(torch.equal(p, r) for p, r in zip(snap, now)):
            raise AssertionError("alignment modified its inputs")
        e["o"] = sim(o)
    tr.append(guard(e, go))


def icp(ctx, rng, tr):
    b, kind = rng.choice([1, 1, 2, 3]), rng.choice(["tensor", "clouds", "clouds", "mixed"])
    same = rng.random() < 0.5  # both sides have the same numbers of points
    nx = [rng.randint(1, 7) for _ in range(b)]
    if kind != "clouds":
        nx = [nx[0]] * b
    if kind == "clouds" and b > 1 and rng.random() < 0.15:
        nx[rng.randrange(b)] = 0
    ny = list(nx) if same else [max(1, k + rng.randint(-1, 2)) for k in nx]
    if kind == "tensor":
        ny = [ny[0]] * b
    x = [ctx.ints((k, 3), -4, 4) for k in nx]
    y = [((a[torch.randperm(len(a), generator=torch.Generator().manual_seed(rng.randrange(10**6)))] if rng.random() < 0.5 else a) + ctx.ints((1, 3), -1, 1)
          if same and rng.random() < 0.6 else ctx.ints((k, 3), -4, 4)) for a, k in zip(x, ny)]
    est, refl = rng.random() < 0.4, rng.random() < 0.2
    mx, thr = rng.choice([0, 1, 2, 5, 30, 100]), rng.choice([0, 0, 50, 300])
    dt = torch.float32
    init = None
    if rng.random() < 0.5:
        perms = [torch.eye(3)[[1, 2, 0]], torch.eye(3), torch.diag(torch.tensor([-1.0, -1.0, 1.0]))]
        init = SimilarityTransform(torch.stack([rng.choice(perms) for _ in range(b)]).to(dt), ctx.ints((b, 3), -2, 2).to(dt),
                                   torch.tensor([rng.choice([1.0, 1.0, 0.5, 1.5]) for _ in range(b)]).to(dt))
    e0 = {"op": "icp", "x": enc(x), "y": enc(y), "est": est, "refl": refl, "max": mx, "thr": thr,
          "init": sim(init) if init else [{"R": [[10000 * (i == j) for j in range(3)] for i in range(3)], "t": [0, 0, 0], "s": 10000}] * b}
    tr.append(e0)
    X = torch.stack(x).to(dt) if kind == "tensor" or kind == "mixed" else Pointclouds(x)
    Y = torch.stack(y).to(dt) if kind == "tensor" else Pointclouds(y)
    res = {}
    e = {"op": "done"}

    def go(e):
        snap = [p.clone() for p in (X if torch.is_tensor(X) else X.points_padded(), Y if torch.is_tensor(Y) else Y.points_padded())]
        o = iterative_closest_point(X, Y, init_transform=init, max_iterations=mx, relative_rmse_thr=1e-6 if thr == 0 else thr / 1000, estimate_scale=est, allow_reflection=refl)
        if not all(torch.equal(p, r) for p, r in zip(snap, (X if torch.is_tensor(X) else X.points_padded(), Y if torch.is_tensor(Y) else Y.points_padded()))):
            raise AssertionError("ICP modified its inputs")
        res["o"] = o
        if isinstance(o.Xt, Pointclouds) != isinstance(X, Pointclouds):
            raise AssertionError("type of the transformed points")
        xt = o.Xt.points_list() if isinstance(o.Xt, Pointclouds) else list(o.Xt)
        e.update(conv=bool(o.converged), o=sim(o.RTs), xt=q(xt, 1000), rmse=q(o.rmse, 1000) if o.rmse is not None else [0] * b)
    guard(e, go)
    if "o" in res:
        for h in res["o"].t_history:
            tr.append({"op": "step", "o": sim(h)})
    tr.append(e)


def quat(rng):
    while True:
        v = [rng.randint(-3, 3) for _ in range(4)]
        if any(v):
            return v


def rotm(v):
    w, x, y, z = v
    n = w * w + x * x + y * y + z * z
    return torch.tensor([[w*w+x*x-y*y-z*z, 2*(x*y-z*w), 2*(x*z+y*w)], [2*(x*y+z*w), w*w-x*x+y*y-z*z, 2*(y*z-x*w)],
                         [2*(x*z-y*w), 2*(y*z+x*w), w*w-x*x-y*y+z*z]], dtype=torch.float64) / n


def pnp(ctx, rng, tr):
    for _ in range(20):
        n = rng.randint(6, 9)
        x = ctx.ints((n, 3), -3, 3).double()
        v, t = quat(rng), [rng.randint(-3, 3), rng.randint(-3, 3), rng.randint(8, 12)]
        c = x @ rotm(v).T + torch.tensor(t).double()
        y = c[:, :2] / c[:, 2:]
        w = torch.ones(n).double()
        if rng.random() < 0.4:
            w = torch.tensor([rng.choice([1.0, 1.0, 2.0]) for _ in range(n)]).double()
            if n > 7:
                w[rng.randrange(n)] = 0.0
        k = w > 0
        # general position: the linear system determines the pose
        a = torch.cat([x, torch.ones(n, 1)], 1)[k]
        u = y[k]
        m = torch.cat([torch.cat([a, 0 * a, -u[:, :1] * a], 1), torch.cat([0 * a, a, -u[:, 1:] * a], 1)])
        sv = torch.linalg.svdvals(m)
        if len(sv) >= 11 and sv[10] > 2e-2 * sv[0]:
            break
    else:
        return
    y[~k] = torch.tensor([3.0, -2.0]).double()
    skip, none = rng.random() < 0.3, bool((w == 1).all()) and rng.random() < 0.7
    e = {"op": "pnp", "x": enc(x), "q": v, "t": t, "w": enc(w)}
    two = rng.random() < 0.3

    def go(e):
        X, Y, W = x[None], y[None], w[None]
        if two:  # another problem in the same batch has no influence
            X, Y, W = torch.cat([-X, X]), torch.cat([Y * 0.5 + 0.1, Y]), torch.cat([W, W])
        o = efficient_pnp(X, Y, None if none else W, skip_quadratic_eq=skip)
        e.update(R=q(o.R[-1], 10000), T=q(o.T[-1], 1000), xc=q(o.x_cam[-1], 1000), e2=q(o.err_2d[-1], 10**5), e3=q(o.err_3d[-1], 10**5))
    tr.append(guard(e, go))
    # projections which are not exact: the reported errors belong to the returned pose
    y2 = ((y * 1000).round() + ctx.ints((n, 2), -60, 60)) / 1000

    def go2(e):
        o = efficient_pnp(x[None], y2[None], w[None], skip_quadratic_eq=skip)
        e.update(R=q(o.R[0], 10000), T=q(o.T[0], 1000), xc=q(o.x_cam[0], 1000), e2=q(o.err_2d[0], 1000), e3=q(o.err_3d[0], 1000))
    tr.append(guard({"op": "proj", "x": enc(x), "y": enc(y2, 1000), "w": enc(w)}, go2))


def lattice(rng):
    while True:
        p = [0, 1, 2]
        rng.shuffle(p)
        m = torch.zeros(3, 3)
        for i, j in enumerate(p):
            m[i, j] = rng.choice([-1.0, 1.0])
        if torch.det(m) > 0:
            return m


def cams(ctx, rng, tr):
    N = rng.choice([1, 2, 3, 3, 4, 6])
    R1, T1 = torch.stack([lattice(rng) for _ in range(N)]), ctx.ints((N, 3), -4, 4)
    kind = rng.choice(["noise", "exact", "turned"])
    if kind == "noise":
        R2, T2 = torch.stack([lattice(rng) for _ in range(N)]), ctx.ints((N, 3), -4, 4)
    else:
        RA, TA, s = lattice(rng), ctx.ints((1, 3), -3, 3), rng.choice([1, 2])
        R2, T2 = RA @ R1, (TA @ R1)[:, 0] + s * T1
        if kind == "turned":
            R2[rng.randrange(N)] = lattice(rng)
            T2 = T2 + ctx.ints((N, 3), -1, 1)
    mode, est = rng.choice(["centers", "extrinsics"]), rng.random() < 0.6
    f = rng.choice([PerspectiveCameras, FoVPerspectiveCameras])
    kw = {"focal_length": torch.tensor([[1.0 + i, 2.0] for i in range(N)])} if f is PerspectiveCameras else {"fov": torch.tensor([40.0 + i for i in range(N)])}
    e = {"op": "cams", "R1": enc(R1), "T1": enc(T1), "R2": enc(R2), "T2": enc(T2), "mode": mode, "est": est}

    def go(e):
        a, c = f(R=R1.clone(), T=T1.clone(), **kw), PerspectiveCameras(R=R2.clone(), T=T2.clone())
        k = {} if est and rng.random() < 0.5 else {"estimate_scale": est}
        o = corresponding_cameras_alignment(a, c, mode=mode, **k)
        key = next(iter(kw))
        e.update(R3=q(o.R, 10000), T3=q(o.T, 1000), rest=type(o) is type(a) and torch.equal(getattr(o, key), kw[key]) and torch.equal(a.R, R1) and torch.equal(a.T, T1) and torch.equal(c.R, R2))
        m = o.get_world_to_view_transform().get_matrix()
        if not torch.allclose(m[:, :3, :3], o.R) or not torch.allclose(m[:, 3, :3], o.T):
            raise AssertionError("the aligned cameras do not use the aligned extrinsics")
    tr.append(guard(e, go))


def camtools(ctx, rng, tr):
    """cameras that follow a similarity of the scene, and bounds of the depth"""
    N = rng.choice([1, 2, 3])
    R = torch.stack([lattice(rng) for _ in range(N)])
    T = ctx.ints((N, 3), -6, 6)
    p = ctx.ints((3, 3), -5, 5)
    A = torch.eye(4).repeat(N, 1, 1)
    A[:, :3, :3] = torch.stack([lattice(rng) for _ in range(N)])
    A[:, 3, :3] = ctx.ints((N, 3), -4, 4)
    s = torch.tensor([rng.choice([1, 2, 3]) for _ in range(N)]).float()
    snap = [t.clone() for t in (R, T, A, s)]

    def go(e):
        R3, T3 = camera_utils.apply_camera_alignment(R, T, A, s)
        e.update(R3=q(R3, 1000), T3=q(T3, 1000))
    tr.append(guard({"op": "camsim", "R": enc(R), "T": enc(T), "A": enc(A[:, :3, :3]), "a": enc(A[:, 3, :3]), "s": [int(v) for v in s], "p": enc(p)}, go))
    tr.append({"op": "same", "what": "moving cameras does not modify its inputs", "same": all(torch.equal(a, b) for a, b in zip(snap, (R, T, A, s)))})
    ang, cos = rng.choice([(0.0, 1000), (math.pi / 3, 500), (math.pi / 2, 0), (math.pi, -1000)])
    tstd, sstd = rng.choice([0.0, 0.0, 1.0]), rng.choice([0.0, 0.0, 0.3])

    def jit(e):
        torch.manual_seed(rng.randint(0, 10 ** 6))
        R3, T3 = camera_utils.jitter_extrinsics(R, T, max_angle=ang, translation_std=tstd, scale_std=sstd)
        e.update(R3=q(R3, 10000), T3=q(T3, 1000))
    tr.append(guard({"op": "camjit", "R": enc(R), "T": enc(T), "cos": cos, "shift": tstd > 0, "scale": sstd > 0}, jit))
    c, ext = ctx.ints((3,), -5, 5), rng.choice([1, 3, 6])

    def bounds(e):
        lo, hi = camera_utils.get_min_max_depth_bounds(FoVPerspectiveCameras(R=R, T=T), c, float(ext))
        e.update(lo=q(lo, 1000), hi=q(hi, 1000))
    tr.append(guard({"op": "depthb", "R": enc(R), "T": enc(T), "c": enc(c), "ext": ext}, bounds))


def flyaround(ctx, rng, tr):
    """cameras of an evaluation video: on a trajectory around the training cameras, looking at the centre of the scene"""
    N, M = rng.choice([3, 4, 6]), rng.choice([1, 4, 7])
    R = torch.stack([lattice(rng) for _ in range(N)])
    C = ctx.ints((N, 3), -6, 6)
    f, pp = ctx.ints((N, 2), 1, 8) * N, ctx.ints((N, 2), -3, 3) * N
    train = PerspectiveCameras(R=R, T=-torch.einsum("ni,nij->nj", C, R), focal_length=f, principal_point=pp)
    kind = rng.choice(["figure_eight", "trefoil_knot", "figure_eight_knot", "circular_lsq_fit"])
    c = [rng.choice([-1, 1]) * 40, rng.choice([-1, 1]) * 40, rng.choice([-10, 0, 10])]
    infer, off, can = rng.random() < 0.5, [rng.randint(-3, 3) for _ in range(3)], [rng.randint(-3, 3) for _ in range(3)]
    d2 = [sum((N * C[n, k] - C[:, k].sum()) ** 2 for k in range(3)).item() for n in range(N)]
    mid = d2.index(min(d2))
    circ = kind == "circular_lsq_fit"
    if circ:  # a circle of radius 5 in a plane of the axes
        ax = rng.randrange(3)
        pts = rng.sample([(5, 0), (3, 4), (-3, 4), (-5, 0), (0, -5), (4, -3), (-4, -3), (0, 5)], N)
        C = torch.tensor([[*p[:ax], 0, *p[ax:]] for p in pts]).float() + ctx.ints((1, 3), -2, 2)
        train = PerspectiveCameras(R=R, T=-torch.einsum("ni,nij->nj", C, R), focal_length=f, principal_point=pp)
    kw = dict(n_eval_cams=M, trajectory_type=kind, trajectory_scale=1.0 if circ else rng.choice([0.2, 1.0]), scene_center=tuple(float(v) for v in c), infer_up_as_plane_normal=infer)
    if rng.random() < 0.3:
        kw["time"] = torch.rand(M, generator=torch.Generator().manual_seed(rng.randint(0, 10 ** 6))) * 6
    F, G = (ctx.ints((M, 2), 1, 5), ctx.ints((M, 2), -2, 2)) if rng.random() < 0.3 else (None, None)

    def go(e):
        warnings.simplefilter("ignore")
        look = torch.tensor([c]).float()
        cams = generate_eval_video_cameras(train, focal_length=F, principal_point=G, **kw)
        e["n"] = len(cams)
        e["ctr"] = q(cams.get_world_to_view_transform().transform_points(look).reshape(-1, 3), 1000)
        e["R"], e["eye"] = q(cams.R, 10000), q(cams.get_camera_center(), 1000)
        e["f"], e["pp"] = q(cams.focal_length, 1000), q(cams.principal_point, 1000)
        e["eye1"] = q(generate_eval_video_cameras(train, traj_offset=tuple(float(v) for v in off), **kw).get_camera_center(), 1000)
        e["eye2"] = q(generate_eval_video_cameras(train, traj_offset_canonical=tuple(float(v) for v in can), **kw).get_camera_center(), 1000)
    tr.append(guard({"op": "fly", "M": M, "circ": circ, "infer": infer, "off": off, "can": can, "mid": enc(R[mid]), "unique": d2.count(min(d2)) == 1, "C": enc(C),
                     "fw": enc(F if F is not None else f.sum(0, keepdim=True).repeat(M, 1) / N), "pw": enc(G if F is not None else pp.sum(0, keepdim=True).repeat(M, 1) / N)}, go))


def rejects(ctx, rng, tr):
    x, y = ctx.ints((2, 4, 3), -3, 3), ctx.ints((2, 5, 3), -3, 3)
    c = [Pointclouds([x[0], x[1][:2]]), Pointclouds([x[0], x[1][:3]])]
    for what, f in [("different numbers of points", lambda: corresponding_points_alignment(x, y)),
                    ("different numbers of points", lambda: corresponding_points_alignment(c[0], c[1])),
                    ("shape of the weights", lambda: corresponding_points_alignment(x, x, weights=torch.ones(2, 5))),
                    ("number of weights", lambda: corresponding_points_alignment(c[0], c[0], weights=[torch.ones(4), torch.ones(4)])),
                    ("batch sizes", lambda: iterative_closest_point(x, y[:1])),
                    ("dimensions", lambda: iterative_closest_point(x, y[..., :2])),
                    ("initial transform", lambda: iterative_closest_point(x, y, init_transform=SimilarityTransform(torch.eye(3)[None], torch.zeros(2, 3), torch.ones(2)))),
                    ("not points", lambda: iterative_closest_point([1.0], y)),
                    ("alignment mode", lambda: corresponding_cameras_alignment(PerspectiveCameras(), PerspectiveCameras(), mode="x")),
                    ("numbers of cameras", lambda: corresponding_cameras_alignment(PerspectiveCameras(R=torch.eye(3)[None].repeat(2, 1, 1)), PerspectiveCameras()))]:
        tr.append({"op": "rejects", "what": what, "rejected": raises(f)})


def traces(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(200, 3000)):
        for f in (umeyama, icp, pnp, cams):
            tr = []
            f(ctx, rng, tr)
            if f is not icp:
                f(ctx, rng, tr)
            yield tr
        tr = []
        camtools(ctx, rng, tr)
        flyaround(ctx, rng, tr)
        yield tr
    tr = []
    rejects(ctx, rng, tr)
    yield tr
