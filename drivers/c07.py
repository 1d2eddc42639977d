import itertools, math, torch
from harness import enc, q, guard, attempt
import pytorch3d.transforms as T3
from pytorch3d.transforms.so3 import so3_exponential_map
from pytorch3d.transforms.math import acos_linear_extrapolation
from pytorch3d.transforms.rotation_conversions import matrix_to_rotation_6d
MODULE = "Rots"
ASSUMPTIONS = ["rational rotations (integer quaternions), vectors in thousandths, Euler angles in 1e-4 rad; results to 1.5e-3 (logarithms 4e-3)",
               "sign of a versor with zero real part, of a logarithm of length pi, and Euler angles at gimbal lock are compared by meaning"]
S = 10000
SHAPES = [lambda n: (n,), lambda n: (n,), lambda n: (1, n), lambda n: (n, 1), lambda n: (n, 1, 1)]
CONV = [a + b + c for a in "XYZ" for b in "XYZ" for c in "XYZ" if a != b and b != c]


def quats(ctx, n):
    rng, out = ctx.rng, []
    while len(out) < n:
        r = rng.random()
        if r < 0.3:
            v = rng.choice([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [1, 1, 0, 0], [1, -1, 0, 0], [1, 0, 1, 0], [1, 0, -1, 0], [1, 0, 0, 1],
                            [1, 1, 1, 1], [1, -1, 1, 1], [0, 1, 1, 0], [0, 1, -1, 0], [0, 1, 0, 1], [0, 0, 1, -1], [0, 1, 1, 1], [0, -1, 2, 2], [1, 1, 1, -1], [0, -1, 0, 0]])
        elif r < 0.5:
            v = [rng.choice([0, 0, 1, -1, 2])] + [rng.randint(-20, 20) for _ in range(3)]
        elif r < 0.6:
            v = [rng.choice([100, -100, 60])] + [rng.randint(-1, 1) for _ in range(3)]
        else:
            v = [rng.randint(-6, 6) for _ in range(4)]
        if any(v):
            out.append(v)
    return out


def unitq(qs, dt):
    t = torch.tensor(qs, dtype=torch.float64).reshape(-1, 4)
    return (t / t.norm(dim=-1, keepdim=True)).to(dt)


def exact_matrix(qs, dt):
    w, x, y, z = torch.tensor(qs, dtype=torch.float64).reshape(-1, 4).unbind(-1)
    n = w * w + x * x + y * y + z * z
    m = torch.stack([w*w+x*x-y*y-z*z, 2*(x*y-z*w), 2*(x*z+y*w), 2*(x*y+z*w), w*w-x*x+y*y-z*z, 2*(y*z-x*w), 2*(x*z-y*w), 2*(y*z+x*w), w*w-x*x-y*y+z*z], -1)
    return (m / n[:, None]).reshape(-1, 3, 3).to(dt)


def vecs(ctx, n, lim=3141):
    rng, out = ctx.rng, []
    while len(out) < n:
        r = rng.random()
        if r < 0.15:
            v = [0, 0, 0]
        elif r < 0.4:
            ax = rng.choice([(1, 2, 2, 3), (2, 3, 6, 7), (3, 4, 0, 5), (1, 4, 8, 9), (1, 0, 0, 1), (0, 1, 0, 1), (0, 0, 1, 1), (-2, 6, 9, 11)])
            p = list(ax[:3])
            rng.shuffle(p)
            t = rng.choice([3141, 3140, 1571, 785, 10, 1, 2094, rng.randint(1, 3141)])
            s = rng.choice([1, -1])
            v = [s * round(t * x / ax[3]) for x in p]
        elif r < 0.55:
            v = [rng.randint(-15, 15) for _ in range(3)]
        else:
            v = [rng.randint(-lim, lim) for _ in range(3)]
        if sum(x * x for x in v) <= lim * lim:
            out.append(v)
    return out


def euls(ctx, n):
    rng, out = ctx.rng, []
    for _ in range(n):
        if rng.random() < 0.35:
            out.append([rng.choice([0, 15708, -15708, 31416, -31416, 7854]) for _ in range(3)])
        elif rng.random() < 0.5:
            out.append([rng.randint(-31200, 31200), rng.choice([rng.randint(-14000, 14000), rng.randint(1600, 29800)]), rng.randint(-31200, 31200)])
        else:
            out.append([rng.randint(-70000, 70000) for _ in range(3)])
    return out


def call(ev, fn, inp, scale, exact=False):
    """fn on a batch of some batch shape; the observation is flattened back."""
    def go(e):
        keep = [t.clone() for t in inp]
        r = fn(*inp)
        b = e.pop("_b")
        k = len(b)
        if tuple(r.shape[:k]) != b or r.dtype != inp[0].dtype:
            e["exc"] = f"shape {tuple(r.shape)} dtype {r.dtype} for batch {b} of {inp[0].dtype}"
            return
        r = r.reshape((-1,) + tuple(r.shape[k:]))
        if r.numel() == 0:
            e["o"] = []
        else:
            e["o"] = enc(r) if exact else q(r, scale)
        e["_same"] = all(torch.equal(a, c) for a, c in zip(inp, keep))
    guard(ev, go)
    ev.pop("_b", None)
    return ev


def traces(ctx):
    rng = ctx.rng
    for it in range(ctx.n(70, 600)):
        tr = []
        dt = rng.choice([torch.float32, torch.float64])
        n = rng.choice([0, 1, 2, 4, 6])
        shp = rng.choice(SHAPES)(n) if rng.random() < 0.9 or n != 1 else ()
        def B(t, k=1):
            return t.reshape(shp + tuple(t.shape[1:]))
        def add(op, x, f_, inp, scale=S, exact=False, **kw):
            ev = call({"op": op, "x": x, "_b": shp, **kw}, f_, [B(t) for t in inp], scale, exact)
            tr.append(ev)
            tr.append({"op": "input", "same": ev.pop("_same", True)})
        ten = lambda x, w, s=1.0: (torch.tensor(x, dtype=torch.float64).reshape(-1, *w) / s).to(dt)
        qs = quats(ctx, n)
        sc = rng.choice([1.0, 0.5, 3.0])
        add("quaternion_to_matrix", qs, T3.quaternion_to_matrix, [ten(qs, (4,)) * sc])
        ms = quats(ctx, n)
        M = exact_matrix(ms, dt)
        add("matrix_to_quaternion", ms, T3.matrix_to_quaternion, [M])
        pairs = list(zip(quats(ctx, n), quats(ctx, n)))
        a, b = ten([p[0] for p in pairs], (4,)), ten([p[1] for p in pairs], (4,))
        add("raw_multiply", pairs, T3.quaternion_raw_multiply, [a, b], exact=True)
        add("multiply", pairs, T3.quaternion_multiply, [a, b], exact=True)
        add("standardize", qs, T3.standardize_quaternion, [ten(qs, (4,))], exact=True)
        add("invert", qs, T3.quaternion_invert, [ten(qs, (4,))], exact=True)
        pts = [[rng.randint(-3, 3) for _ in range(3)] for _ in range(n)]
        add("quaternion_apply", list(zip(qs, pts)), T3.quaternion_apply, [unitq(qs, dt), ten(pts, (3,))])
        vs = vecs(ctx, n)
        V = ten(vs, (3,), 1000)
        long = vecs(ctx, n, 6200)
        L = ten(long, (3,), 1000)
        add("axis_angle_to_matrix", long, T3.axis_angle_to_matrix, [L])
        add("axis_angle_to_matrix_fast", long, lambda v: T3.axis_angle_to_matrix(v, fast=True), [L])
        add("axis_angle_to_quaternion", long, T3.axis_angle_to_quaternion, [L])
        # logarithms
        logs = [("matrix_to_axis_angle", T3.matrix_to_axis_angle), ("matrix_to_axis_angle fast", lambda m: T3.matrix_to_axis_angle(m, fast=True)),
                ("quaternion_to_axis_angle", lambda m: T3.quaternion_to_axis_angle(m))]
        for nm, fn in logs:
            if nm[0] == "q":
                x = [v if v[0] >= 0 else [-c for c in v] for v in ms]
                add("log_of_quaternion", x, fn, [unitq(x, dt)], 1000, fn=nm)
                Q = T3.axis_angle_to_quaternion(V)
                add("log_of_vector", vs, fn, [Q], 1000, fn=nm)
            else:
                # single precision cannot resolve fast logarithms close to pi
                prec = torch.float64 if "fast" in nm else dt
                add("log_of_quaternion", ms, fn, [exact_matrix(ms, prec)], 1000, fn=nm)
                R = T3.axis_angle_to_matrix(V.double()).to(prec)
                add("log_of_vector", vs, fn, [R], 1000, fn=nm)
        conv = rng.choice(CONV)
        es = euls(ctx, n)
        E = ten(es, (3,), 10000)
        add("euler_to_matrix", es, lambda x: T3.euler_angles_to_matrix(x, conv), [E], c=list(conv), cs=conv)
        R = T3.euler_angles_to_matrix(E.double(), conv).to(dt)
        add("matrix_to_euler", es, lambda m: T3.matrix_to_euler_angles(m, conv), [R], c=list(conv), cs=conv, **{"from": "euler"})
        add("matrix_to_euler", ms, lambda m: T3.matrix_to_euler_angles(m, conv), [M], c=list(conv), cs=conv, **{"from": "quat"})
        six = []
        while len(six) < n:
            d = [rng.randint(-5, 5) for _ in range(6)]
            if any(torch.linalg.cross(torch.tensor(d[:3]), torch.tensor(d[3:]))):
                six.append(d)
        add("sixd_to_matrix", six, T3.rotation_6d_to_matrix, [ten(six, (6,))])
        add("matrix_to_sixd", ms, matrix_to_rotation_6d, [M])
        # so3 / se3 take plain batches
        shp = (n,)
        fn = so3_exponential_map if rng.random() < 0.2 else T3.so3_exp_map
        add("so3_exp_map", long, fn, [L])
        add("log_of_vector", vs, T3.so3_log_map, [T3.axis_angle_to_matrix(V.double()).to(dt)], 1000, fn="so3_log_map")
        add("log_of_quaternion", ms, T3.so3_log_map, [M], 1000, fn="so3_log_map")
        pq = list(zip(quats(ctx, n), quats(ctx, n)))
        A, Bm = exact_matrix([p[0] for p in pq], dt), exact_matrix([p[1] for p in pq], dt)
        add("relcos", pq, lambda u, v: T3.so3_relative_angle(u, v, cos_angle=True), [A, Bm])
        cb = rng.choice([1, 1, 100, 1000, 3000])
        cosx = [round(1e6 * float(c)) for c in ((A.double() * Bm.double()).sum((-1, -2)) - 1) / 2]
        for k, c in enumerate(cosx):  # |cos| within the precision of the bound: fine, extrapolation is continuous
            cosx[k] = max(-1000000, min(1000000, c))
        if cb == 1:
            cbx = [c if abs(c) <= 999000 else None for c in cosx]
        else:
            cbx = cosx
        idx = [i for i, c in enumerate(cbx) if c is not None]
        nn, shp = n, (len(idx),)
        add("relangle", [cosx[i] for i in idx], lambda u, v: T3.so3_relative_angle(u, v, cos_bound=cb / 1e4), [A[idx], Bm[idx]], cb=cb)
        add("relangle", [cosx[i] for i in idx], lambda u: T3.so3_rotation_angle(u, cos_bound=cb / 1e4), [torch.bmm(A.double(), Bm.double().transpose(1, 2)).to(dt)[idx]], cb=cb)
        shp = (n,)
        hv = [[rng.randint(-9, 9) for _ in range(3)] for _ in range(n)]
        add("hat", hv, T3.hat if hasattr(T3, "hat") else T3.so3.hat, [ten(hv, (3,))], exact=True)
        if n:
            add("hat_inv", hv, T3.so3.hat_inv, [T3.so3.hat(ten(hv, (3,)))], exact=True)
            lv = [[rng.randint(-4000, 4000) for _ in range(3)] + v for v in vs]
            X = ten(lv, (6,), 1000)
            add("se3_exp", lv, T3.se3_exp_map, [X])
            add("se3_log", lv, T3.se3_log_map, [T3.se3_exp_map(X.double()).to(dt)], 1000)
            add("se3_log", lv, lambda g: T3.Transform3d(matrix=g).get_se3_log(), [T3.se3_exp_map(X.double()).to(dt)], 1000)
            tt = [[rng.randint(-3, 3) for _ in range(3)] for _ in range(n)]
            G = torch.zeros(n, 4, 4, dtype=dt)
            G[:, :3, :3], G[:, 3, :3], G[:, 3, 3] = M.transpose(1, 2), ten(tt, (3,)), 1
            add("se3_explog", list(zip(ms, tt)), lambda g: T3.se3_exp_map(T3.se3_log_map(g)), [G])
            ax = rng.choice("XYZ")
            an = [rng.randint(-70000, 70000) for _ in range(n)]
            deg = rng.random() < 0.5
            add("rotate_axis_angle", an, lambda x: T3.RotateAxisAngle(x * 180 / math.pi if deg else x, axis=ax, degrees=deg, dtype=dt).get_matrix()[:, :3, :3],
                [ten(an, (), 10000)], ax=ax)
        yield tr
    # acos
    tr = []
    for cb in [1, 10, 100, 1000, 5000, 9000]:
        for _ in range(ctx.n(6, 30)):
            xs = [rng.randint(-1300000, 1300000) for _ in range(6)] + [1000000, -1000000, 0, 1000000 - 100 * cb - 2000 - rng.randint(0, 10000)]
            if cb == 1:
                xs = [x for x in xs if abs(x) < 990000 or abs(x) > 1000000 - 100]
            def go(e):
                x = (torch.tensor(xs, dtype=torch.float64) / 1e6).requires_grad_()
                b = 1 - cb / 1e4
                y = acos_linear_extrapolation(x, (-b, b))
                (g,) = torch.autograd.grad(y.sum(), x)
                e["o"] = [[int(u), int(v)] for u, v in zip(q(y, S), q(g, 100))]
            tr.append(guard({"op": "acos", "x": xs, "cb": cb}, go))
    yield tr
    # random generators, gradients, broadcasting, rejects
    tr = []
    for fn, n in itertools.product(["random_quaternions", "random_rotations", "random_rotation"], [0, 1, 7]):
        for dt in [None, torch.float64]:
            def go(e):
                if fn == "random_rotation":
                    r = T3.random_rotation(dtype=dt)[None]
                else:
                    r = getattr(T3, fn)(n, dtype=dt, device=rng.choice([None, "cpu", torch.device("cpu")]))
                e["o"] = q(r, S)
                e["n"] = 1 if fn == "random_rotation" else n
                tr.append({"op": "dtype", "fn": fn, "kept": r.dtype == (dt or torch.float32)})
            tr.append(guard({"op": "random", "fn": fn}, go))
    def go(e):
        r = T3.random_rotations(2000)
        e["o"] = {"mean": int(r.mean(0).abs().max() * S), "distinct": not torch.equal(r[0], r[1])}
    tr.append(guard({"op": "random_spread"}, go))
    for nm, fn in [("axis_angle_to_matrix", T3.axis_angle_to_matrix), ("axis_angle_to_matrix fast", lambda v: T3.axis_angle_to_matrix(v, fast=True)), ("so3_exp_map", lambda v: T3.so3_exp_map(v[None])[0])]:
        def go(e):
            j = torch.autograd.functional.jacobian(fn, torch.zeros(3, dtype=torch.float64))  # (3,3,3) last: variable
            e["o"] = q(j.permute(2, 0, 1), S)
        tr.append(guard({"op": "expgrad", "fn": nm}, go))
    def bcast(op, fn, xa, xb, sa, sb, x, exact=True):
        def go(e):
            r = fn(torch.tensor(xa, dtype=torch.float64).reshape(sa), torch.tensor(xb, dtype=torch.float64).reshape(sb))
            e["o"] = enc(r.reshape(-1, r.shape[-1])) if exact else q(r.reshape(-1, r.shape[-1]), S)
        tr.append(guard({"op": op, "x": x}, go))
    for _ in range(ctx.n(8, 40)):
        qa, qb = quats(ctx, 2), quats(ctx, 3)
        bcast("raw_multiply", T3.quaternion_raw_multiply, qa, qb, (2, 1, 4), (3, 4), [[a, b] for a in qa for b in qb])
        bcast("multiply", T3.quaternion_multiply, qa, qb[:1], (2, 4), (4,), [[a, qb[0]] for a in qa])
    def rej(what, fn):
        ok, _ = attempt(fn)
        tr.append({"op": "rejects", "what": what, "rejected": not ok})
    z = torch.zeros
    rej("matrix shape in matrix_to_quaternion", lambda: T3.matrix_to_quaternion(z(2, 3, 4)))
    rej("matrix shape in matrix_to_axis_angle", lambda: T3.matrix_to_axis_angle(z(2, 4, 3), fast=True))
    rej("matrix shape in matrix_to_euler_angles", lambda: T3.matrix_to_euler_angles(z(2, 2, 3), "XYZ"))
    for c in ["XY", "XYZX", "XXY", "XYY", "xyz", "XYW", ""]:
        rej(f"convention {c!r} (to matrix)", lambda: T3.euler_angles_to_matrix(z(2, 3), c))
        rej(f"convention {c!r} (from matrix)", lambda: T3.matrix_to_euler_angles(torch.eye(3), c))
    rej("Euler angles of size 4", lambda: T3.euler_angles_to_matrix(z(2, 4), "XYZ"))
    rej("points of dimension 2", lambda: T3.quaternion_apply(torch.tensor([1.0, 0, 0, 0]), z(2, 2)))
    rej("so3_exp_map input", lambda: T3.so3_exp_map(z(2, 4)))
    rej("so3_log_map input", lambda: T3.so3_log_map(z(2, 3, 4)))
    rej("so3_rotation_angle input", lambda: T3.so3_rotation_angle(z(2, 4, 4)))
    rej("trace above 3", lambda: T3.so3_rotation_angle(1.1 * torch.eye(3)[None]))
    rej("trace below -1", lambda: T3.so3_rotation_angle(torch.diag(torch.tensor([-1.0, -1.0, 0.5]))[None]))
    rej("hat input", lambda: T3.so3.hat(z(2, 4)))
    rej("hat_inv shape", lambda: T3.so3.hat_inv(z(2, 3, 4)))
    rej("matrix that is not skew-symmetric", lambda: T3.so3.hat_inv(torch.eye(3)[None]))
    rej("matrix not skew-symmetric in one entry", lambda: T3.so3.hat_inv(torch.tensor([[[0, 1.0, 0], [-1, 0, 0], [0, 0.1, 0]]])))
    rej("se3_exp_map input", lambda: T3.se3_exp_map(z(2, 5)))
    rej("se3_log_map rank", lambda: T3.se3_log_map(torch.eye(4)))
    rej("se3_log_map shape", lambda: T3.se3_log_map(z(1, 3, 4)))
    rej("se3_log_map last column", lambda: T3.se3_log_map(torch.eye(4)[None] + torch.tensor([[0, 0, 0, 0.5]] + [[0, 0, 0, 0]] * 3)))
    rej("acos bounds order", lambda: acos_linear_extrapolation(z(2), (0.5, -0.5)))
    rej("acos bounds outside (-1,1)", lambda: acos_linear_extrapolation(z(2), (-1.0, 0.5)))
    yield tr
