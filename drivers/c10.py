import torch
from harness import enc, q, guard, attempt
from c08 import rot, rmat
from pytorch3d.renderer.fisheyecameras import FishEyeCameras
from pytorch3d.renderer.camera_utils import join_cameras_as_batch
MODULE = "Fish"
ASSUMPTIONS = ["integer points with |x/z|, |y/z| <= 3 in camera space; radial coefficients within +-0.02 (unprojection: 0..0.005), others within +-0.01", "use_radial=False together with other distortions is projected as coded, its unprojection is not exercised (the documentation does not define it)"]


class R:
    def __init__(self, ctx):
        self.ctx, self.rng, self.objs, self.info, self.tr, self.inputs = ctx, ctx.rng, [], [], [], []

    def add(self, ev, fn, inf):
        new = []
        def go(e):
            new.append(fn())
            e["res"] = "ok"
        self.tr.append(guard(ev, go))
        if new:
            self.objs += new
            self.info.append(inf)

    def keep(self, t):
        self.inputs.append((t, t.clone()))
        return t

    def new(self, like=None):
        rng = self.rng
        n = rng.choice([1, 1, 2, 3])
        m = rng.random() < 0.5  # monotone distortions, invertible
        K = like["K"] if like else rng.randint(1, 6)
        cnt = lambda: n if rng.random() < 0.6 else 1
        ps = {"f": [rng.choice([1, 2, 5, 20]) * 1000 for _ in range(cnt())],
              "c": [[rng.randint(-5, 40) * 1000 for _ in range(2)] for _ in range(cnt())],
              "k": [[rng.randint(0 if m else -20, 5 if m else 20) for _ in range(K)] for _ in range(cnt())],
              "p": [[rng.randint(-5, 5) * (1 if m else 2) for _ in range(2)] for _ in range(cnt())],
              "s": [[rng.randint(-5, 5) * (1 if m else 2) for _ in range(4)] for _ in range(cnt())]}
        Rs, Ts = [rot(rng) for _ in range(cnt())], [[rng.randint(-4, 4), rng.randint(-4, 4), rng.randint(4, 12)] for _ in range(cnt())]
        fl = like["fl"] if like else [rng.random() < 0.5, rng.random() < 0.8, rng.random() < 0.7, rng.random() < 0.7]
        sz = [[rng.randint(4, 99), rng.randint(4, 99)] for _ in range(cnt())] if (like["sz"] if like else rng.random() < 0.3) else []
        n = max(map(len, [*ps.values(), Rs, Ts, sz]))
        T = lambda x, s=1000: self.keep(torch.tensor(x).float() / s)
        kw = dict(focal_length=T([[x] for x in ps["f"]]), principal_point=T(ps["c"]), radial_params=T(ps["k"]), tangential_params=T(ps["p"]), thin_prism_params=T(ps["s"]), R=self.keep(rmat(Rs)), T=T(Ts, 2))
        for name, v, default in zip(("world_coordinates", "use_radial", "use_tangential", "use_thin_prism"), fl, (False, True, True, True)):
            if v != default or rng.random() < 0.5:
                kw[name] = v
        if sz:
            kw["image_size"] = torch.tensor(sz) if rng.random() < 0.5 else sz
        bc = lambda l, i: l[0] if len(l) == 1 else l[i]
        prm = [{k: bc(v, i) for k, v in ps.items()} for i in range(n)]
        cam = {"n": n, "R": Rs, "T": Ts, "prm": prm, "world": fl[0], "ur": fl[1], "ut": fl[2], "us": fl[3], "sz": sz}
        self.add({"op": "new", "cam": cam}, lambda: FishEyeCameras(**kw), {"n": n, "K": K, "fl": fl, "sz": bool(sz), "mono": m})

    def op(self):
        rng = self.rng
        i = rng.randrange(len(self.objs))
        c, inf, a, n = self.objs[i], self.info[i], i + 1, self.info[i]["n"]
        k = rng.choice(["getitem", "getitem", "clone", "join"])
        if k == "clone":
            return self.add({"op": "clone", "a": a}, c.clone, inf)
        if k == "join":
            as_ = [i] + [j for j in range(len(self.objs)) if all(self.info[j][x] == inf[x] for x in ("K", "fl", "sz")) and rng.random() < 0.6]
            if sum(self.info[j]["n"] for j in as_) > 5:
                return
            return self.add({"op": "join", "as": [j + 1 for j in as_]}, lambda: join_cameras_as_batch([self.objs[j] for j in as_]), {**inf, "n": sum(self.info[j]["n"] for j in as_), "mono": all(self.info[j]["mono"] for j in as_)})
        form = rng.choice(["int", "list", "long", "bool"])
        if form == "int":
            j = rng.randrange(-n, n)
            idx, arg = [j], j
        elif form == "bool":
            m = [rng.random() < 0.6 for _ in range(n)]
            m[rng.randrange(n)] = True
            idx, arg = [j for j in range(n) if m[j]], torch.tensor(m)
        else:
            idx = [rng.randrange(-n, n) for _ in range(rng.randint(1, 3))]
            arg = list(idx) if form == "list" else torch.tensor(idx)
        self.add({"op": "getitem", "a": a, "idx": idx}, lambda: c[arg], {**inf, "n": len(idx)})

    def observe(self, a):
        rng, c, inf = self.rng, self.objs[a - 1], self.info[a - 1]
        n, world = inf["n"], inf["fl"][0]
        def go(e):
            s = c.get_image_size()
            e["o"] = {"n": len(c), "sz": enc(s) if s is not None else [], "flags": [c.world_coordinates, c.use_radial, c.use_tangential, c.use_thin_prism]}
        self.tr.append(guard({"op": "obs", "a": a}, go))
        shape = rng.choice(["P", "1P", "MP"])
        M = 1 if shape != "MP" else rng.choice([2, 3]) if n == 1 else n if world else 1
        P = rng.choice([1, 1, 3])
        pts = []
        for b in range(M):
            row = []
            while len(row) < P:
                x = [rng.randint(-4, 4), rng.randint(-4, 4), rng.randint(-3, 5)]
                if rng.random() < 0.15:
                    x[:2] = [0, 0]
                X = torch.tensor(x, dtype=torch.float64)
                for i in range(n):
                    v = X @ c.R[i if len(c.R) > 1 else 0].double() + c.T[i if len(c.T) > 1 else 0].double() if world else X
                    if v[2].abs() < 0.3 or (v[:2].abs() > 2 * v[2].abs()).any():
                        break
                else:
                    row.append(x)
            pts.append(row)
        dim2 = shape == "P"
        X = torch.tensor(pts).float()
        X = X[0] if dim2 else X
        y = []
        def go(e):
            X0 = X.clone()
            r = c.transform_points(X)
            assert torch.equal(X, X0), "input modified"
            y.append(r)
            e["rdim"] = r.dim()
            e["o"] = q(r if r.dim() == 3 else r[None], 1000)
        base = {"a": a, "p": pts, "dim2": dim2, "rdim": 0}
        self.tr.append(guard({"op": "project", **base}, go))
        if y and inf["mono"] and inf["fl"][1]:
            def go(e):
                if n > 1 and y[0].dim() == 3 and len(y[0]) == n and rng.random() < 0.5:
                    # the points of one camera given to all of them: that camera recovers its own
                    one = rng.random() < 0.5
                    rs = [c.unproject_points(y[0][j:j + 1] if one else y[0][j]) for j in range(n)]
                    if any(len(x) != n for x in rs):
                        raise AssertionError("number of results")
                    r = torch.stack([x[j] for j, x in enumerate(rs)])
                else:
                    r = c.unproject_points(y[0])
                e["rdim"] = r.dim()
                e["o"] = q(r if r.dim() == 3 else r[None], 1000)
            self.tr.append(guard({"op": "unproject", **base}, go))
        if n == 1 and not world and rng.random() < 0.6:
            def go(e):
                ps = [c.focal, c.principal_point, c.radial_params, c.tangential_params, c.thin_prism_params]
                ps = [p.detach().double().requires_grad_() for p in ps]
                Xd = (X.double() + 0.05).requires_grad_()
                def f(x, *p):
                    d = c.clone()
                    d.R, d.T = c.R.double(), c.T.double()
                    d.focal, d.principal_point, d.radial_params, d.tangential_params, d.thin_prism_params = p
                    return d.transform_points(x)[..., :2]
                e["ok"] = torch.autograd.gradcheck(f, (Xd, *ps), atol=1e-4, rtol=1e-3)
            self.tr.append(guard({"op": "grad"}, go))


def traces(ctx):
    F = FishEyeCameras
    C3 = F(focal_length=torch.ones(3, 1))
    tr = []
    for k, f in {
        "points of two batches for three cameras": lambda: C3.transform_points(torch.rand(2, 4, 3)),
        "points of dimension 4": lambda: F().transform_points(torch.rand(1, 1, 4, 3)),
        "image size": lambda: F(image_size=((0, 4),)),
        "batch sizes 2 and 3": lambda: F(focal_length=torch.ones(2, 1), principal_point=torch.ones(3, 2)),
        "index out of range": lambda: C3[3],
        "join of cameras with different flags": lambda: join_cameras_as_batch([F(use_radial=False), F()]),
    }.items():
        tr.append({"op": "rejects", "what": k, "rejected": not attempt(f)[0]})
    yield tr
    for _ in range(ctx.n(160, 5000)):
        r = R(ctx)
        r.new()
        if r.info and ctx.rng.random() < 0.4:
            r.new(r.info[0])
        for _ in range(ctx.rng.randint(0, 4)):
            if r.objs and len(r.objs) < 5:
                r.op()
        for a in range(1, len(r.objs) + 1):
            r.observe(a)
        r.tr.append({"op": "input", "same": all(torch.equal(x, y) for x, y in r.inputs)})
        yield r.tr
