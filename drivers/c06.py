import sharelib
import itertools, math, torch
from harness import enc, q, guard, attempt
from pytorch3d.transforms import Transform3d, Translate, Scale, Rotate, RotateAxisAngle
MODULE = "Xforms"
ASSUMPTIONS = ["integer and half-integer entries, rotations by quarter turns here (general rotations: C07); results to 2e-3 absolute or 2e-4 relative"]
OCT = []
for p in itertools.permutations(range(3)):
    for sg in itertools.product([1, -1], repeat=3):
        m = [[sg[i] if p[i] == j else 0 for j in range(3)] for i in range(3)]
        if round(float(torch.det(torch.tensor(m).float()))) == 1:
            OCT.append(m)
DT = {"f32": torch.float32, "f64": torch.float64}


class R:
    def __init__(self, ctx):
        self.ctx, self.objs, self.tr, self.inputs, self.N, self.gen = ctx, [], [], [], ctx.rng.choice([1, 2, 3]), []

    def step(self, ev, fn, gen):
        new = []
        def go(e):
            new.append(fn(e))
            e["res"] = "ok"
        guard(ev, go)
        self.tr.append(ev)
        if new:
            self.objs += new
            self.gen.append(gen)
        return "exc" not in ev

    def keep(self, t):
        self.inputs.append((t, t.clone()))
        return t

    def prim(self, dt, kinds):
        """-> (event fields, list of constructor args, kwargs, class)"""
        rng = self.ctx.rng
        kind = rng.choice(kinds)
        n = rng.choice([1, self.N])
        T = lambda x, s=1.0: self.keep(torch.tensor(x, dtype=rng.choice([DT[dt], torch.float32])) / s)
        if kind == "matrix":
            while True:
                v = self.ctx.np.randint(-1, 3, size=(n, 4, 4))
                if rng.random() < 0.5:
                    v[:, :3, 3] = 0
                    v[:, 3, 3] = 1
                if all(0 < abs(round(float(torch.det(torch.tensor(x).double())))) <= 4 for x in v):
                    break
            t = torch.tensor(v.tolist(), dtype=DT[dt])
            return {"kind": kind, "v": v.tolist()}, [], {"matrix": self.keep(t[0] if n == 1 and rng.random() < 0.5 else t)}, Transform3d
        if kind == "rotate":
            v = [rng.choice(OCT) for _ in range(n)]
            t = T(v)
            return {"kind": kind, "v": v}, [t[0] if n == 1 and rng.random() < 0.5 else t], {}, Rotate
        if kind == "axis":
            ax = rng.choice("XYZ")
            v = [rng.randint(-3, 5) for _ in range(n)]
            deg = rng.random() < 0.5
            ang = [90.0 * x if deg else math.pi / 2 * x for x in v]
            a = T(ang) if n > 1 or rng.random() < 0.3 else ang[0] if rng.random() < 0.5 else T(ang[0])
            kw = {"axis": ax if rng.random() < 0.7 else ax.lower()}
            if not deg:
                kw["degrees"] = False
            return {"kind": kind, "v": v, "axis": ax}, [a], kw, RotateAxisAngle
        vals = list(range(-5, 6)) if kind == "translate" else [-4, -2, -1, 1, 2, 4]
        form = rng.choice(["mat", "xyz"] + (["single"] if kind == "scale" else []))
        cls = Translate if kind == "translate" else Scale
        v = [[rng.choice(vals) for _ in range(3)] for _ in range(n)]
        if form == "mat":
            return {"kind": kind, "v": v}, [T(v, 2)], {}, cls
        if form == "single":
            v = [[x[0]] * 3 for x in v]
            if n == 1 and rng.random() < 0.7:
                a = v[0][0] / 2 if rng.random() < 0.5 else T(v[0][0], 2)
            else:
                a = T([x[0] for x in v], 2)
            return {"kind": kind, "v": v}, [a], {}, cls
        args = []
        vec = rng.randrange(3)
        for c in range(3):
            if n == 1 and rng.random() < 0.6:
                args.append(v[0][c] / 2 if rng.random() < 0.5 else T(v[0][c], 2))
            elif c != vec and rng.random() < 0.5:  # broadcast a scalar
                for x in v:
                    x[c] = v[0][c]
                args.append(v[0][c] / 2 if rng.random() < 0.5 else T(v[0][c], 2) if rng.random() < 0.5 else T([v[0][c]], 2))
            else:
                args.append(T([x[c] for x in v], 2))
        return {"kind": kind, "v": v}, args, {}, cls

    def new(self, kinds=("matrix", "translate", "scale", "rotate", "axis", "identity")):
        dt = self.ctx.rng.choice(["f32", "f32", "f64"])
        k = self.ctx.rng.choice(kinds)
        if k == "identity":
            return self.step({"op": "new", "dt": dt, "kind": k}, lambda e: Transform3d(dtype=DT[dt]), 0)
        f, a, kw, cls = self.prim(dt, [k])
        if k != "matrix":
            kw = dict(kw, dtype=DT[dt])
        return self.step({"op": "new", "dt": dt, **f}, lambda e: cls(*a, **kw), int(k == "matrix"))

    def op(self):
        rng = self.ctx.rng
        i = rng.randrange(len(self.objs))
        t = self.objs[i]
        a, g, n = i + 1, self.gen[i], len(self.objs[i])
        dt = "f64" if t.dtype == torch.float64 else "f32"
        kind = rng.choice(["then", "then", "compose", "compose", "inverse", "inverse", "stack", "getitem", "getitem", "clone", "to"])
        ev = {"op": kind, "a": a}
        if kind == "then":
            f, args, kw, cls = self.prim(dt, ["translate", "scale", "rotate", "axis"])
            if g and f["kind"] == "scale":
                return
            if n > 1 and len(f["v"]) not in (1, n):
                return
            if n == 1 and len(f["v"]) not in (1, self.N):
                return
            name = {"translate": "translate", "scale": "scale", "rotate": "rotate", "axis": "rotate_axis_angle"}[f["kind"]]
            return self.step({**ev, **f}, lambda e: getattr(t, name)(*args, **kw), g)
        if kind == "compose":
            as_, gg, L = [], g, n
            for _ in range(rng.randint(1, 2)):
                c = [j for j in range(len(self.objs)) if self.objs[j].dtype == t.dtype and (len(self.objs[j]) in (1, L) or L == 1) and gg + self.gen[j] <= 1]
                if c:
                    j = rng.choice(c)
                    as_.append(j + 1)
                    gg += self.gen[j]
                    L = max(L, len(self.objs[j]))
            if not as_:
                return
            ev["as"] = as_
            return self.step(ev, lambda e: t.compose(*[self.objs[j - 1] for j in as_]), gg)
        if kind == "inverse":
            if g and rng.random() < 0.5:
                return
            return self.step(ev, lambda e: t.inverse(invert_composed=True) if rng.random() < 0.5 else t.inverse(), g)
        if kind == "stack":
            c = [j + 1 for j in range(len(self.objs)) if self.objs[j].dtype == t.dtype]
            ev["as"] = [rng.choice(c) for _ in range(rng.randint(1, 2))]
            return self.step(ev, lambda e: t.stack(*[self.objs[j - 1] for j in ev["as"]]), max([g] + [self.gen[j - 1] for j in ev["as"]]))
        if kind == "getitem":
            form = rng.choice(["int", "neg", "slice", "list", "bool", "long"])
            if form == "int":
                k = rng.randrange(n); idx, arg = [k], k
            elif form == "neg":
                k = rng.randrange(n); idx, arg = [k], k - n
            elif form == "slice":
                lo = rng.randrange(n); hi = rng.randint(lo + 1, n)
                arg = slice(lo, hi); idx = list(range(lo, hi))
            elif form == "list":
                idx = [rng.randrange(n) for _ in range(rng.randint(1, 3))]; arg = list(idx)
            elif form == "bool":
                m = [rng.random() < 0.6 for _ in range(n)]
                m[rng.randrange(n)] = True
                idx, arg = [x for x in range(n) if m[x]], torch.tensor(m)
            else:
                idx = [rng.randrange(n) for _ in range(rng.randint(1, 3))]; arg = torch.tensor(idx)
            ev["idx"] = idx
            return self.step(ev, lambda e: t[arg], g)
        if kind == "clone":
            ev["dt"] = dt
            return self.step(ev, lambda e: t.clone(), g)
        ev["dt"] = rng.choice(["f32", "f64"])
        return self.step(ev, lambda e: t.to("cpu", copy=rng.random() < 0.5, dtype=DT[ev["dt"]]), g)

    def obs(self, a):
        rng = self.ctx.rng
        t = self.objs[a - 1]
        aff = not self.gen[a - 1]
        for acc in ["matrix", "len", "dtype", "points", "normals", "points"]:
            ev = {"op": "obs", "a": a, "acc": acc}
            def go(e):
                if acc == "matrix":
                    e["o"] = q(t.get_matrix(), 1000)
                elif acc == "len":
                    e["o"] = len(t)
                elif acc == "dtype":
                    e["o"] = {torch.float32: "f32", torch.float64: "f64"}[t.get_matrix().dtype]
                    assert t.dtype == t.get_matrix().dtype
                else:
                    n = len(t)
                    e["dim2"] = rng.random() < 0.5
                    nb = 1 if e["dim2"] or rng.random() < 0.3 else n if n > 1 else rng.choice([1, 2])
                    e["p"] = [[[rng.randint(-3, 3) for _ in range(3)] for _ in range(rng.choice([1, 3]))]]
                    e["p"] += [[[rng.randint(-3, 3) for _ in range(3)] for _ in e["p"][0]] for _ in range(nb - 1)]
                    P = torch.tensor(e["p"], dtype=t.dtype)
                    x = P[0] if e["dim2"] else P
                    if acc == "points":
                        h = torch.cat([P, torch.ones_like(P[..., :1])], -1) @ t.get_matrix()
                        e["eps"] = rng.choice([0, 0, 4, 12])
                        if h[..., 3].abs().min() < 1e-3:
                            e["eps"] = 8
                        kw = {"eps": e["eps"] / 8} if e["eps"] else {}
                        r = t.transform_points(x, **kw)
                    else:
                        if not aff and t.get_matrix()[:, :3, :3].det().abs().min() < 1e-3:
                            e["acc"], e["o"] = "len", n
                            return
                        r = t.transform_normals(x)
                    e["rdim"] = r.dim()
                    e["o"] = q(r if r.dim() == 3 else r[None], 1000)
                    assert r.dtype == t.dtype
            self.tr.append(guard(ev, go))

    def rejects(self):
        z = torch.zeros
        c = {
            "3x4 matrix": lambda: Transform3d(matrix=z(3, 4)),
            "4-dim matrix": lambda: Transform3d(matrix=z(1, 1, 4, 4)),
            "composition with a tensor": lambda: Transform3d().compose(z(4, 4)),
            "points of dim 1": lambda: Transform3d().transform_points(z(3)),
            "points of dim 4": lambda: Transform3d().transform_points(z(1, 2, 2, 3)),
            "normals of dim 1": lambda: Transform3d().transform_normals(z(3)),
            "translation of 2 numbers": lambda: Translate(z(2, 2)),
            "translation matrix with y": lambda: Translate(z(2, 3), 1.0),
            "translation of sizes 2 and 3": lambda: Translate(z(2), z(3), 0.0),
            "rotation of shape 2x3": lambda: Rotate(z(2, 3)),
            "axis": lambda: RotateAxisAngle(1.0, axis="W"),
            "2-dim angle": lambda: RotateAxisAngle(z(2, 2)),
            "batch mismatch in composition": lambda: Translate(z(2, 3)).compose(Translate(z(3, 3))).get_matrix(),
            "batch mismatch in points": lambda: Translate(z(2, 3)).transform_points(z(3, 4, 3)),
        }
        for k, f in c.items():
            self.tr.append({"op": "rejects", "what": k, "rejected": not attempt(f)[0]})


def traces(ctx):
    r = R(ctx)
    r.rejects()
    yield r.tr
    for _ in range(ctx.n(220, 6000)):
        r = R(ctx)
        for _ in range(ctx.rng.randint(1, 3)):
            if not r.new():
                break
        for _ in range(ctx.rng.randint(1, 6)):
            if len(r.objs) < 8 and r.objs:
                r.op()
        for a in range(1, len(r.objs) + 1):
            r.obs(a)
        r.tr.append({"op": "input", "same": all(torch.equal(x, y) for x, y in r.inputs)})
        yield r.tr
    yield from sharelib.share(ctx, [sharelib.TransK], ctx.n(60, 900))
