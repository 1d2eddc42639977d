import sharelib
import numpy as np, torch
from harness import enc, q, guard, attempt
from pytorch3d.renderer.utils import TensorProperties, convert_to_tensors_and_broadcast, ndc_grid_sample, ndc_to_grid_sample_coords, parse_image_size
from pytorch3d.renderer import Materials, PointLights, DirectionalLights, AmbientLights
MODULE = "Props"
ASSUMPTIONS = ["integer field values; sampling at quarter-pixel locations of integer images (exact in float32)"]
rows = lambda t: [x if isinstance(x, list) else [x] for x in enc(t.reshape(t.shape[0], -1))]


class R:
    def __init__(self, ctx):
        self.ctx, self.rng, self.objs, self.f, self.tr, self.inputs = ctx, ctx.rng, [], [], [], []

    def keep(self, t):
        self.inputs.append((t, t.clone() if torch.is_tensor(t) else t.copy()))
        return t

    def val(self, n, width):
        """n rows -> (rows, argument)"""
        rng = self.rng
        v = [[rng.randint(-9, 9) for _ in range(width or 1)] for _ in range(n)]
        raw = [x[0] for x in v] if width == 0 else v
        form = rng.choice(["tensor", "tensor", "list", "numpy", "scalar"])
        if form == "scalar" and n == 1 and width == 0:
            return v, rng.choice([raw[0], float(raw[0]), torch.tensor(float(raw[0]))])
        if form == "list":
            return v, raw if rng.random() < 0.5 else tuple(raw)
        if form == "numpy":
            return v, self.keep(np.array(raw, dtype=rng.choice(["float32", "float64", "int64"])))
        return v, self.keep(torch.tensor(raw, dtype=torch.float32))

    def new(self):
        rng = self.rng
        N = rng.choice([1, 2, 3, 4])
        kind = rng.choice(["plain", "plain", "plain", "materials", "point", "directional", "ambient"])
        if kind == "plain":
            spec = {"a": 0, "b": 3, "c": rng.choice([0, 1, 2])}
            names = rng.sample(sorted(spec), rng.randint(1, 3))
            mk = lambda kw: TensorProperties(**kw, label="x", flag=True, nothing=None)
        else:
            spec = {"materials": {"ambient_color": 3, "diffuse_color": 3, "specular_color": 3, "shininess": 0},
                    "point": {"ambient_color": 3, "diffuse_color": 3, "specular_color": 3, "location": 3},
                    "directional": {"ambient_color": 3, "diffuse_color": 3, "specular_color": 3, "direction": 3},
                    "ambient": {"ambient_color": 3}}[kind]
            names = sorted(spec)
            mk = lambda kw: {"materials": Materials, "point": PointLights, "directional": DirectionalLights, "ambient": AmbientLights}[kind](**kw)
        f, kw = {}, {}
        for k in names:
            f[k], kw[k] = self.val(rng.choice([1, N]), spec[k])
        self.add({"op": "new", "f": f}, lambda: mk(kw), names)

    def add(self, ev, fn, names, gathered=False):
        new = []
        def go(e):
            new.append(fn())
            e["res"] = "ok"
        self.tr.append(guard(ev, go))
        if new:
            self.objs += new
            self.f.append({"names": names, "gathered": gathered})

    def obs(self, a, names=None):
        o, inf = self.objs[a - 1], self.f[a - 1]
        for k in names or inf["names"]:
            def go(e):
                e["n"] = -1 if inf["gathered"] else len(o)
                e["o"] = rows(getattr(o, k))
            self.tr.append(guard({"op": "obs", "a": a, "name": k}, go))
        if type(o) is TensorProperties:
            self.tr.append(guard({"op": "attrs"}, lambda e: e.update(o=[str(type(o.label).__name__), str(o.label), str(type(o.flag).__name__), str(o.flag), str(o.nothing)])))

    def index(self, n):
        rng = self.rng
        if rng.random() < 0.5:
            i = rng.randrange(n)
            return [i], (i if rng.random() < 0.6 else i - n), True
        lo = rng.randrange(n)
        hi = rng.randint(lo + 1, n)
        return list(range(lo, hi)), slice(lo if rng.random() < 0.7 else lo - n, hi), False

    def op(self):
        rng = self.rng
        i = rng.randrange(len(self.objs))
        o, inf, a = self.objs[i], self.f[i], i + 1
        name = rng.choice(inf["names"])
        t = getattr(o, name)
        n, kind = t.shape[0], rng.choice(["set", "set", "set", "get", "get", "clone", "gather"])
        if kind == "clone":
            return self.add({"op": "clone", "a": a}, lambda: o.clone() if type(o) is not TensorProperties else o.clone(TensorProperties()), inf["names"], inf["gathered"])
        if kind == "get":
            ix, arg, single = self.index(n)
            def go(e):
                r = getattr(o[arg], name)
                e["o"] = rows(r[None] if single else r)
            return self.tr.append(guard({"op": "get", "a": a, "name": name, "ix": ix}, go))
        if kind == "set":
            ix, arg, single = self.index(n)
            w = t.shape[1] if t.dim() > 1 else 0
            m = 1 if single or rng.random() < 0.4 else len(ix)
            v = [[rng.randint(-9, 9) for _ in range(w or 1)] for _ in range(m)]
            raw = [x[0] for x in v] if w == 0 else v
            if m == 1 and (w == 0 or single or rng.random() < 0.5):
                raw = raw[0]
            if rng.random() < 0.6:
                raw = self.keep(torch.tensor(raw, dtype=t.dtype))
            def go(e):
                setattr(o[arg], name, raw)
                e["res"] = "ok"
            self.tr.append(guard({"op": "set", "a": a, "name": name, "ix": ix, "v": v}, go))
            return self.obs(a)
        if inf["gathered"]:
            return
        ix = [rng.randrange(n) for _ in range(rng.randint(1, 5))] if n > 1 else [0, 0]
        def go(e):
            o.gather_props(torch.tensor(ix))
            e["res"] = "ok"
        self.tr.append(guard({"op": "gather", "a": a, "ix": ix}, go))
        inf["gathered"] = True


def misc(ctx, tr):
    rng = ctx.rng
    # dtype
    want = rng.choice(["float32", "float64"])
    def go(e):
        o = TensorProperties(dtype=getattr(torch, want), x=1.5, y=[1.0, 2.0])
        e["o"] = [str(o.x.dtype)[6:], str(o.y.dtype)[6:]]
    tr.append(guard({"op": "dtype", "want": [want, want]}, go))
    r = R(ctx)
    N = rng.randint(1, 4)
    vs = [r.val(rng.choice([1, N]), rng.choice([0, 1, 3])) for _ in range(rng.randint(1, 3))]
    def go(e):
        e["o"] = [rows(x) for x in convert_to_tensors_and_broadcast(*[a for _, a in vs])]
    tr.append(guard({"op": "bcast", "v": [v for v, _ in vs]}, go))
    tr.append({"op": "input", "same": all((x == y).all() for x, y in r.inputs)})
    h, w = rng.randint(1, 99), rng.randint(1, 99)
    arg, want = rng.choice([((h, w), [h, w]), ([h, w], [h, w]), (h, [h, h])])
    tr.append(guard({"op": "size", "want": want}, lambda e: e.update(o=list(parse_image_size(arg)))))


def sampling(ctx, tr):
    rng, npr = ctx.rng, ctx.np
    # power-of-two side ratios keep all coordinates exact
    h, w = rng.choice([(4, 4), (2, 4), (4, 2), (8, 4), (4, 8), (1, 4), (8, 8), (16, 2), (2, 2)])
    s = min(h, w) / 2
    pts = torch.tensor(npr.randint(-2000, 2001, size=(5, 2)).tolist())
    def go(e):
        x = pts / 1000
        y = x.clone()
        e["o"] = q(ndc_to_grid_sample_coords(x, rng.choice([(h, w), torch.Size([h, w])])), 1000)
        assert torch.equal(x, y), "input modified"
    tr.append(guard({"op": "grid", "p": pts.tolist(), "h": h, "w": w}, go))
    B, D = rng.choice([1, 2]), rng.choice([1, 2])
    img = npr.randint(-4, 5, size=(B, D, h, w)).tolist()
    mode = rng.choice(["bilinear", "bilinear", "border", "nearest"])
    shape = rng.choice([(6,), (2, 3), (1, 2, 2)])
    n = int(np.prod(shape))
    step = rng.choice([1, 2]) if mode != "nearest" else 1
    loc = [[[rng.randint(-2, 4 * w + 2), rng.randint(-2, 4 * h + 2)] for _ in range(n)] for _ in range(B)]
    if mode == "nearest":  # away from ties between pixels
        loc = [[[4 * rng.randrange(-1, w + 1) + rng.choice([1, 2, 3]), 4 * rng.randrange(-1, h + 1) + rng.choice([1, 2, 3])] for _ in range(n)] for _ in range(B)]
    if rng.random() < 0.4:
        loc = [[[4 * rng.randrange(w) + 2, 4 * rng.randrange(h) + 2] for _ in range(n)] for _ in range(B)]
    def go(e):
        L = torch.tensor(loc).float() / 4
        ndc = torch.stack([(w / 2 - L[..., 0]) / s, (h / 2 - L[..., 1]) / s], -1).reshape(B, *shape, 2)
        im, g0 = torch.tensor(img).float(), ndc.clone()
        kw = {"nearest": {"mode": "nearest"}, "border": {"padding_mode": "border"}, "bilinear": {}}[mode]
        if rng.random() < 0.3:
            kw["align_corners"] = False
        r = ndc_grid_sample(im, ndc, **kw)
        assert r.shape == (B, D, *shape), r.shape
        assert torch.equal(ndc, g0) and torch.equal(im, torch.tensor(img).float()), "input modified"
        e["o"] = enc(r.reshape(B, D, -1), 16)
    tr.append(guard({"op": "sample", "img": img, "loc": loc, "mode": mode}, go))


def rejects(tr):
    z = torch.zeros
    P = TensorProperties(x=z(3, 2), y=z(3), s="name")
    def setx(v, i=0):
        P[i].x = v
    c = {
        "batch sizes 2 and 3": lambda: TensorProperties(x=z(2), y=z(3)),
        "broadcast of sizes 2 and 3": lambda: convert_to_tensors_and_broadcast(z(2, 3), z(3, 3)),
        "index by a list": lambda: P[[0, 1]],
        "index by a tensor": lambda: P[torch.tensor([0])],
        "attribute in indexed read": lambda: P[0].nothing,
        "attribute in indexed write": lambda: setattr(P[0], "nothing", 1.0),
        "write to an attribute which is no tensor": lambda: setattr(P[0], "s", 1.0),
        "index out of range": lambda: P[3].x,
        "shape of an assigned value": lambda: setx(z(1, 3), slice(0, 1)),
        "batch_idx with too many dimensions": lambda: TensorProperties(y=z(3)).gather_props(z(2, 2).long()),
        "image size of three": lambda: parse_image_size((1, 2, 3)),
        "image size of one": lambda: parse_image_size([1]),
        "negative image size": lambda: parse_image_size((-1, 2)),
        "zero image size": lambda: parse_image_size((4, 0)),
        "fractional image size": lambda: parse_image_size((4, 2.5)),
        "single negative image size": lambda: parse_image_size(-3),
        "single fractional image size": lambda: parse_image_size(2.5),
        "batch of the sampled image": lambda: ndc_grid_sample(z(2, 1, 3, 3), z(1, 4, 2)),
        "dimension of the sampled image": lambda: ndc_grid_sample(z(1, 3, 3), z(1, 4, 2)),
        "NDC points of 3 coordinates": lambda: ndc_grid_sample(z(1, 1, 3, 3), z(1, 4, 3)),
        "image size of NDC conversion": lambda: ndc_to_grid_sample_coords(z(1, 2), (0, 3)),
    }
    for k, f in c.items():
        tr.append({"op": "rejects", "what": k, "rejected": not attempt(f)[0]})
    for k, f in {"negative size in a list": lambda: parse_image_size([-1, 2]), "fractional size in a list": lambda: parse_image_size([4, 2.5])}.items():
        tr.append({"op": "rejects", "what": k, "rejected": attempt(f) == (False, "ValueError")})


def traces(ctx):
    tr = []
    rejects(tr)
    yield tr
    for _ in range(ctx.n(80, 3000)):
        tr = []
        misc(ctx, tr)
        sampling(ctx, tr)
        sampling(ctx, tr)
        yield tr
    for _ in range(ctx.n(250, 8000)):
        r = R(ctx)
        r.new()
        if r.rng.random() < 0.3:
            r.new()
        for _ in range(ctx.rng.randint(1, 7)):
            if r.objs and len(r.objs) < 5:
                r.op()
        for a in range(1, len(r.objs) + 1):
            r.obs(a)
        r.tr.append({"op": "input", "same": all((x == y).all() for x, y in r.inputs)})
        yield r.tr
    yield from sharelib.share(ctx, [sharelib.CamK, sharelib.LightK], ctx.n(80, 1200))
