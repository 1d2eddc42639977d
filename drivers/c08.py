import math, torch
from fractions import Fraction as F
from harness import enc, q, guard, attempt
from c06 import OCT
import pytorch3d.renderer.cameras as pc
from pytorch3d.renderer.camera_utils import camera_to_eye_at_up, rotate_on_spot, join_cameras_as_batch
from pytorch3d.utils import cameras_from_opencv_projection, opencv_from_cameras_projection, pulsar_from_opencv_projection, pulsar_from_cameras_projection
MODULE = "Cams"
ASSUMPTIONS = ["rational rotations (octahedral group and small integer quaternions), rational intrinsics, integer points; results to 3e-3 absolute or 2e-4 relative (pixels: 5e-4 of the image size)"]
CLS = {"fovp": pc.FoVPerspectiveCameras, "fovo": pc.FoVOrthographicCameras, "persp": pc.PerspectiveCameras, "ortho": pc.OrthographicCameras}
OLD = {"fovp": pc.OpenGLPerspectiveCameras, "fovo": pc.OpenGLOrthographicCameras, "persp": pc.SfMPerspectiveCameras, "ortho": pc.SfMOrthographicCameras}
fr = lambda x: [F(x).numerator, F(x).denominator]
fl = lambda r: r[0] / r[1]


def rot(rng):
    if rng.random() < 0.5:
        return {"n": rng.choice(OCT), "d": 1}
    while True:
        w, x, y, z = (rng.randint(-2, 2) for _ in range(4))
        n = w * w + x * x + y * y + z * z
        if 0 < n <= 9:
            break
    m = [[w * w + x * x - y * y - z * z, 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), w * w - x * x + y * y - z * z, 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), w * w - x * x - y * y + z * z]]
    return {"n": m, "d": n}


rmat = lambda Rs: torch.stack([torch.tensor(r["n"], dtype=torch.float64) / r["d"] for r in Rs]).float()
tmat = lambda Ts: torch.tensor([[fl(x) for x in t] for t in Ts])


class R:
    def __init__(self, ctx):
        self.ctx, self.rng, self.objs, self.info, self.tr, self.inputs = ctx, ctx.rng, [], [], [], []
        self.N = ctx.rng.choice([1, 2, 3])

    def keep(self, t):
        if torch.is_tensor(t):
            self.inputs.append((t, t.clone()))
        return t

    def cnt(self, n):
        return n if self.rng.random() < 0.6 else 1

    def exts(self, n):
        Rs = [rot(self.rng) for _ in range(n)]
        Ts = [[fr(F(self.rng.randint(-4, 4), 2)) for _ in range(2)] + [fr(F(self.rng.randint(-2, 8), 2))] for _ in range(n)]
        return Rs, Ts

    def col(self, vals):
        """per-camera scalars as an accepted argument"""
        rng, v = self.rng, [fl(x) for x in vals]
        if len(v) == 1 and rng.random() < 0.6:
            return rng.choice([v[0], [v[0]], torch.tensor(v[0])])
        if len(v) > 1 and rng.random() < 0.3:
            return rng.choice([list(v), tuple(v)])
        return self.keep(torch.tensor(v))

    def rows(self, vals):
        v = [[fl(x) for x in r] for r in vals]
        return self.rng.choice([tuple(map(tuple, v)), v, self.keep(torch.tensor(v))])

    def prm(self, kind, n, ndc=True, sz=None, override=False):
        """-> (n parameter records, kwargs)"""
        rng, one = self.rng, (lambda f: (lambda k: [f() for _ in range(k)])(n if override and n > 1 else self.cnt(n)))
        bc = lambda l, i: l[0] if len(l) == 1 else l[i]
        if kind in ("fovp", "fovo"):
            zn = one(lambda: fr(rng.choice([F(1, 2), F(1), F(3, 2)])))
            zf = one(lambda: fr(rng.choice([3, 5, 9, F(5, 2)])))
            kw = {"znear": self.col(zn), "zfar": self.col(zf)}
        if kind == "fovp":
            tan = one(lambda: fr(rng.choice([F(1, 2), F(1), F(3, 4), F(2), F(1, 3)])))
            asp = one(lambda: fr(rng.choice([F(1), F(1, 2), F(2), F(3, 2)])))
            deg = rng.random() < 0.6
            v = [2 * math.atan(fl(x)) * (180 / math.pi if deg else 1) for x in tan]
            kw.update(fov=v[0] if len(v) == 1 and rng.random() < 0.6 else torch.tensor(v), aspect_ratio=self.col(asp))
            if not deg or rng.random() < 0.5 or override:
                kw["degrees"] = deg
            P = [{"zn": bc(zn, i), "zf": bc(zf, i), "tan": bc(tan, i), "asp": bc(asp, i)} for i in range(n)]
        elif kind == "fovo":
            x0, x1, y0, y1 = (one(lambda: fr(s * rng.choice([F(1, 2), 1, 2, F(3, 2)]))) for s in (-1, 1, -1, 1))
            s = one(lambda: [fr(rng.choice([1, 2, F(1, 2)])) for _ in range(3)])
            kw.update(min_x=self.col(x0), max_x=self.col(x1), min_y=self.col(y0), max_y=self.col(y1), scale_xyz=self.rows(s))
            if override:
                kw["scale_xyz"] = torch.tensor([[fl(x) for x in r] for r in s])
            P = [{"zn": bc(zn, i), "zf": bc(zf, i), "x0": bc(x0, i), "x1": bc(x1, i), "y0": bc(y0, i), "y1": bc(y1, i), "s": bc(s, i)} for i in range(n)]
        else:
            m = (lambda: rng.choice([F(1), F(3, 2), F(2), F(1, 2)])) if ndc else (lambda: F(rng.choice([20, 30, 45])))
            form = rng.choice(["single", "single", "two"])
            f = one(lambda: (lambda a: [fr(a), fr(a)] if form == "single" else [fr(a), fr(m())])(m()))
            p = one(lambda: [fr(F(rng.randint(-3, 3), 4)), fr(F(rng.randint(-3, 3), 4))] if ndc else [fr(F(rng.randint(10, 40), 2)), fr(F(rng.randint(10, 40), 2))])
            kw = {"principal_point": self.rows(p)}
            if override:
                kw["principal_point"] = torch.tensor([[fl(x) for x in r] for r in p])
            if form == "two":
                kw["focal_length"] = self.rows(f)
            elif rng.random() < 0.3:
                kw["focal_length"] = torch.tensor([[fl(r[0])] for r in f])
            else:
                kw["focal_length"] = self.col([r[0] for r in f])
            P = [{"f": bc(f, i), "p": bc(p, i)} for i in range(n)]
        if override:
            for k, x in list(kw.items()):
                if isinstance(x, (list, tuple)):
                    kw[k] = torch.tensor(x)
        return P, kw

    def sizes(self, n):
        k = self.cnt(n)
        s = [[self.rng.choice([16, 20, 24, 40]), self.rng.choice([16, 20, 30, 40])] for _ in range(k)]
        form = self.rng.choice(["t", "l"])
        return s, (self.keep(torch.tensor(s)) if form == "t" else tuple(map(tuple, s)))

    def step(self, ev, fn, info):
        new = []
        def go(e):
            new.append(fn(e))
            e["res"] = "ok"
        guard(ev, go)
        self.tr.append(ev)
        if new:
            self.objs += new
            self.info.append(info)

    def new(self, kind=None, n=None, ndc=None, sized=None):
        rng, n = self.rng, n or self.N
        kind = kind or rng.choice(list(CLS))
        ndc = True if kind.startswith("fov") else (rng.random() < 0.5 if ndc is None else ndc)
        sized = (not ndc or (rng.random() < 0.6 if sized is None else sized)) and not kind.startswith("fov")
        prm, kw = self.prm(kind, n, ndc)
        nr = self.cnt(n)
        Rs, Ts = self.exts(n)
        if nr == 1:
            Rs, Ts = Rs[:1], Ts[:1]
        kw.update(R=self.keep(rmat(Rs)), T=self.keep(tmat(Ts)))
        sz, old = [], False
        if sized:
            sz, kw["image_size"] = self.sizes(n)
            if not ndc or rng.random() < 0.5:
                kw["in_ndc"] = ndc
        elif ndc and rng.random() < 0.2:
            old = True
        if not kind.startswith("fov") and not ndc:
            kw["in_ndc"] = False
        hasK = False
        if rng.random() < 0.15:
            # the same calibration as an explicit matrix
            hasK = True
            k = torch.zeros(n, 4, 4)
            for i, p in enumerate(prm):
                g = {a: fl(b) for a, b in p.items() if isinstance(b[0], int)}
                if kind == "fovp":
                    k[i] = torch.tensor([[1 / (g["tan"] * g["asp"]), 0, 0, 0], [0, 1 / g["tan"], 0, 0], [0, 0, g["zf"] / (g["zf"] - g["zn"]), -g["zf"] * g["zn"] / (g["zf"] - g["zn"])], [0, 0, 1, 0]])
                elif kind == "fovo":
                    sx = [fl(x) for x in p["s"]]
                    wx, wy, d = g["x1"] - g["x0"], g["y1"] - g["y0"], g["zf"] - g["zn"]
                    k[i] = torch.tensor([[2 * sx[0] / wx, 0, 0, -(g["x1"] + g["x0"]) / wx], [0, 2 * sx[1] / wy, 0, -(g["y1"] + g["y0"]) / wy], [0, 0, sx[2] / d, -g["zn"] / d], [0, 0, 0, 1]])
                else:
                    f, c = [fl(x) for x in p["f"]], [fl(x) for x in p["p"]]
                    k[i] = torch.tensor([[f[0], 0, c[0], 0], [0, f[1], c[1], 0], [0, 0, 0, 1], [0, 0, 1, 0]] if kind == "persp" else [[f[0], 0, 0, c[0]], [0, f[1], 0, c[1]], [0, 0, 1, 0], [0, 0, 0, 1]])
            kw = {a: b for a, b in kw.items() if a in ("R", "T", "image_size", "in_ndc")}
            kw["K"] = self.keep(k)
            old = False
        if old and kind == "fovo":
            kw = {{"min_x": "left", "max_x": "right", "min_y": "bottom", "max_y": "top"}.get(a, a): b for a, b in kw.items()}
        lens = {len(Rs), len(Ts), len(sz) or 1}
        for x in kw.values():
            if torch.is_tensor(x) and x.dim() > 0 or isinstance(x, (list, tuple)):
                lens.add(len(x))
        n = max(lens)
        cam = {"kind": kind, "n": n, "R": Rs, "T": Ts, "prm": prm[:n], "sz": sz, "ndc": ndc}
        self.step({"op": "new", "cam": cam}, lambda e: (OLD if old else CLS)[kind](**kw), {"kind": kind, "n": n, "ndc": ndc, "sized": sized, "K": hasK})

    def op(self):
        rng = self.rng
        i = rng.randrange(len(self.objs))
        c, inf, a = self.objs[i], self.info[i], i + 1
        n, k = inf["n"], rng.choice(["getitem", "getitem", "clone", "join"])
        if k == "clone":
            return self.step({"op": "clone", "a": a}, lambda e: c.clone(), inf)
        if k == "getitem":
            form = rng.choice(["int", "neg", "list", "long", "bool"])
            if form in ("int", "neg"):
                j = rng.randrange(n) - (n if form == "neg" else 0)
                idx, arg = [j], j
            elif form == "bool":
                m = [rng.random() < 0.6 for _ in range(n)]
                m[rng.randrange(n)] = True
                idx, arg = [j for j in range(n) if m[j]], torch.tensor(m)
            else:
                idx = [rng.randrange(-n, n) for _ in range(rng.randint(1, 3))]
                arg = list(idx) if form == "list" else torch.tensor(idx)
            return self.step({"op": "getitem", "a": a, "idx": idx}, lambda e: c[arg], {**inf, "n": len(idx)})
        js = [j for j in range(len(self.objs)) if all(self.info[j][x] == inf[x] for x in ("kind", "ndc", "sized", "K")) and getattr(self.objs[j], "degrees", 0) == getattr(c, "degrees", 0)]
        as_ = [i] + [rng.choice(js) for _ in range(rng.randint(0, 2))]
        if sum(self.info[j]["n"] for j in as_) > 5:
            return
        self.step({"op": "join", "as": [j + 1 for j in as_]}, lambda e: join_cameras_as_batch([self.objs[j] for j in as_]), {**inf, "n": sum(self.info[j]["n"] for j in as_)})

    def points(self, n, lo, hi, zlo=None, zhi=None):
        rng = self.rng
        dim2 = rng.random() < 0.5
        nb = 1 if dim2 or rng.random() < 0.3 else (n if n > 1 else rng.choice([1, 2]))
        k = rng.choice([1, 3])
        return dim2, [[[rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(lo if zlo is None else zlo, hi if zhi is None else zhi)] for _ in range(k)] for _ in range(nb)]

    def obs(self, a, acc):
        rng, c, inf = self.rng, self.objs[a - 1], self.info[a - 1]
        n, kind, ndc = inf["n"], inf["kind"], inf["ndc"]
        e = {"op": "obs", "a": a, "acc": acc, "R": [], "T": [], "kw": False, "prm": [], "sz": [], "eps": 0, "p": [], "dim2": False, "rdim": 0, "flip": True, "world": True, "fromndc": False, "has": False}
        kw = {}
        if acc in ("center", "world_to_view", "full", "points", "points_ndc", "points_screen", "unproject") and rng.random() < 0.25:
            Rs, Ts = self.exts(n)
            if rng.random() < 0.7:
                e["R"] = Rs
                kw["R"] = rmat(Rs)
            if rng.random() < 0.7:
                e["T"] = Ts
                kw["T"] = tmat(Ts)
        if acc in ("projection", "full", "points", "points_ndc", "points_screen", "unproject", "pp") and not inf["K"] and rng.random() < 0.3:
            e["prm"], k2 = self.prm(kind, n, ndc, override=True)
            e["kw"] = True
            kw.update(k2)
        needsz = not inf["sized"] if acc == "points_screen" else False
        if acc in ("points_ndc", "points_screen", "unproject") and (needsz or (not kind.startswith("fov") and rng.random() < 0.3)):
            e["sz"], s = self.sizes(n)
            kw["image_size"] = torch.tensor(e["sz"]) if not torch.is_tensor(s) else s
        if acc in ("points", "points_ndc", "points_screen"):
            e["dim2"], e["p"] = self.points(n, -3, 3)
            e["eps"] = rng.choice([0, 0, 1, 4, 8])
            if acc == "points_screen":
                e["flip"] = rng.random() < 0.7
                if not e["flip"]:
                    kw["with_xyflip"] = False
        elif acc == "unproject_scaled":
            e["dim2"], e["p"] = self.points(n, -3, 3)
        elif acc == "unproject":
            e["dim2"], e["p"] = self.points(n, -8, 8, 2, 40) if ndc else self.points(n, -40, 200, 2, 40)
            e["world"] = "R" in kw or "T" in kw or rng.random() < 0.6
            if not kind.startswith("fov"):
                e["fromndc"] = rng.random() < 0.5
                if not ndc and e["fromndc"]:
                    e["dim2"], e["p"] = self.points(n, -8, 8, 2, 40)
        def go(e):
            if acc == "len":
                e["o"] = len(c)
            elif acc == "center":
                e["o"] = q(c.get_camera_center(**kw), 1000)
            elif acc == "world_to_view":
                e["o"] = q(c.get_world_to_view_transform(**kw).get_matrix(), 1000)
            elif acc == "projection":
                m = c.get_projection_transform(**kw).get_matrix()
                e["o"] = q(m, 1000)
            elif acc == "full":
                e["o"] = q(c.get_full_projection_transform(**kw).get_matrix(), 1000)
            elif acc in ("points", "points_ndc", "points_screen"):
                P = torch.tensor(e["p"], dtype=torch.float32)
                # the homogeneous coordinate must not vanish unless eps guards it
                v = torch.cat([P, torch.ones_like(P[..., :1])], -1)
                r_, t_ = kw.get("R", c.R), kw.get("T", c.T)
                w = (P.expand(max(n, len(P)), -1, -1) @ r_[..., 2:3] + t_[:, None, 2:3]) if kind in ("fovp", "persp") else torch.ones(1)
                if w.abs().min() < 0.05 and ((r_ - r_.round()).abs().max() > 0):
                    e.update(acc="len", R=[], T=[], o=n)  # the sign of a vanishing coordinate would be rounding noise
                    return
                if w.abs().min() < 0.05:
                    e["eps"] = 4
                if e["eps"]:
                    kw["eps"] = e["eps"] / 8
                fn = {"points": c.transform_points, "points_ndc": c.transform_points_ndc, "points_screen": c.transform_points_screen}[acc]
                r = fn(P[0] if e["dim2"] else P, **kw)
                e["rdim"] = r.dim()
                e["o"] = q(r if r.dim() == 3 else r[None], 1000)
            elif acc == "unproject_scaled":
                P = torch.tensor(e["p"], dtype=torch.float32)
                x = P[0] if e["dim2"] else P
                view = c.get_world_to_view_transform().transform_points(x)
                if kind in ("fovp", "persp") and view[..., 2].abs().min() < 0.2:
                    e["acc"], e["o"] = "len", n
                    return
                if kind in ("persp", "ortho") and view[..., 2].abs().min() < 0.05:
                    e["acc"], e["o"] = "len", n
                    return
                k3 = {}
                if kind.startswith("fov") and rng.random() < 0.6:
                    y = c.transform_points(x)
                    k3["scaled_depth_input"] = True
                elif not kind.startswith("fov") and rng.random() < 0.5:
                    y = torch.cat([c.transform_points_ndc(x)[..., :2], view[..., 2:3]], -1)
                    k3["from_ndc"] = True
                else:
                    y = torch.cat([c.transform_points(x)[..., :2], view[..., 2:3]], -1)
                r = c.unproject_points(y, **k3)
                e["rdim"] = r.dim()
                e["o"] = q(r if r.dim() == 3 else r[None], 1000)
            elif acc == "unproject":
                P = torch.tensor(e["p"], dtype=torch.float32) / 8
                k3 = dict(kw)
                if not e["world"]:
                    k3["world_coordinates"] = False
                if e["fromndc"]:
                    k3["from_ndc"] = True
                r = c.unproject_points(P[0] if e["dim2"] else P, **k3)
                e["rdim"] = r.dim()
                e["o"] = q(r if r.dim() == 3 else r[None], 1000)
            elif acc == "flags":
                e["o"] = {"persp": c.is_perspective(), "ndc": c.in_ndc()}
            elif acc == "pp":
                e["o"] = q(c.get_principal_point(**kw), 1000)
            elif acc == "znear":
                e["o"] = q(c.get_znear(), 1000)
            elif acc == "image_size":
                s = c.get_image_size()
                e["has"] = s is not None
                e["o"] = enc(s) if s is not None else []
        self.tr.append(guard(e, go))

    def observe(self, a):
        inf = self.info[a - 1]
        accs = ["len", "center", "world_to_view", "projection", "full", "points", "points", "unproject", "unproject", "unproject_scaled", "flags", "image_size"]
        if inf["kind"].startswith("fov"):
            accs += ["points_ndc", "points_screen"] + (["znear"] if not inf["K"] else [])
        else:
            accs += ["pp", "points_ndc", "points_screen"]
        self.rng.shuffle(accs)
        for x in accs[:9]:
            self.obs(a, x)

    def eye_at_up(self, a):
        c, rng, n = self.objs[a - 1], self.rng, self.info[a - 1]["n"]
        def go(e):
            eye, at, up = camera_to_eye_at_up(c.get_world_to_view_transform())
            e["o"] = {"eye": q(eye, 1000), "at": q(at, 1000), "up": q(up, 1000)}
        self.tr.append(guard({"op": "eye_at_up", "a": a}, go))
        m = n if n > 1 and rng.random() < 0.6 else rng.choice([1, 2]) if n == 1 else 1
        rs = [rot(rng) for _ in range(m)]
        def go(e):
            Rm = rmat(rs)
            x = (c.R[0], c.T[0]) if n == 1 and rng.random() < 0.5 else (c.R, c.T)
            r, t = rotate_on_spot(*x, Rm[0] if m == 1 and rng.random() < 0.5 else Rm)
            e["o"] = {"R": q(r, 1000), "T": q(t, 1000)}
        self.tr.append(guard({"op": "on_spot", "a": a, "rot": rs}, go))


def look(ctx, tr):
    rng = ctx.rng
    n = rng.choice([1, 2, 3])
    vec = lambda lo, hi: [rng.randint(lo, hi) for _ in range(3)]
    k = [rng.choice([1, n]) for _ in range(3)]
    eye, at, up = [[vec(-5, 5) for _ in range(j)] for j in k]
    if rng.random() < 0.3:
        at = [[0, 0, 0]]
    if rng.random() < 0.4:
        up = [[0, 1, 0]]
    if rng.random() < 0.25:  # straight up or down, or along the up vector
        i = rng.randrange(len(eye))
        u, t = up[i % len(up)], at[i % len(at)]
        s = rng.choice([-2, -1, 1, 2])
        eye[i] = [t[j] + s * u[j] for j in range(3)]
    n = max(map(len, (eye, at, up)))
    bc = lambda l, i: l[0] if len(l) == 1 else l[i]
    if any(bc(eye, i) == bc(at, i) or not any(bc(up, i)) for i in range(n)):
        return
    arg = lambda l: l[0] if False else rng.choice([tuple(map(tuple, l)), torch.tensor(l).float(), torch.tensor(l).float()])
    def call():
        kw = {}
        if at != [[0, 0, 0]] or rng.random() < 0.5:
            kw["at"] = arg(at)
        if up != [[0, 1, 0]] or rng.random() < 0.5:
            kw["up"] = arg(up)
        if rng.random() < 0.4:
            return pc.look_at_rotation(arg(eye), **kw), None
        return pc.look_at_view_transform(eye=arg(eye), **kw)
    ok, v = attempt(call)
    for i in range(n):
        e = {"op": "look_at", "eye": bc(eye, i), "at": bc(at, i), "up": bc(up, i), "hasT": ok and v[1] is not None}
        if not ok:
            e["exc"] = v
        else:
            assert_len = len(v[0]) == n
            e["o"] = {"R": q(v[0][i], 10000) if assert_len else 1999999999, "T": q(v[1][i], 10000) if v[1] is not None else []}
        tr.append(e)


def sph(ctx, tr):
    rng = ctx.rng
    n = rng.choice([1, 2, 3])
    k = [rng.choice([1, n]) for _ in range(4)]
    dist = [rng.randint(1, 6) for _ in range(k[0])]
    el = [rng.randint(-15000, 15000) for _ in range(k[1])]
    az = [rng.randint(-40000, 40000) for _ in range(k[2])]
    at = [[rng.randint(-3, 3) for _ in range(3)] for _ in range(k[3])]
    deg = rng.random() < 0.5
    direct = rng.random() < 0.4
    if direct:
        at = [[0, 0, 0]]
    n = max(map(len, (dist, el, az, at)))
    ang = lambda l: [x / 1e4 * (180 / math.pi if deg else 1) for x in l]
    arg = lambda l: (rng.choice([l[0], torch.tensor(l[0]), torch.tensor(l)]) if len(l) == 1 else torch.tensor(l))
    bc = lambda l, i: l[0] if len(l) == 1 else l[i]
    def call():
        kw = {} if deg and rng.random() < 0.5 else {"degrees": deg}
        d, e_, a_ = arg([float(x) for x in dist]), arg(ang(el)), arg(ang(az))
        if direct:
            return pc.camera_position_from_spherical_angles(d, e_, a_, **kw)
        if at != [[0, 0, 0]] or rng.random() < 0.5:
            kw["at"] = torch.tensor(at).float()
        Rm, Tm = pc.look_at_view_transform(d, e_, a_, **kw)
        return -(Rm @ Tm[:, :, None])[:, :, 0]
    ok, v = attempt(call)
    for i in range(n):
        e = {"op": "spherical", "dist": bc(dist, i), "elev": bc(el, i), "azim": bc(az, i), "at": bc(at, i)}
        if ok:
            e["o"] = q(v[i], 10000) if len(v) == n else 1999999999
        else:
            e["exc"] = v
        tr.append(e)


def opencv(ctx, tr):
    rng = ctx.rng
    n = rng.choice([1, 2, 3])
    Rs = [rot(rng) for _ in range(n)]
    t = [[rng.randint(-3, 3), rng.randint(-3, 3), rng.randint(6, 14)] for _ in range(n)]
    f = [[rng.choice([40, 50, 60]), rng.choice([40, 50, 60])] for _ in range(n)]
    if rng.random() < 0.4:
        f = [[x[0], x[0]] for x in f]
    c = [[rng.randint(10, 40), rng.randint(10, 40)] for _ in range(n)]
    sz = [[rng.choice([32, 48, 64]), rng.choice([32, 48, 64])]] * n
    p = [[rng.randint(-2, 2) for _ in range(3)] for _ in range(4)]
    e = {"op": "opencv", "R": Rs, "t": t, "f": f, "c": c, "sz": sz, "p": p}
    def go(e):
        Rm, T, S = rmat(Rs), torch.tensor(t).float(), torch.tensor(sz)
        K = torch.tensor([[[f[i][0], 0, c[i][0]], [0, f[i][1], c[i][1]], [0, 0, 1.0]] for i in range(n)])
        ins = [Rm, T, K, S]
        cp = [x.clone() for x in ins]
        cams = cameras_from_opencv_projection(Rm, T, K, S)
        px = cams.transform_points_screen(torch.tensor(p).float()[None].expand(n, -1, -1))[..., :2]
        R2, T2, K2 = opencv_from_cameras_projection(cams, S)
        w1, w2 = pulsar_from_opencv_projection(Rm, T, K, S), pulsar_from_cameras_projection(cams, S)
        assert torch.allclose(w1, w2, atol=2e-3, rtol=2e-3), "the two pulsar conversions differ"
        e["o"] = {"px": q(px, 1000), "R": q(R2, 1000), "t": q(T2, 1000), "K": q(K2, 1000), "pulsar": q(w1, 1000), "sw": q(w1[:, 10] / w1[:, 9], 1000), "same": all(torch.equal(a, b) for a, b in zip(ins, cp))}
    tr.append(guard(e, go))


def rejects(tr):
    C2 = pc.FoVPerspectiveCameras(R=torch.eye(3).repeat(2, 1, 1), T=torch.zeros(2, 3))
    P2 = pc.PerspectiveCameras(R=torch.eye(3).repeat(2, 1, 1), T=torch.zeros(2, 3))
    z = torch.zeros
    c = {
        "index out of range": lambda: C2[2],
        "negative index out of range": lambda: C2[-3],
        "slice index": lambda: C2[0:1],
        "index of booleans in a list": lambda: C2[[True, False]],
        "boolean index of the wrong length": lambda: C2[torch.tensor([True])],
        "batch sizes 2 and 3": lambda: pc.PerspectiveCameras(R=z(2, 3, 3), T=z(3, 3)),
        "image size": lambda: pc.PerspectiveCameras(image_size=((0, 3),)),
        "calibration matrix shape": lambda: pc.PerspectiveCameras(K=z(1, 3, 3)).get_projection_transform(),
        "join of different kinds": lambda: join_cameras_as_batch([C2, P2]),
        "join of different fields": lambda: join_cameras_as_batch([pc.PerspectiveCameras(image_size=((4, 4),)), P2]),
        "join of ndc and screen cameras": lambda: join_cameras_as_batch([pc.PerspectiveCameras(in_ndc=False), P2]),
        "join of degrees and radians": lambda: join_cameras_as_batch([pc.FoVPerspectiveCameras(degrees=False), C2]),
        "rotation shape in rotate_on_spot": lambda: rotate_on_spot(torch.eye(3), z(3), z(1, 2, 2)),
        "translation shape in rotate_on_spot": lambda: rotate_on_spot(torch.eye(3), z(1, 4), torch.eye(3)),
        "eye of two coordinates": lambda: pc.look_at_rotation(((1.0, 2.0),), ((0.0, 0.0),), ((0.0, 1.0),)),
        "world to view batch mismatch": lambda: pc.get_world_to_view_transform(z(2, 3, 3), z(3, 3)),
        "ndc to screen transform without image size": lambda: pc.cameras.get_ndc_to_screen_transform(C2, image_size=None),
        "screen transform without image size": lambda: pc.FoVPerspectiveCameras().transform_points_screen(z(1, 3)),
    }
    for k, f in c.items():
        tr.append({"op": "rejects", "what": k, "rejected": not attempt(f)[0]})


def traces(ctx):
    tr = []
    rejects(tr)
    yield tr
    for _ in range(ctx.n(40, 1500)):
        tr = []
        look(ctx, tr)
        sph(ctx, tr)
        opencv(ctx, tr)
        yield tr
    for _ in range(ctx.n(150, 5000)):
        r = R(ctx)
        for _ in range(ctx.rng.randint(1, 2)):
            r.new()
        if len(r.objs) == 1 and ctx.rng.random() < 0.5:
            i = r.info[0]
            r.new(i["kind"], None, i["ndc"], i["sized"])
        for _ in range(ctx.rng.randint(0, 4)):
            if r.objs and len(r.objs) < 6:
                r.op()
        order = list(range(1, len(r.objs) + 1))
        ctx.rng.shuffle(order)
        for a in order[:4]:
            r.observe(a)
            if ctx.rng.random() < 0.4:
                r.eye_at_up(a)
        r.tr.append({"op": "input", "same": all(torch.equal(x, y) for x, y in r.inputs)})
        yield r.tr
