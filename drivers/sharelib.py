"""Random histories of derivations for Share.tla: where gradients flow and which objects are copies."""
import torch
from harness import guard
from pytorch3d.structures import Meshes, Pointclouds, Volumes, join_meshes_as_batch, join_pointclouds_as_batch
from pytorch3d.renderer import TexturesVertex, TexturesUV, TexturesAtlas, PerspectiveCameras, FoVPerspectiveCameras, PointLights, DirectionalLights, Materials
from pytorch3d.transforms import Transform3d, Translate, Scale

CPU = torch.device("cpu")


def leaf(ctx, *shape):
    return torch.tensor(ctx.np.rand(*shape), dtype=torch.float32).add_(0.1).requires_grad_()


class Kind:
    acts = ()

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.inputs = {}

    def leaves(self, name, shapes):
        r = [leaf(self.ctx, *s) for s in shapes]
        self.inputs[name] = r
        return r

    def clone(self, x):
        return x.clone()

    def detach(self, x):
        return x.detach()

    def to(self, x):
        return x.to(self.rng.choice([CPU, "cpu"]))

    def to_copy(self, x):
        return x.to(CPU, copy=True)

    def length(self, x):
        return len(x)


class MeshK(Kind):
    acts = ("clone", "detach", "to", "to_copy", "offset", "scale", "extend", "getitem", "join", "submeshes")

    def make(self):
        rng = self.rng
        n = rng.randint(1, 3)
        same = rng.random() < 0.4
        V = [3 if same else rng.randint(3, 5) for _ in range(n)]
        v = self.leaves("verts", [(k, 3) for k in V])
        F = [1 if same else rng.randint(1, 2) for _ in V]
        f = [torch.tensor([rng.sample(range(k), 3) for _ in range(m)]) for k, m in zip(V, F)]
        self.tex = rng.choice([None, "vertex", "uv", "atlas"])
        t = None
        if self.tex == "vertex":
            t = TexturesVertex(self.leaves("tex", [(k, 2) for k in V]))
        elif self.tex == "uv":
            t = TexturesUV(maps=self.leaves("tex", [(2, 2, 3)] * n), faces_uvs=f, verts_uvs=self.leaves("uvs", [(k, 2) for k in V]))
        elif self.tex == "atlas":
            t = TexturesAtlas(self.leaves("tex", [(m, 2, 2, 3) for m in F]))
        self.touched = []
        if same and rng.random() < 0.6:
            return Meshes(torch.stack(v), torch.stack(f), t), n
        return Meshes(v, f, t), n

    def offset(self, x):
        return x.offset_verts(torch.rand(x.verts_packed().shape) if self.rng.random() < 0.7 else torch.rand(3))

    def scale(self, x):
        return x.scale_verts(1.5 if self.rng.random() < 0.5 else torch.rand(len(x)) + 1)

    def extend(self, x, n):
        return x.extend(n)

    def join(self, x, y):
        return join_meshes_as_batch([x, y])

    def submeshes(self, x):
        return x.submeshes([[torch.arange(k)] for k in x.num_faces_per_mesh().tolist()])

    def tensors(self, x):
        r = {"verts_packed": (x.verts_packed(), "verts"), "verts_padded": (x.verts_padded(), "verts"), "faces_areas": (x.faces_areas_packed(), "verts"),
             "faces_normals": (x.faces_normals_packed(), "verts"), "verts_normals": (x.verts_normals_packed(), "verts"),
             "verts_list": (torch.cat(x.verts_list()), "verts")}
        if self.tex and x.textures is not None:
            t = x.textures
            if self.tex == "vertex":
                r["tex_list"] = torch.cat(t.verts_features_list()), "tex"
                r["tex_padded"] = t.verts_features_padded(), "tex"
                r["tex_packed"] = t.verts_features_packed(), "tex"
            elif self.tex == "uv":
                r["maps_padded"] = t.maps_padded(), "tex"
                r["maps_list"] = torch.cat(t.maps_list()), "tex"
                r["uvs_padded"] = t.verts_uvs_padded(), "uvs"
                r["uvs_list"] = torch.cat(t.verts_uvs_list()), "uvs"
            else:
                r["atlas_padded"] = t.atlas_padded(), "tex"
                r["atlas_packed"] = t.atlas_packed(), "tex"
                r["atlas_list"] = torch.cat(t.atlas_list()), "tex"
            if self.tex != "vertex":
                pass
        return r

    def stores(self, x):
        r = [*x.verts_list(), *x.faces_list(), x.verts_packed(), x.faces_packed(), x.verts_padded(), x.faces_padded(), x.faces_areas_packed(),
             x.verts_normals_packed(), x.faces_normals_packed(), x.edges_packed(), x.num_verts_per_mesh(), x.num_faces_per_mesh(),
             x.mesh_to_verts_packed_first_idx(), x.mesh_to_faces_packed_first_idx(), x.verts_packed_to_mesh_idx(), x.faces_packed_to_mesh_idx(),
             x.faces_packed_to_edges_packed(), x.edges_packed_to_mesh_idx(), x.mesh_to_edges_packed_first_idx(), x.num_edges_per_mesh(), x.verts_padded_to_packed_idx()]
        if self.tex and x.textures is not None:
            t = x.textures
            r += {"vertex": lambda: [*t.verts_features_list(), t.verts_features_padded(), t.verts_features_packed()],
                  "uv": lambda: [t.maps_padded(), *t.maps_list(), *t.verts_uvs_list(), t.verts_uvs_padded(), *t.faces_uvs_list(), t.faces_uvs_padded()],
                  "atlas": lambda: [*t.atlas_list(), t.atlas_padded(), t.atlas_packed()]}[self.tex]()
        return r


class CloudK(Kind):
    acts = ("clone", "detach", "to", "to_copy", "offset", "scale", "extend", "getitem", "join", "subsample")

    def make(self):
        rng = self.rng
        n = rng.randint(1, 3)
        same = rng.random() < 0.4
        P = [2 if same else rng.randint(1, 4) for _ in range(n)]
        pad = same and rng.random() < 0.6
        mk = (lambda l: torch.stack(l)) if pad else (lambda l: l)
        p = mk(self.leaves("points", [(k, 3) for k in P]))
        nr = mk(self.leaves("normals", [(k, 3) for k in P])) if rng.random() < 0.6 else None
        ft = mk(self.leaves("features", [(k, 2) for k in P])) if rng.random() < 0.6 else None
        return Pointclouds(p, nr, ft), n

    def offset(self, x):
        return x.offset(torch.rand(x.points_packed().shape) if self.rng.random() < 0.7 else torch.rand(3))

    def scale(self, x):
        return x.scale(1.5 if self.rng.random() < 0.5 else torch.rand(len(x)) + 1)

    def extend(self, x, n):
        return x.extend(n)

    def join(self, x, y):
        return join_pointclouds_as_batch([x, y])

    def subsample(self, x):
        return x.subsample(self.rng.choice([1, 2, 9]))

    def tensors(self, x):
        r = {}
        for k in ("points", "normals", "features"):
            if k in self.inputs:
                r[k + "_list"] = torch.cat(getattr(x, k + "_list")()), k
                r[k + "_packed"] = getattr(x, k + "_packed")(), k
                r[k + "_padded"] = getattr(x, k + "_padded")(), k
        return r

    def stores(self, x):
        r = [x.num_points_per_cloud(), x.cloud_to_packed_first_idx(), x.packed_to_cloud_idx(), x.padded_to_packed_idx()]
        for k in ("points", "normals", "features"):
            if k in self.inputs:
                r += [*getattr(x, k + "_list")(), getattr(x, k + "_packed")(), getattr(x, k + "_padded")()]
        return r


class VolK(Kind):
    acts = ("clone", "to", "to_copy", "getitem")

    def make(self):
        rng = self.rng
        n = rng.randint(1, 3)
        sz = [tuple(rng.randint(1, 3) for _ in range(3))] * n if rng.random() < 0.5 else [tuple(rng.randint(1, 3) for _ in range(3)) for _ in range(n)]
        d = self.leaves("densities", [(1, *z) for z in sz])
        f = self.leaves("features", [(2, *z) for z in sz]) if rng.random() < 0.7 else None
        vt = torch.stack(self.leaves("translation", [(3,)] * n))
        if len(set(sz)) == 1 and rng.random() < 0.5:
            d, f = torch.stack(d), None if f is None else torch.stack(f)
        return Volumes(densities=d, features=f, volume_translation=vt, voxel_size=0.5), n

    def tensors(self, x):
        r = {"densities": (x.densities(), "densities"), "to_world": (x.get_local_to_world_coords_transform().get_matrix(), "translation"),
             "grid": (x.get_coord_grid(), "translation")}
        if "features" in self.inputs:
            r["features"] = x.features(), "features"
        return r

    def stores(self, x):
        return [x.densities(), x.get_local_to_world_coords_transform().get_matrix(), x.get_grid_sizes()] + ([x.features()] if "features" in self.inputs else [])


class TransK(Kind):
    acts = ("clone", "to", "to_copy", "getitem", "join", "inverse")

    def make(self):
        n = self.rng.randint(1, 3)
        t = Translate(torch.stack(self.leaves("t", [(3,)] * n)))
        if self.rng.random() < 0.6:
            t = t.compose(Scale(torch.stack(self.leaves("s", [(3,)] * n))))
        elif self.rng.random() < 0.5:
            t = t.compose(Translate(1.0, 2.0, 3.0).cpu())
        return t, n

    def join(self, x, y):
        return x.stack(y)

    def inverse(self, x):
        return x.inverse()

    def tensors(self, x):
        return {"matrix " + k: (x.get_matrix(), k) for k in self.inputs}

    def stores(self, x):
        r = [t for t in vars(x).values() if torch.is_tensor(t)]
        for l in vars(x).values():
            for t in l if isinstance(l, list) else []:
                r += self.stores(t) if isinstance(t, Transform3d) else [t] if torch.is_tensor(t) else []
        return r + [x.get_matrix()]


class CamK(Kind):
    acts = ("clone", "to", "getitem")

    def make(self):
        n = self.rng.randint(1, 3)
        T = torch.stack(self.leaves("T", [(3,)] * n))
        R = torch.eye(3)[None].repeat(n, 1, 1)
        self.fov = self.rng.random() < 0.5
        if self.fov:
            return FoVPerspectiveCameras(R=R, T=T, fov=torch.cat(self.leaves("fov", [(1,)] * n)), degrees=False, aspect_ratio=torch.ones(n) * 2), n
        return PerspectiveCameras(R=R, T=T, focal_length=torch.stack(self.leaves("focal_length", [(2,)] * n)),
                                  principal_point=torch.stack(self.leaves("principal_point", [(2,)] * n)), image_size=torch.ones(n, 2) * 4), n

    def tensors(self, x):
        r = {k: (getattr(x, k), k) for k in self.inputs}
        r["projection"] = x.get_full_projection_transform().get_matrix(), "T"
        r["centre"] = x.get_camera_center(), "T"
        return r

    def stores(self, x):
        return [x.R, x.T] + ([x.fov, x.aspect_ratio, x.znear, x.zfar] if self.fov else [x.focal_length, x.principal_point, x.image_size])


class LightK(Kind):
    acts = ("clone", "to")

    def make(self):
        n = self.rng.randint(1, 3)
        self.kind = self.rng.choice([PointLights, DirectionalLights, Materials])
        names = ["ambient_color", "diffuse_color", "specular_color"]
        names = [k for k in names if self.rng.random() < 0.6] or names[:1]
        if self.kind is not Materials:
            names.append("location" if self.kind is PointLights else "direction")
        return self.kind(**{k: torch.stack(self.leaves(k, [(3,)] * n)) for k in names}), n

    def clone(self, x):
        return x.clone()

    def tensors(self, x):
        return {k: (getattr(x, k), k) for k in self.inputs}

    def stores(self, x):
        return [x.ambient_color, x.diffuse_color, x.specular_color] + ([x.location] if self.kind is PointLights else [x.direction] if self.kind is DirectionalLights else [])


def history(ctx, kind):
    rng = ctx.rng
    K = kind(ctx, rng)
    root, n = K.make()
    tr, objs, size = [{"op": "new", "n": n, "kind": kind.__name__}], [root], [n]
    if rng.random() < 0.5:
        with torch.no_grad() if rng.random() < 0.0 else torch.enable_grad():
            K.tensors(root)      # fill the caches before deriving
    for _ in range(rng.randint(1, 3)):
        a = rng.randrange(len(objs)) if rng.random() < 0.4 else len(objs) - 1
        act = rng.choice(K.acts)
        e = {"op": "derive", "act": act, "a": a + 1}
        args = []
        m = size[a]
        if act == "extend":
            e["n"] = rng.randint(1, 3)
            args = [e["n"]]
            m *= e["n"]
        elif act == "getitem":
            form = rng.choice(["int", "list", "list" if isinstance(K, CamK) else "slice"])
            if form == "int":
                e["idx"] = [rng.randrange(m)]
                args = [e["idx"][0]]
            elif form == "list":
                e["idx"] = [rng.randrange(m) for _ in range(rng.randint(1, 3))]
                args = [e["idx"]]
            else:
                lo = rng.randrange(m)
                args = [slice(lo, None)]
                e["idx"] = list(range(lo, m))
            m = len(e["idx"])
        elif act == "join":
            b = rng.randrange(len(objs))
            e["b"] = b + 1
            m += size[b]
            args = [objs[b]]
        if m > 8:
            continue
        out = []

        def go(e):
            x = objs[a]
            if act == "getitem":
                out.append(x[args[0]])
            else:
                out.append(getattr(K, act)(x, *args))
            if K.length(out[0]) != m and not isinstance(K, LightK):
                raise AssertionError("length of the result")
        tr.append(guard(e, go))
        if "exc" in e:
            return tr
        objs.append(out[0])
        size.append(m)
        if rng.random() < 0.5:
            guard_obs(K, objs, len(objs) - 1, tr, ctx)
    last = len(objs) - 1
    guard_obs(K, objs, last, tr, ctx)

    def go(e):
        own = [t for l in K.inputs.values() for t in l] + K.stores(root)
        snap = [t.detach().clone() for t in own]
        for t in K.stores(objs[last]):
            try:
                t.data.fill_(7)
            except RuntimeError:      # expanded tensors cannot be written
                pass
        e["changed"] = any(not torch.equal(x.detach(), y) for x, y in zip(own, snap)) or any(
            not torch.equal(x.detach(), y) for x, y in zip(K.stores(root), snap[-len(K.stores(root)):]))
    tr.append(guard({"op": "write", "a": last + 1}, go))
    return tr


def guard_obs(K, objs, i, tr, ctx):
    for nm, (t, src) in K.tensors(objs[i]).items():
        if ctx.rng.random() < 0.5:
            continue

        def go(e):
            reach = []
            ls = K.inputs[src]
            if t.requires_grad:
                w = torch.tensor(ctx.np.rand(*t.shape), dtype=t.dtype)
                g = torch.autograd.grad((t * w).sum(), ls, allow_unused=True, retain_graph=True)
                reach = [k + 1 for k, x in enumerate(g) if x is not None and bool((x != 0).any())]
            e.update(reach=reach, req=bool(t.requires_grad))
        tr.append(guard({"op": "obs", "a": i + 1, "attr": nm}, go))


def share(ctx, kinds, n):
    for k in range(n):
        yield "Share", history(ctx, kinds[k % len(kinds)])
