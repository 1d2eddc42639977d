import io, json, os, shutil, struct, tempfile, warnings
import numpy as np
import torch
from iopath.common.file_io import PathHandler, PathManager
from PIL import Image
from harness import enc, q, guard, attempt
from pytorch3d.io import IO, load_obj, load_objs_as_meshes, load_ply, save_obj, save_ply
from pytorch3d.io.experimental_gltf_io import MeshGlbFormat, load_meshes
from pytorch3d.io.pluggable_formats import MeshFormatInterpreter
from pytorch3d.renderer import TexturesAtlas, TexturesUV, TexturesVertex
from pytorch3d.structures import Meshes, Pointclouds
MODULE = "Io"
ASSUMPTIONS = ["coordinates are multiples of 1/8; OFF colours follow the documented guess by the first line; texture wrap only of faces shifted as a whole; GLB files of non-empty meshes"]
warnings.filterwarnings("ignore")


class Remote(PathHandler):
    """Paths vp://x are files of one scratch folder."""

    def __init__(self, root):
        self.root = root

    def _get_supported_prefixes(self):
        return ["vp://"]

    def _p(self, path):
        return os.path.join(self.root, path[len("vp://"):].lstrip("/"))

    def _open(self, path, mode="r", buffering=-1, **kw):
        return open(self._p(path), mode)

    def _exists(self, path, **kw):
        return os.path.exists(self._p(path))


def eighths(rng, n, c, lo=-64, hi=64):
    return [[rng.randint(lo, hi) / 8 for _ in range(c)] for _ in range(n)]


def record(rng, fmt):
    """The data to save and its abstract record."""
    V = rng.choice([0, 1, 3, 4, 5]) if fmt != "glb" else rng.randint(3, 5)
    F = 0 if V == 0 else rng.choice([0, 1, 2, 3]) if fmt != "glb" else rng.randint(1, 3)
    if fmt == "pcl":
        F = 0
    v = eighths(rng, V, 3)
    f = [[rng.randrange(V) for _ in range(3)] for _ in range(F)]
    kinds = {"obj": ["none", "uv", "uv", "vert", "atlas"], "off": ["none", "vert", "vert", "atlas", "atlas", "uv"], "ply": ["none", "vert", "vert", "uv", "atlas"], "glb": ["none", "vert", "uv", "uv"], "pcl": ["none", "vert"]}[fmt]
    kind = rng.choice(kinds) if fmt != "pcl" or V else "none"
    col, uv, fuv, mp = [], [], [], []
    if kind == "vert":
        w = {"off": [3, 4], "glb": [3, 3, 4], "ply": [3, 3, 3, 2, 4]}.get(fmt, [3])
        col = eighths(rng, V, rng.choice(w), 0, 8)
    elif kind == "atlas":
        col = eighths(rng, F, 3, 0, 8)
    elif kind == "uv":
        U = rng.randint(3, 6)
        if rng.random() < 0.4 and V >= 3:
            U = V
        uv = eighths(rng, U, 2, 0, 8)
        fuv = [list(x) for x in f] if U == V and rng.random() < 0.7 else [[rng.randrange(U) for _ in range(3)] for _ in range(F)]
        mp = [[[rng.randrange(256) for _ in range(3)] for _ in range(rng.choice([1, 2, 3]))] for _ in range(1)]
        w = len(mp[0])
        mp = [[[rng.randrange(256) for _ in range(3)] for _ in range(w)] for _ in range(rng.choice([1, 2, 3]))]
    hasn = fmt in ("ply", "pcl", "off") and rng.random() < 0.4
    n = eighths(rng, V, 3) if hasn else []
    return dict(v=v, f=f, kind=kind, col=col, uv=uv, fuv=fuv, map=mp, hasn=hasn and (fmt != "pcl" or V > 0) and V > 0, n=n)


def t2(x, c, dtype=torch.float32):
    return torch.tensor(x, dtype=dtype).reshape(-1, c)


def build(m, fmt, grad=False):
    v = t2(m["v"], 3).requires_grad_(grad)
    if fmt == "pcl":
        return Pointclouds([v], normals=[t2(m["n"], 3)] if m["hasn"] else None, features=[t2(m["col"], 3)] if m["kind"] == "vert" else None)
    f = t2(m["f"], 3, torch.int64)
    tx = None
    if m["kind"] == "vert":
        tx = TexturesVertex([t2(m["col"], len(m["col"][0]) if m["col"] else 3).requires_grad_(grad)])
    elif m["kind"] == "atlas":
        tx = TexturesAtlas([t2(m["col"], 3).reshape(-1, 1, 1, 3).requires_grad_(grad)])
    elif m["kind"] == "uv":
        tx = TexturesUV(maps=torch.tensor(m["map"]).float()[None] / 255, faces_uvs=[t2(m["fuv"], 3, torch.int64)], verts_uvs=[t2(m["uv"], 2).requires_grad_(grad)])
    return Meshes([v], [f], tx, verts_normals=[t2(m["n"], 3)] if m["hasn"] else None)


def abst(m):
    return dict(v=q(m["v"], 1000), f=m["f"], kind=m["kind"], col=q(m["col"], 1000), uv=q(m["uv"], 1000), fuv=m["fuv"], map=m["map"], hasn=m["hasn"], n=q(m["n"], 1000) if m["hasn"] else [])


def view(x):
    """Abstract record of loaded data."""
    o = dict(v=[], f=[], kind="none", col=[], uv=[], fuv=[], map=[], hasn=False, n=[])
    if len(x) != 1:
        raise AssertionError("one object expected")
    if isinstance(x, Pointclouds):
        o["v"] = q(x.points_list()[0], 1000)
        if x.features_list() is not None:
            o.update(kind="vert", col=q(x.features_list()[0], 1000))
        if x.normals_list() is not None:
            o.update(hasn=True, n=q(x.normals_list()[0], 1000))
        return o
    o["v"], o["f"] = q(x.verts_list()[0], 1000), enc(x.faces_list()[0])
    if x.has_verts_normals() and len(o["v"]):
        o.update(hasn=True, n=q(x.verts_normals_packed(), 1000))
    tx = x.textures
    if isinstance(tx, TexturesVertex):
        o.update(kind="vert", col=q(tx.verts_features_list()[0], 1000))
    elif isinstance(tx, TexturesAtlas):
        a = tx.atlas_list()[0]
        if a.shape[1:3] != (1, 1):
            raise AssertionError("atlas of one colour per face expected")
        o.update(kind="atlas", col=q(a[:, 0, 0], 1000))
    elif isinstance(tx, TexturesUV):
        o.update(kind="uv", uv=q(tx.verts_uvs_list()[0], 1000), fuv=enc(tx.faces_uvs_list()[0]), map=q(tx.maps_list()[0], 255))
    elif tx is not None:
        raise AssertionError(type(tx))
    return o


def snapshot(x):
    with torch.no_grad():
        return view(x.detach())


EXT = {"obj": "obj", "off": "off", "ply": "ply", "glb": "glb", "pcl": "ply"}


def history(ctx, rng, root):
    """A random sequence of saves and loads over a few paths."""
    h = tempfile.mkdtemp(dir=root)
    pm = PathManager()
    pm.register_handler(Remote(h))
    fmts = rng.choice([["obj"], ["ply"], ["off"], ["glb"], ["pcl"], ["obj", "ply", "off", "glb", "pcl"]])
    I = IO(path_manager=pm)
    I.register_meshes_format(MeshGlbFormat())
    remote = rng.random() < 0.3
    os.mkdir(os.path.join(h, "w"))
    from pathlib import Path
    tr, have = [], {}
    for _ in range(rng.randint(2, 7)):
        fmt = rng.choice(fmts)
        k = rng.randint(1, 2) * 10 + list(EXT).index(fmt)
        name = f"d{k}.{EXT[fmt]}"
        path = "vp://w/" + name if remote else os.path.join(h, name)
        if not remote and rng.random() < 0.3:
            path = Path(path)
        if k not in have or rng.random() < 0.4:
            m = record(rng, fmt)
            grad = rng.random() < 0.3
            hasdec = rng.random() < 0.4 and fmt not in ("glb",)
            dec = rng.choice([0, 0, 1, 2, 3, 4]) if hasdec else 0
            binary = rng.choice([None, True, False]) if fmt in ("ply", "pcl") else None
            if binary is not False and fmt in ("ply", "pcl"):
                hasdec = False
            u8 = fmt in ("ply", "pcl") and rng.random() < 0.3
            inc = rng.random() < 0.85 or fmt == "pcl"
            e = dict(op="save", fmt=fmt, path=k, inc=inc, hasdec=hasdec, dec=dec, u8=u8, m=abst(m), same=False, rejected=True)
            if hasdec and fmt == "off" and dec == 0 and not (m["kind"] == "none" or not inc):
                e["hasdec"] = hasdec = False
            # ambiguous for OFF readers: integers without a period in the first line

            def go(e):
                x = build(m, fmt, grad)
                before = snapshot(x)
                kw = dict(decimal_places=dec) if hasdec else {}
                if u8:
                    kw["colors_as_uint8"] = True
                if fmt == "pcl":
                    I.save_pointcloud(x, path, binary=binary, **kw)
                else:
                    I.save_mesh(x, path, binary=binary, include_textures=inc, **kw)
                e["rejected"] = False
                e["same"] = snapshot(x) == before
            tr.append(guard(e, go))
            if e.get("exc"):
                break
            have[k] = fmt
        else:
            inc = rng.random() < 0.8 or fmt == "pcl"
            e = dict(op="load", fmt=fmt, path=k, inc=inc)
            tr.append(guard(e, lambda e: e.update(o=view(I.load_pointcloud(path) if fmt == "pcl" else I.load_mesh(path, include_textures=inc)))))
    return tr


def functions(ctx, rng, root):
    """save_obj / save_ply and their readers."""
    h = tempfile.mkdtemp(dir=root)
    tr = []
    m = record(rng, "ply")
    m.update(kind="none", col=[], uv=[], fuv=[], map=[])
    hasn = rng.random() < 0.5 and len(m["v"]) > 0
    m.update(hasn=hasn, n=eighths(rng, len(m["v"]), 3) if hasn else [])
    asc = rng.random() < 0.5
    buf = io.BytesIO()
    p = rng.choice([buf, os.path.join(h, "a.ply")])
    e = dict(op="save", fmt="ply", path=1, inc=True, hasdec=False, dec=0, u8=False, m=abst(m), same=True, rejected=True)

    def go(e):
        save_ply(p, t2(m["v"], 3), t2(m["f"], 3, torch.int64) if m["f"] or rng.random() < 0.5 else None, verts_normals=t2(m["n"], 3) if hasn else None, ascii=asc)
        e["rejected"] = False
    tr.append(guard(e, go))

    def load(e):
        if p is buf:
            buf.seek(0)
        v, f = load_ply(p)
        e["o"] = dict(abst(m), v=q(v, 1000), f=enc(f))
    tr.append(guard(dict(op="load", fmt="ply", path=1, inc=True), load))
    return tr


def num(x):
    return ("%g" % x)


def objfile(ctx, rng, root):
    st, lines = [], []
    nv = nt = nn = 0
    bag = [rng.choice(["v", "v", "v", "vt", "vn", "f", "f", "#", "usemtl"]) for _ in range(rng.randint(5, 25))]
    for k in bag:
        if k == "#":
            lines.append(rng.choice(["# comment", "", "o thing", "g part", "s off", "  # v 1 2 3"]))
        elif k in ("v", "vt", "vn"):
            c = 2 if k == "vt" else 3
            x = [rng.randint(-32, 32) / 8 for _ in range(c)]
            st.append(dict(t=k, x=q(x, 1000)))
            extra = " 1.0" if k == "v" and rng.random() < 0.1 else " 0.5" if k == "vt" and rng.random() < 0.1 else ""
            lines.append(f"{k} " + rng.choice([" ", "  "]).join(num(a) for a in x) + extra)
            nv, nt, nn = nv + (k == "v"), nt + (k == "vt"), nn + (k == "vn")
        elif k == "usemtl":
            i = rng.randint(1, 3)
            st.append(dict(t="usemtl", i=i))
            lines.append(f"usemtl mat{i}")
        elif nv >= 1:
            P = rng.choice([3, 3, 4, 5])
            ht, hn = nt > 0 and rng.random() < 0.6, nn > 0 and rng.random() < 0.5
            idx = lambda n: rng.choice([rng.randint(1, n), rng.randint(1, n), -rng.randint(1, n)])
            v = [idx(nv) for _ in range(P)]
            vt = [idx(nt) for _ in range(P)] if ht else []
            vn = [idx(nn) for _ in range(P)] if hn else []
            st.append(dict(t="f", v=v, vt=vt, vn=vn, ht=ht, hn=hn))
            lines.append("f " + " ".join(str(v[i]) + (f"/{vt[i] if ht else ''}" if ht or hn else "") + (f"/{vn[i]}" if hn else "") for i in range(P)))
    text = rng.choice(["\n", "\n", "\r\n"]).join(lines) + rng.choice(["", "\n"])
    e = dict(op="obj", st=st)

    def go(e):
        src = io.StringIO(text) if rng.random() < 0.5 else io.BytesIO(text.encode())
        v, f, aux = load_obj(src, load_textures=False)
        o = lambda x: [] if x is None else q(x, 1000)
        i = lambda x: enc(x)
        e.update(v=o(v), vt=o(aux.verts_uvs), vn=o(aux.normals), f=i(f.verts_idx), ft=i(f.textures_idx), fn=i(f.normals_idx), fm=i(f.materials_idx))
        for key in ("f", "ft", "fn"):
            if not all(len(r) == 3 for r in e[key]):
                raise AssertionError(key)
    return [guard(e, go)]


TY = {"char": "b", "uchar": "B", "short": "h", "ushort": "H", "int": "i", "uint": "I", "float": "f", "double": "d", "int8": "b", "uint8": "B", "int16": "h", "uint16": "H", "int32": "i", "uint32": "I", "float32": "f", "float64": "d"}
FLT = ("float", "double", "float32", "float64")


def cell(rng, t):
    if t in FLT:
        return rng.randint(-80, 80) / 8
    if TY[t] in "BH" or t in ("uint", "uint32"):
        return rng.randint(0, 255)
    return rng.randint(-100, 100)


def plyfile(ctx, rng, root):
    fmt = rng.choice(["ascii", "<", ">"])
    groups = [["x", "y", "z"]]
    if rng.random() < 0.4:
        groups.append(["nx", "ny", "nz"])
    if rng.random() < 0.5:
        groups.append(["red", "green", "blue"])
    if rng.random() < 0.3:
        groups.append([rng.choice(["alpha", "quality", "texture_u"])])
    names, types = [], []
    uniform = rng.choice(FLT + ("int", "short")) if rng.random() < 0.4 else None
    rng.shuffle(groups)
    for g in groups:
        t = uniform or rng.choice(FLT)
        if "red" in g and uniform is None:
            t = rng.choice(["uchar", "uchar", "uint8", "float", "ushort"])
        for a in g:
            names.append(a)
            types.append(t if rng.random() < 0.9 or uniform else rng.choice(list(TY)))
    if rng.random() < 0.3:
        z = list(zip(names, types))
        rng.shuffle(z)
        names, types = [a for a, _ in z], [b for _, b in z]
    n = rng.choice([0, 1, 2, 4])
    rows = [[cell(rng, t) for t in types] for _ in range(n)]
    polys = [[rng.randrange(max(n, 1)) for _ in range(rng.choice([3, 3, 3, 4, 5]))] for _ in range(rng.choice([0, 1, 2, 3]) if n else 0)]
    if polys and rng.random() < 0.4:
        P = rng.choice([3, 4, 5])
        polys = [[rng.randrange(n) for _ in range(P)] for _ in polys]
    lt, it = rng.choice(["uchar", "uint8", "ushort", "int", "char"]), rng.choice(["int", "uint", "uchar", "ushort", "short", "int32", "uint32"])
    extra = rng.random() < 0.3
    et = rng.choice(FLT + ("int", "uchar"))
    erows = [(cell(rng, et), [cell(rng, "short") for _ in range(rng.randint(0, 3))]) for _ in range(rng.choice([0, 1, 2]))]
    hasface = bool(polys) or rng.random() < 0.5
    els = ["vertex"] + (["face"] if hasface else []) + (["other"] if extra else [])
    if rng.random() < 0.3:
        rng.shuffle(els)
    crlf = fmt == "ascii" and rng.random() < 0.2
    head = ["ply", "format " + {"ascii": "ascii", "<": "binary_little_endian", ">": "binary_big_endian"}[fmt] + " 1.0", "comment made for a check"]
    if rng.random() < 0.2:
        head.append("obj_info nothing")
    body = b""
    for el in els:
        if el == "vertex":
            head.append(f"element vertex {n}")
            head += [f"property {t} {a}" for a, t in zip(names, types)]
            for r in rows:
                body += (" ".join(num(x) for x in r) + "\n").encode() if fmt == "ascii" else b"".join(struct.pack(fmt + TY[t], x) for t, x in zip(types, r))
        elif el == "face":
            head += [f"element face {len(polys)}", f"property list {lt} {it} vertex_ind{rng.choice(['ex', 'ices'])}"]
            for p in polys:
                body += (" ".join(map(str, [len(p)] + p)) + "\n").encode() if fmt == "ascii" else struct.pack(fmt + TY[lt], len(p)) + struct.pack(fmt + str(len(p)) + TY[it], *p)
        else:
            head += [f"element other {len(erows)}", f"property {et} weight", "property list uchar short items"]
            for a, xs in erows:
                body += (" ".join(num(x) for x in [a, len(xs)] + xs) + "\n").encode() if fmt == "ascii" else struct.pack(fmt + TY[et], a) + struct.pack(fmt + "B", len(xs)) + struct.pack(fmt + str(len(xs)) + "h", *xs)
    head.append("end_header")
    data = ("\n".join(head) + "\n").encode() + body
    if crlf:
        data = data.replace(b"\n", b"\r\n")
    p = os.path.join(tempfile.mkdtemp(dir=root), "r.ply")
    with open(p, "wb") as fh:
        fh.write(data)
    tr = []
    for pcl in (False, True):
        e = dict(op="ply", names=names, types=types, rows=q(rows, 1000), polys=polys, pcl=pcl)
        tr.append(guard(e, lambda e: e.update(o=view(IO().load_pointcloud(p) if pcl else IO().load_mesh(p)))))
    if n:
        def bad(what, d):
            ok, x = attempt(lambda: load_ply(io.BytesIO(d)))
            tr.append(dict(op="broken", what=what, rejected=not ok))
        bad("data after the end of the elements", data + b"7\n")
        if fmt != "ascii":
            bad("a binary PLY cut at any byte", data[:rng.randint(len(data) - len(body), len(data) - 1)] if body else data[:-3])
        elif not crlf:
            ls = body.splitlines(True)
            k = rng.randrange(len(ls))
            bad("an ascii PLY with a missing line", data[:len(data) - len(body)] + b"".join(ls[:k] + ls[k + 1:]) if els != ["other"] else b"ply")
    return tr


def offfile(ctx, rng, root):
    n = rng.choice([0, 1, 3, 4])
    v = eighths(rng, n, 3, -32, 32)
    polys = [[rng.randrange(n) for _ in range(rng.choice([3, 3, 4, 5]))] for _ in range(rng.choice([0, 1, 2, 3]) if n else 0)]
    if rng.random() < 0.4:
        polys = [p[:3] for p in polys]
    vcol, fcol = n > 0 and rng.random() < 0.4, len(polys) > 0 and rng.random() < 0.5
    C = rng.choice([3, 4])
    asint = rng.random() < 0.5
    mk = lambda: [rng.randint(0, 255) for _ in range(C)] if asint else [rng.randint(0, 8) / 8 for _ in range(C)]
    vc = [mk() for _ in range(n)] if vcol else []
    fc = [mk() for _ in polys] if fcol else []
    tof = lambda c: [" ".join(map(str, c)) if asint else " ".join("%.3f" % x for x in c)]
    tot = lambda c: q([x / 255 for x in c], 1000) if asint else q(c, 1000)
    L = [rng.choice(["OFF", "off", "Off"])]
    cm = lambda: L.append(rng.choice(["# comment 1.0", "", "   "])) if rng.random() < 0.15 else None
    if rng.random() < 0.2:
        L[0] += f" {n} {len(polys)} 0"
    else:
        cm()
        L.append(f"{n} {len(polys)} 0" + rng.choice(["", " # counts", " #c"]))
    for i in range(n):
        cm()
        L.append(" ".join(["%.3f" % x for x in v[i]] + (tof(vc[i]) if vcol else [])) + rng.choice(["", "", " # 1.5"]))
    for i, p in enumerate(polys):
        cm()
        L.append(" ".join(map(str, [len(p)] + p)) + ("".join(" " + x for x in tof(fc[i])) if fcol else ""))
    data = ("\n".join(L) + "\n").encode()
    p = os.path.join(tempfile.mkdtemp(dir=root), "r.off")
    with open(p, "wb") as fh:
        fh.write(data)
    inc = rng.random() < 0.85
    e = dict(op="off", v=q(v, 1000), polys=polys, vcol=vcol and inc, fcol=fcol and inc, vc=[tot(c) for c in vc], fc=[tot(c) for c in fc])
    tr = [guard(e, lambda e: e.update(o=view(IO().load_mesh(p, include_textures=inc))))]
    for what, d in (("OFF with data after the end", data + b"3 0 0 0\n"), ("OFF with a missing last line", b"\n".join(data.rstrip().split(b"\n")[:-1]) + b"\n")):
        if n and (polys or what.startswith("OFF with data")):
            with open(p, "wb") as fh:
                fh.write(d)
            ok, _ = attempt(lambda: IO().load_mesh(p))
            tr.append(dict(op="broken", what=what, rejected=not ok))
    return tr


def atlas(ctx, rng, root):
    h = tempfile.mkdtemp(dir=root)
    R = rng.choice([1, 2, 3])
    nm = rng.randint(1, 3)
    wrap = rng.choice(["repeat", "clamp", None])
    kd, maps, mtl, obj = [], [], [], ["mtllib m.mtl", "v 0 0 0", "v 1 0 0", "v 0 1 0"]
    for m in range(1, nm + 1):
        mtl.append(f"newmtl mat{m}")
        c = [rng.randint(0, 8) / 8 for _ in range(3)] if rng.random() < 0.6 else []
        if c:
            mtl.append("Kd " + " ".join(num(x) for x in c))
        kd.append(q(c, 1000))
        if rng.random() < 0.6:
            H, W = rng.randint(1, 3), rng.randint(1, 3)
            im = np.random.RandomState(rng.randrange(10**6)).randint(0, 256, (H, W, 3)).astype(np.uint8)
            nmn = rng.choice([f"tex{m}.png", f"tex {m}.png"])
            Image.fromarray(im).save(os.path.join(h, nmn))
            mtl.append("map_Kd " + nmn)
            maps.append(im.tolist())
        else:
            maps.append([])
    F = rng.randint(1, 4)
    uv, mat, out, t = [], [], False, 0
    order = sorted(rng.choice(range(0, nm + 1)) for _ in range(F))
    used = []
    for i in range(F):
        m = order[i]
        mx = 7 if wrap == "repeat" else 8
        u = [[rng.randint(0, mx), rng.randint(0, mx)] for _ in range(3)]
        if wrap == "repeat" and rng.random() < 0.3:
            d = [rng.randint(-2, 2), rng.randint(-2, 2)]
            u = [[a + 8 * d[0], b + 8 * d[1]] for a, b in u]
        if wrap == "clamp" and rng.random() < 0.3:
            u = [[a + rng.randint(-5, 5), b] for a, b in u]
        out = out or any(a > 8 or a < 0 for x in u for a in x)
        uv.append(u)
        mat.append(m)
        obj += [f"vt {num(a / 8)} {num(b / 8)}" for a, b in u]
        if m:
            obj.append(f"usemtl mat{m}")
            used.append(m)
        obj.append(f"f 1/{t + 1} 2/{t + 2} 3/{t + 3}")
        t += 3
    if not used:  # without usemtl a single material of the file is used for all faces
        if nm > 1:
            return []
        mat = [1] * F
    open(os.path.join(h, "m.mtl"), "w").write("\n".join(mtl) + "\n")
    open(os.path.join(h, "o.obj"), "w").write("\n".join(obj) + "\n")
    e = dict(op="atlas", R=R, mat=mat, kd=kd, maps=maps, uv=uv, out=out, wrap=wrap or "none")

    def go(e):
        if rng.random() < 0.5:
            _, _, aux = load_obj(os.path.join(h, "o.obj"), create_texture_atlas=True, texture_atlas_size=R, texture_wrap=wrap)
            a = aux.texture_atlas
        else:
            a = load_objs_as_meshes([os.path.join(h, "o.obj")], create_texture_atlas=True, texture_atlas_size=R, texture_wrap=wrap).textures.atlas_list()[0]
        e["o"] = q(a, 1000)
    return [guard(e, go)]


CT = {"f32": (5126, np.float32), "u8": (5121, np.uint8), "u16": (5123, np.uint16), "u32": (5125, np.uint32)}


def gltf(ctx, rng, root):
    """A scene of nodes with transforms over meshes with interleaved or separate accessors."""
    bin_ = bytearray()
    acc, views, meshes, jm = [], [], [], []

    def pad():
        while len(bin_) % 4:
            bin_.append(0)

    def view_(arr):
        pad()
        views.append(dict(buffer=0, byteOffset=len(bin_), byteLength=len(arr)))
        bin_.extend(arr)
        return len(views) - 1

    for m in range(rng.randint(1, 2)):
        prims, jp = [], []
        for _ in range(rng.choice([1, 1, 2])):
            n = rng.randint(3, 5)
            v = [[rng.randint(-8, 8) / 4 for _ in range(3)] for _ in range(n)]
            kind = rng.choice(["none", "vert", "uv"])
            ct = rng.choice(["f32", "u8", "u16"])
            w = {"none": 0, "uv": 2, "vert": rng.choice([3, 4])}[kind]
            hi = {"f32": 8, "u8": 255, "u16": 65535}[ct]
            a = [[rng.randint(0, hi) for _ in range(w)] for _ in range(n)]
            arr = np.array(a, dtype=np.float64)
            raw = (arr / 8 if ct == "f32" else arr).astype(CT[ct][1]) if w else None
            pos = np.array(v, dtype=np.float32)
            at = {}
            inter = rng.random() < 0.5 and w
            if inter:
                isz = raw.itemsize * w
                stride = 12 + isz + (-isz) % 4
                rows = b"".join(pos[i].tobytes() + raw[i].tobytes() + b"\0" * ((-isz) % 4) for i in range(n))
                if rng.random() < 0.5:
                    rows = rows[:len(rows) - (-isz) % 4] if (-isz) % 4 else rows
                bv = view_(rows)
                views[bv]["byteStride"] = stride
                acc.append(dict(bufferView=bv, componentType=5126, count=n, type="VEC3"))
                at["POSITION"] = len(acc) - 1
                acc.append(dict(bufferView=bv, byteOffset=12, componentType=CT[ct][0], count=n, type=f"VEC{w}", normalized=ct != "f32"))
            else:
                acc.append(dict(bufferView=view_(pos.tobytes()), componentType=5126, count=n, type="VEC3"))
                at["POSITION"] = len(acc) - 1
                if w:
                    acc.append(dict(bufferView=view_(raw.tobytes()), componentType=CT[ct][0], count=n, type=f"VEC{w}", normalized=ct != "f32"))
            if w:
                at["COLOR_0" if kind == "vert" else "TEXCOORD_0"] = len(acc) - 1
            pr = dict(attributes=at)
            if rng.random() < 0.7 or n % 3:
                f = [[rng.randrange(n) for _ in range(3)] for _ in range(rng.randint(1, 3))]
                it = rng.choice(["u8", "u16", "u32"])
                acc.append(dict(bufferView=view_(np.array(f, dtype=CT[it][1]).tobytes()), componentType=CT[it][0], count=3 * len(f), type="SCALAR"))
                pr["indices"] = len(acc) - 1
            else:
                f = [[3 * i, 3 * i + 1, 3 * i + 2] for i in range(n // 3)]
            if kind == "uv":
                pr["material"] = 0
            jp.append(pr)
            sc = q([[x / 8 for x in r] for r in a], 1000) if ct == "f32" else a
            prims.append(dict(v=q(v, 1000), f=f, kind=kind, ctype=ct, a=sc if w else []))
        jm.append(dict(name=f"m{m + 1}", primitives=jp))
        meshes.append(prims)
    K = rng.randint(1, 4)
    nodes, jn = [], []
    for k in range(K):
        parent = 0 if k == 0 else rng.randint(0, k)
        root_ = parent == 0 and rng.random() < 0.9 or k == 0
        me = rng.randint(0, len(jm)) if K > 1 else 1
        d = dict(parent=parent, root=root_, mesh=me, ism=False, m=[0] * 16, s=[1, 1, 1], r=[0, 0, 0, 1], t=[0, 0, 0])
        j = {}
        if me:
            j["mesh"] = me - 1
        if rng.random() < 0.4:
            M = [rng.randint(-2, 2) for _ in range(12)]
            d.update(ism=True, m=[M[0], M[1], M[2], 0, M[3], M[4], M[5], 0, M[6], M[7], M[8], 0, M[9], M[10], M[11], 1])
            j["matrix"] = d["m"]
        else:
            if rng.random() < 0.5:
                d["s"] = [rng.choice([1, 2, -1]) for _ in range(3)]
                j["scale"] = d["s"]
            if rng.random() < 0.6:
                r = rng.choice([[1, 1, 1, 1], [1, 0, 0, 0], [1, -1, 1, 1], [-1, 1, 1, -1], [0, 1, 0, 0], [3, 0, 4, 0], [0, 0, 4, 3], [1, 1, 1, -1]])
                d["r"] = r
                nn = sum(x * x for x in r) ** 0.5
                j["rotation"] = [x / nn for x in r]
            if rng.random() < 0.6:
                d["t"] = [rng.randint(-3, 3) for _ in range(3)]
                j["translation"] = d["t"]
        nodes.append(d)
        jn.append(j)
        if parent:
            jn[parent - 1].setdefault("children", []).append(k)
    perm = rng.sample(range(len(acc)), len(acc))  # accessors in any order
    acc = [acc[perm.index(i)] for i in range(len(acc))]
    for m in jm:
        for pr in m["primitives"]:
            pr["attributes"] = {k: perm[i] for k, i in pr["attributes"].items()}
            if "indices" in pr:
                pr["indices"] = perm[pr["indices"]]
    scenes = [dict(nodes=[k for k in range(K) if nodes[k]["parent"] == 0 and nodes[k]["root"]])]
    which = rng.choice([0, 0, 1, 2])
    scenes = [dict(nodes=[rng.randrange(K)]) for _ in range(which)] + scenes  # only the default scene counts
    js = dict(asset=dict(version="2.0"), scene=which, scenes=scenes, nodes=jn, meshes=jm, accessors=acc, bufferViews=views,
              buffers=[dict(byteLength=len(bin_))], materials=[dict(pbrMetallicRoughness=dict(baseColorFactor=[0.5, 0.25, 0.125, 1.0]))])
    t = json.dumps(js).encode()
    t += b" " * (-len(t) % 4)
    data = struct.pack("<III", 0x46546C67, 2, 28 + len(t) + len(bin_)) + struct.pack("<II", len(t), 0x4E4F534A) + t + struct.pack("<II", len(bin_), 0x004E4942) + bytes(bin_)
    p = os.path.join(tempfile.mkdtemp(dir=root), "s.glb")
    open(p, "wb").write(data)
    inc = rng.random() < 0.8
    e = dict(op="gltf", nodes=nodes, meshes=meshes, inc=inc)

    def go(e):
        o = []
        for name, x in load_meshes(p, PathManager(), include_textures=inc):
            w = view(x)
            w["name"] = int(name[1:])
            o.append(w)
        e["o"] = o
    tr = [guard(e, go)]
    open(p, "wb").write(data[:rng.randint(0, len(data) - 1)])
    ok, _ = attempt(lambda: load_meshes(p, PathManager()))
    tr.append(dict(op="broken", what="a cut GLB", rejected=not ok))
    return tr


class Spy(MeshFormatInterpreter):
    def __init__(self, i, rd, wr, log, by):
        self.i, self.rd, self.wr, self.log, self.by = i, rd, wr, log, by

    def read(self, path, include_textures, device, path_manager, **kw):
        self.log.append(self.i)
        if str(path).rsplit(".", 1)[1] in self.rd:
            self.by.append(self.i)
            return Meshes([torch.full((1, 3), float(self.i))], [torch.zeros(0, 3, dtype=torch.int64)])
        return None

    def save(self, data, path, path_manager, binary, **kw):
        self.log.append(self.i)
        if str(path).rsplit(".", 1)[1] in self.wr:
            self.by.append(self.i)
            return True
        return False


def registry(ctx, rng, root):
    log, by = [], []
    I = IO(include_default_formats=False)
    tr = []
    sfx = ["aa", "bb", "cc"]
    x = Meshes([torch.zeros(1, 3)], [torch.zeros(0, 3, dtype=torch.int64)])
    k = 0
    for _ in range(rng.randint(3, 9)):
        if rng.random() < 0.4:
            k += 1
            rd, wr = [[s for s in sfx if rng.random() < 0.4] for _ in range(2)]
            I.register_meshes_format(Spy(k, rd, wr, log, by))
            tr.append(dict(op="register", i=dict(id=k, rd=rd, wr=wr)))
        else:
            log.clear(), by.clear()
            s, rd = rng.choice(sfx), rng.random() < 0.5
            ok, r = attempt(lambda: I.load_mesh("f." + s) if rd else I.save_mesh(x, "f." + s))
            got = 0
            if ok:
                got = int(r.verts_list()[0][0, 0]) if rd else by[0]
            elif r != "ValueError":
                got = -1
            tr.append(dict(op="route", rd=rd, sfx=s, calls=list(log), by=got))
    return tr


def misc(ctx, rng, root):
    h = tempfile.mkdtemp(dir=root)
    x = Meshes([torch.zeros(1, 3)] * 2, [torch.zeros(0, 3, dtype=torch.int64)] * 2)
    v, f = torch.zeros(3, 3), torch.tensor([[0, 1, 2]])
    P = lambda n: os.path.join(h, n)
    bad = [("two meshes in one file", lambda: IO().save_mesh(x, P("a.obj"))), ("unknown suffix", lambda: IO().save_mesh(x[:1], P("a.xyz"))), ("unknown suffix on load", lambda: IO().load_mesh(P("a.xyz"))),
           ("not a mesh", lambda: IO().save_mesh(v, P("a.obj"))), ("vertices of 2 columns", lambda: save_obj(P("b.obj"), v[:, :2], f)), ("faces of 2 columns", lambda: save_obj(P("b.obj"), v, f[:, :2])),
           ("normals without indices", lambda: save_obj(P("b.obj"), v, f, normals=v)), ("ply vertices of 2 columns", lambda: save_ply(P("b.ply"), v[:, :2], f)),
           ("obj face of mixed form", lambda: load_obj(io.StringIO("v 0 0 0\nv 0 0 1\nv 0 1 0\nvt 0 0\nf 1/1 2 3\n"))), ("obj vertex of two values", lambda: load_obj(io.StringIO("v 0 0\n"))),
           ("texture_wrap unknown", lambda: load_obj(io.StringIO("v 0 0 0\n"), texture_wrap="mirror")), ("ply without header", lambda: load_ply(io.BytesIO(b"plx\n"))),
           ("two point clouds in one file", lambda: IO().save_pointcloud(Pointclouds([v, v]), P("c.ply")))]
    tr = [dict(op="rejects", what=w, rejected=not attempt(fn)[0]) for w, fn in bad]
    # more vertices than 16-bit indices reach
    n = 70000
    V = torch.arange(n).float()[:, None] * torch.tensor([1.0, 0, 0])
    F = torch.tensor([[0, 65535, 65536], [69999, 1, 65537]])
    for ext in ("glb", "ply", "off", "obj"):
        def go(e, ext=ext):
            I = IO()
            I.register_meshes_format(MeshGlbFormat())
            m = Meshes([V], [F])
            if ext in ("off", "obj"):  # the text formats: fewer vertices, they are slow
                m = Meshes([V[:3]], [torch.tensor([[0, 1, 2]])])
            I.save_mesh(m, P("big." + ext))
            g = I.load_mesh(P("big." + ext))
            e["same"] = g.verts_packed().equal(m.verts_packed()) and g.faces_packed().equal(m.faces_packed())
        tr.append(guard(dict(op="same", what="large meshes survive a round trip: " + ext, same=False), go))
    return tr


def traces(ctx):
    rng = ctx.rng
    root = tempfile.mkdtemp(prefix="vp_io_")
    try:
        yield misc(ctx, rng, root)
        for fn, a, b in ((history, 160, 2500), (functions, 25, 300), (objfile, 70, 1200), (plyfile, 110, 2000), (offfile, 60, 1000), (atlas, 50, 800), (gltf, 70, 1200), (registry, 40, 600)):
            for _ in range(ctx.n(a, b)):
                tr = fn(ctx, rng, root)
                if tr:
                    yield tr
    finally:
        shutil.rmtree(root)
