"""Frames: files and annotations -> image, masks, depth, camera; crop, resize; batches of frames."""
import math
import os
import shutil
import signal
import tempfile

import numpy as np
import torch
from PIL import Image
from harness import guard
from datalib import jt
from pytorch3d.implicitron.dataset.frame_data import FrameData, FrameDataBuilder
from pytorch3d.implicitron.dataset.utils import get_bbox_from_mask
from pytorch3d.implicitron.tools.config import expand_args_fields
from pytorch3d.io import IO
from pytorch3d.structures import Pointclouds

MODULE = "Frame"
ASSUMPTIONS = ["aspect ratio of depth maps: half, same, double size per axis", "target sizes for which floor(size * scale) is exact in floating point"]
expand_args_fields(FrameDataBuilder)


def mat(t, scale):
    return [] if t is None else [[int(round(float(v) * scale)) for v in row] for row in t]


WORLD = [[0, 0, 0], [1, 0, 1], [-1, 2, 0], [2, -1, -1]]


def camera(rng):
    while True:
        perm = [int(x) for x in rng.permutation(3)]
        sign = [int(x) for x in rng.choice([-1, 1], 3)]
        T = [int(rng.integers(-2, 3)), int(rng.integers(-2, 3)), int(rng.choice([4, 6]))]
        R = np.zeros((3, 3))
        for a in range(3):
            R[perm[a], a] = sign[a]
        X = np.array(WORLD) @ R + T
        if (X[:, 2] >= 1).all():
            return {"perm": [p + 1 for p in perm], "sign": sign, "T": T, "f": [int(rng.integers(4, 30)), int(rng.integers(4, 30))], "p": [int(x) for x in rng.integers(-6, 7, 2)],
                    "iso": bool(rng.random() < 0.5)}, R.tolist()


def exact(h, w, H, W):
    """does floor(size * scale) lose nothing"""
    if not h or not w:
        return False
    s = min(H / h, W / w)
    a, b = math.floor(h * s), math.floor(w * s)
    if H * w <= W * h:
        want = (H, w * H // h)
    else:
        want = (h * W // w, W)
    return (a, b) == want and a > 0 and b > 0


def target(rng, shapes):
    for _ in range(50):
        s = [int(rng.integers(2, 13)), int(rng.integers(2, 13))]
        if all(exact(h, w, *s) for h, w in shapes):
            return s
    return None


def observe(e, f, c):
    e["img"] = [] if f.image_rgb is None else mat(f.image_rgb[c], 25500)
    e["fg"] = [] if f.fg_probability is None else mat(f.fg_probability[0], 25500)
    e["depth"] = [] if f.depth_map is None else mat(f.depth_map[0], 800)
    e["dm"] = [] if f.depth_mask is None else mat(f.depth_mask[0], 1)
    e["mc"] = [] if f.mask_crop is None else mat(f.mask_crop[0], 1)
    e["eff"] = [int(x) for x in f.effective_image_size_hw]
    e["obox"] = [] if f.bbox_xywh is None else [int(round(float(x) * 64)) for x in f.bbox_xywh]
    e["ocrop"] = [] if f.crop_bbox_xywh is None else [int(x) for x in f.crop_bbox_xywh]
    if f.camera is not None:
        p = f.camera.transform_points_screen(torch.tensor(WORLD, dtype=torch.float32), image_size=f.effective_image_size_hw[None].float())
        e["pts"] = [[int(round(float(x) * 1000)) for x in q[:2]] for q in p.reshape(-1, 3)]


EMPTY = {"img": [], "fg": [], "depth": [], "dm": [], "mc": [], "eff": [0, 0], "obox": [], "ocrop": [], "pts": [], "rejected": False}


def shapes(f):
    return [tuple(t.shape[-2:]) for t in (f.image_rgb, f.fg_probability, f.depth_map, f.depth_mask, f.mask_crop) if t is not None]


def mask(rng, H, W):
    style = rng.random()
    m = rng.integers(0, 256, (H, W))
    if style < 0.5:
        a, b = sorted(rng.integers(0, H + 1, 2)), sorted(rng.integers(0, W + 1, 2))
        k = np.zeros((H, W), dtype=int)
        k[a[0] : a[1], b[0] : b[1]] = 1
        m = m * k
    elif style < 0.65:
        m = m * 0
    elif style < 0.8:
        m = m * 0
        for _ in range(int(rng.integers(1, 4))):
            m[rng.integers(0, H), rng.integers(0, W)] = rng.integers(1, 256)
    elif style < 0.9:
        m = m // 4
    m[(m == 51) | (m == 102)] += 1
    return m


def build(ctx, d):
    rng = ctx.g
    on = lambda p=0.5: bool(rng.random() < p)
    H, W = int(rng.integers(2, 13)), int(rng.integers(2, 13))
    cam, R = camera(rng)
    ch = int(rng.integers(0, 3))
    rgba = on(0.3)
    img = rng.integers(0, 256, (H, W, 4))
    img[..., 3] = mask(rng, H, W)
    fgm = mask(rng, H, W)
    dH, dW = (int(x) for x in [(H, W), (H, W), (2 * H, 2 * W), (max(H // 2, 1), max(W // 2, 1)), (H, 2 * W)][int(rng.integers(0, 5))])
    if dH not in (H, 2 * H) and (H % 2 or W % 2):
        dH, dW = H, W
    dep = rng.integers(-2, 40, (dH, dW)) * (rng.random((dH, dW)) < 0.8)
    e = dict(EMPTY)
    e.update(op="build", H=H, W=W, cam=cam, world=WORLD, imgfile=img[..., ch].tolist(), rgba=rgba, alpha=img[..., 3].tolist(), maskfile=on(0.6), fgfile=fgm.tolist(), lmask=on(0.85),
             limg=on(0.85), ldepth=on(0.8), depthfile=dep.tolist() if on(0.7) else [], dmfile=(rng.random((dH, dW)) < 0.6).astype(int).tolist() if on(0.5) else [], ldm=on(0.7),
             scale=int(rng.choice([1, 2, 4])), mimg=on(0.2), mdepth=on(0.2) and (dH, dW) == (H, W), wrongsize=on(0.03), hasbox=on(0.4), box=[], hascam=on(0.85), crop=on(0.6),
             ctx=int(rng.choice([0, 0, 1, 2, 5])), size=[])
    if not (e["limg"] or e["lmask"] and e["maskfile"]):
        e["limg"] = True
    if e["hasbox"]:
        e["box"] = [int(x) for x in (rng.integers(-8, 4 * W), rng.integers(-8, 4 * H), rng.integers(2, 4 * W), rng.integers(2, 4 * H))]
        if on():
            e["box"] = [x // 4 * 4 for x in e["box"]]
    k = int(rng.integers(0, 1 << 30))
    names = {n: "%s%d.png" % (n, k) for n in ("img", "mask", "depth", "dm")}
    Image.fromarray(img.astype(np.uint8) if rgba else img[..., :3].astype(np.uint8), "RGBA" if rgba else "RGB").save(os.path.join(d, names["img"]))
    Image.fromarray(fgm.astype(np.uint8), "L").save(os.path.join(d, names["mask"]))
    v = dep.astype(np.float16) / 8
    v[dep == -1] = np.inf
    v[dep == -2] = np.nan
    Image.frombytes("I;16", (dW, dH), v.astype(np.float16).tobytes()).save(os.path.join(d, names["depth"]))
    if e["dmfile"]:
        Image.fromarray((np.array(e["dmfile"]) * 255).astype(np.uint8), "L").save(os.path.join(d, names["dm"]))
    if not e["depthfile"]:
        e["dmfile"] = []
    size = (H + 1, W) if e["wrongsize"] else (H, W)
    mk = e["maskfile"] or e["hasbox"]
    fa = jt.FrameAnnotation(sequence_name="s", frame_number=int(rng.integers(0, 99)), frame_timestamp=None if on(0.2) else float(rng.integers(0, 9)), image=jt.ImageAnnotation(path=names["img"], size=size),
                            depth=jt.DepthAnnotation(path=names["depth"], scale_adjustment=e["scale"] / 2, mask_path=names["dm"] if e["dmfile"] else None) if e["depthfile"] else None,
                            mask=jt.MaskAnnotation(path=names["mask"] if e["maskfile"] else None, mass=1.0, bounding_box_xywh=tuple(x / 4 for x in e["box"]) if e["hasbox"] else None) if mk else None,
                            viewpoint=jt.ViewpointAnnotation(R=tuple(map(tuple, R)), T=tuple(map(float, cam["T"])), focal_length=tuple(x / 8 for x in cam["f"]), principal_point=tuple(x / 8 for x in cam["p"]),
                                                             intrinsics_format="ndc_isotropic" if cam["iso"] else "ndc_norm_image_bounds") if e["hascam"] else None)
    sa = jt.SequenceAnnotation(sequence_name="s", category="c", point_cloud=None, viewpoint_quality_score=None if on(0.3) else 0.5)
    args = dict(dataset_root=d, load_images=e["limg"], load_depths=e["ldepth"], load_depth_masks=e["ldm"], load_masks=e["lmask"], mask_images=e["mimg"], mask_depths=e["mdepth"],
                box_crop=e["crop"], box_crop_context=e["ctx"] / 8)
    box = {}
    resize = on(0.5)

    def go(e):
        b = FrameDataBuilder(image_height=None, image_width=None, **args)
        try:
            f = b.build(fa, sa)
        except (ValueError, AssertionError):
            e["rejected"] = True
            return
        if resize:
            s = target(rng, shapes(f))
            if s:
                e["size"] = s
                f = FrameDataBuilder(image_height=s[0], image_width=s[1], **args).build(fa, sa)
        observe(e, f, ch)
        box["f"] = f
    e = guard(e, go)
    return e, box.get("f"), ch


def edits(ctx, tr, f, ch):
    rng = ctx.g
    for _ in range(int(rng.integers(0, 4))):
        if rng.random() < 0.5:
            H, W = (int(x) for x in f.effective_image_size_hw)
            meta = bool(rng.random() < 0.3)
            b = [int(x) for x in (rng.integers(-6, max(3 * W, 1)), rng.integers(-6, max(3 * H, 1)), rng.integers(3, 4 * W + 4), rng.integers(3, 4 * H + 4))]
            integer = bool(rng.random() < 0.4)
            if integer:
                b = [x // 4 * 4 for x in b]
            c = int(rng.choice([0, 0, 1, 3]))
            e = dict(EMPTY, op="crop", meta=meta, box=b, ctx=c)

            def go(e):
                try:
                    if meta:
                        f.crop_by_metadata_bbox_(c / 8)
                    else:
                        f.crop_by_given_bbox_(c / 8, torch.tensor([x // 4 for x in b]) if integer else torch.tensor([x / 4 for x in b]))
                except (ValueError, AssertionError):
                    e["rejected"] = True
                    return
                observe(e, f, ch)
        else:
            s = target(rng, shapes(f))
            if not s:
                continue
            e = dict(EMPTY, op="resize", size=s)

            def go(e):
                f.resize_frame_(torch.tensor(s, dtype=torch.long))
                observe(e, f, ch)
        tr.append(guard(e, go))
        if tr[-1]["rejected"] or "exc" in tr[-1]:
            return
        if rng.random() < 0.3:
            f = f.to("cpu")


def trace(ctx):
    d = tempfile.mkdtemp(prefix="c29")
    try:
        e, f, ch = build(ctx, d)
        tr = [e]
        if f is not None:
            edits(ctx, tr, f, ch)
        return tr
    finally:
        shutil.rmtree(d, ignore_errors=True)


def collate(ctx):
    """frames with and without fields, sharing point clouds of their sequences"""
    rng = ctx.g
    on = lambda p=0.5: bool(rng.random() < p)
    d = tempfile.mkdtemp(prefix="c29")
    try:
        n, nseq = int(rng.integers(1, 6)), int(rng.integers(1, 4))
        haspc = on(0.7)
        sas = []
        for k in range(nseq):
            IO().save_pointcloud(Pointclouds(points=[torch.full((k + 1, 3), float(k + 1))]), os.path.join(d, "p%d.ply" % k))
            sas.append(jt.SequenceAnnotation(sequence_name="s%d" % k, category="c%d" % k, viewpoint_quality_score=float(k), point_cloud=jt.PointCloudAnnotation(path="p%d.ply" % k, quality_score=k / 2, n_points=k + 1)
                                             if haspc or on() else None))
        drop = {x: (0.0 if on(0.8) else 0.4) for x in ("ts", "mask", "view", "depth")}
        H, W = int(rng.integers(2, 5)), int(rng.integers(2, 5))
        fs, pcl = [], []
        vals = {k: ([], []) for k in ("frame_number", "frame_timestamp", "image_rgb", "fg_probability", "camera", "depth_map", "sequence_name", "camera_quality_score", "mask_path", "bbox_xywh")}
        bd = FrameDataBuilder(dataset_root=d, load_point_clouds=True, box_crop=False, image_height=None, image_width=None)

        def put(k, has, v):
            vals[k][0].append(has)
            vals[k][1].append(v if has else [])
        for i in range(n):
            k = int(rng.integers(0, nseq))
            im, m, dp = rng.integers(0, 256, (H, W, 3)), rng.integers(0, 256, (H, W)), rng.integers(1, 30, (H, W))
            Image.fromarray(im.astype(np.uint8)).save(os.path.join(d, "i%d.png" % i))
            Image.fromarray(m.astype(np.uint8), "L").save(os.path.join(d, "m%d.png" % i))
            Image.frombytes("I;16", (W, H), (dp / 8).astype(np.float16).tobytes()).save(os.path.join(d, "d%d.png" % i))
            no, ts, T = int(rng.integers(0, 99)), int(rng.integers(0, 99)), [int(x) for x in rng.integers(0, 5, 3)]
            has = {x: bool(rng.random() >= p) for x, p in drop.items()}
            fa = jt.FrameAnnotation(sequence_name="s%d" % k, frame_number=no, frame_timestamp=float(ts) if has["ts"] else None, image=jt.ImageAnnotation(path="i%d.png" % i, size=(H, W)),
                                    mask=jt.MaskAnnotation(path="m%d.png" % i, mass=1.0, bounding_box_xywh=(float(i), 0.0, 2.0, 2.0)) if has["mask"] else None,
                                    depth=jt.DepthAnnotation(path="d%d.png" % i, scale_adjustment=1.0, mask_path=None) if has["depth"] else None,
                                    viewpoint=jt.ViewpointAnnotation(R=((1., 0., 0.), (0., 1., 0.), (0., 0., 1.)), T=tuple(map(float, T)), focal_length=(i + 1.0, i + 2.0), principal_point=(0.5, i / 2),
                                                                     intrinsics_format="ndc_isotropic") if has["view"] else None)
            f = bd.build(fa, sas[k])
            pcl.append(k + 1 if f.sequence_point_cloud is not None else 0)
            if sas[k].point_cloud is None:
                pcl[-1] = 0
            fs.append(f)
            put("frame_number", True, [no])
            put("frame_timestamp", has["ts"], [ts])
            put("image_rgb", True, im.transpose(2, 0, 1).reshape(-1).tolist())
            put("fg_probability", has["mask"], m.reshape(-1).tolist())
            put("camera", has["view"], T + [i + 1, i + 2, 1, i])
            put("depth_map", has["depth"], dp.reshape(-1).tolist())
            put("sequence_name", True, [k])
            put("camera_quality_score", True, [k])
            put("mask_path", has["mask"], [i])
            put("bbox_xywh", has["mask"], [i, 0, 2, 2])
        e = {"op": "collate", "fields": [], "pcl": pcl, "haspcl": False, "clouds": [], "idx": []}

        def go(e):
            b = FrameData.collate(fs)
            for k, (has, v) in vals.items():
                o = getattr(b, k)
                sc = {"image_rgb": 255, "fg_probability": 255, "depth_map": 8}.get(k, 1)
                if o is None:
                    got = []
                elif k == "camera":
                    got = [[int(round(float(x))) for x in torch.cat((o.T[j], o.focal_length[j], o.principal_point[j] * 2))] for j in range(len(o))]
                elif k == "sequence_name":
                    got = [[int(x[1:])] for x in o]
                elif k == "mask_path":
                    got = [[int(os.path.basename(x)[1:-4])] for x in o]
                else:
                    got = [[int(round(float(x) * sc)) for x in o[j].reshape(-1)] for j in range(len(o))]
                e["fields"].append({"name": k, "has": has, "vals": v, "none": o is None, "got": got})
            e["haspcl"] = b.sequence_point_cloud is not None
            if e["haspcl"]:
                e["clouds"] = [int(p[0, 0]) if len(p) == int(p[0, 0]) else -1 for p in b.sequence_point_cloud.points_list()]
                e["idx"] = [int(i) for i in b.sequence_point_cloud_idx]
                if len(e["idx"]) != len(fs):
                    e["idx"] = [0] * len(fs)
                b.sequence_point_cloud[b.sequence_point_cloud_idx]
        return [guard(e, go)]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def late(*a):
    raise TimeoutError("no answer")


def maskbox(ctx):
    rng = ctx.g
    tr = []
    for _ in range(6):
        H, W = int(rng.integers(1, 4)), int(rng.integers(1, 6))
        m = mask(rng, H, W)

        def go(e):
            old = signal.signal(signal.SIGALRM, late)
            signal.setitimer(signal.ITIMER_REAL, 5)
            try:
                e["box"] = [int(x) for x in get_bbox_from_mask((m / 255).astype(np.float32)[None], 0.4)]
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
        tr.append(guard({"op": "maskbox", "m": m.tolist(), "box": []}, go))
    return tr


def traces(ctx):
    ctx.g = np.random.default_rng(ctx.np.randint(1 << 30))
    for _ in range(ctx.n(250, 3000)):
        yield trace(ctx)
    for _ in range(ctx.n(40, 400)):
        yield collate(ctx)
    for _ in range(ctx.n(10, 100)):
        yield maskbox(ctx)
