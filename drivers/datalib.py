"""Datasets built from generated annotation tables."""
import json
import logging
import os
import warnings

import numpy as np
import sqlalchemy as sa
from sqlalchemy.orm import Session
from pytorch3d.implicitron.dataset import orm_types as ot, types as jt
from pytorch3d.implicitron.dataset.json_index_dataset import JsonIndexDataset
from pytorch3d.implicitron.dataset.sql_dataset import SqlIndexDataset
from pytorch3d.implicitron.tools.config import expand_args_fields

logging.disable(logging.WARNING)
warnings.simplefilter("ignore")
expand_args_fields(JsonIndexDataset)
expand_args_fields(SqlIndexDataset)
LAB = {0: None, 1: "train_known", 2: "train_unseen", 3: "test_known", 4: "test_unseen"}
COD = {v: k for k, v in LAB.items()}
sn = lambda k: "s%02d" % k
cn = lambda k: "c%d" % k
path = lambda f: "%s/f%d.png" % (sn(f["seq"]), f["no"])
NOBLOB = dict(load_images=False, load_depths=False, load_masks=False, load_depth_masks=False, box_crop=False, image_height=None, image_width=None)


def tables(rng, sql=False, nseq=None, mass=True):
    nseq = nseq or int(rng.integers(1, 7))
    names = [int(x) for x in rng.permutation(20)[:nseq]]
    sq = [{"name": n, "cat": int(rng.integers(0, 3))} for n in names]
    fr = []
    for n in names:
        k = int(rng.integers(1, 7))
        nos = sorted(int(x) for x in rng.permutation(12)[:k]) if rng.random() < 0.7 else [int(x) for x in rng.permutation(12)[:k]]
        style = rng.random()
        ts = sorted(int(x) for x in rng.integers(0, 40, k)) if style < 0.5 else [int(x) for x in rng.integers(0, 40, k)]
        empty = rng.random() < 0.25
        for j, no in enumerate(nos):
            has = sql or style < 0.9
            fr.append({"seq": n, "no": no, "hasts": bool(has), "ts": ts[j] if has else 0,
                       "mass": 0 if empty else int(rng.choice([0, 2, 9, -1 if sql else 5])), "sub": int(rng.integers(0, 5)), "ft": int(rng.integers(1, 5))})
    if rng.random() < 0.4:
        fr = [fr[i] for i in rng.permutation(len(fr))]
    return fr, sq


def jannots(fr):
    return [jt.FrameAnnotation(sequence_name=sn(f["seq"]), frame_number=f["no"], frame_timestamp=f["ts"] / 8 if f["hasts"] else None,
                               image=jt.ImageAnnotation(path=path(f), size=(4, 6)), mask=jt.MaskAnnotation(path=None, mass=float(f["mass"])),
                               meta={"frame_type": LAB[f["ft"]]}) for f in fr]


def write_json(d, fr, sq):
    os.makedirs(d, exist_ok=True)
    jt.dump_dataclass_jgzip(os.path.join(d, "frame_annotations.jgz"), jannots(fr))
    jt.dump_dataclass_jgzip(os.path.join(d, "sequence_annotations.jgz"), [jt.SequenceAnnotation(sequence_name=sn(x["name"]), category=cn(x["cat"])) for x in sq])


def ident(fr, q, withpath=False):
    return [sn(q[0]), q[1]] + ([path({"seq": q[0], "no": q[1]})] if withpath else [])


def write_lists(d, fr, name="set_lists.json"):
    lists = {LAB[k]: [ident(fr, (f["seq"], f["no"]), True) for f in fr if f["sub"] == k] for k in (1, 2, 3, 4)}
    os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
    with open(os.path.join(d, name), "w") as g:
        json.dump(lists, g)


def write_sql(d, fr, sq, rng):
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "metadata.sqlite")
    eng = sa.create_engine("sqlite:///" + f)
    ot.Base.metadata.create_all(eng, tables=[ot.SqlFrameAnnotation.__table__, ot.SqlSequenceAnnotation.__table__])
    with Session(eng) as s:
        for x in sq:
            s.add(ot.SqlSequenceAnnotation(sequence_name=sn(x["name"]), category=cn(x["cat"]), video=None, point_cloud=None, viewpoint_quality_score=None))
            s.flush()
        for a in fr:
            s.add(ot.SqlFrameAnnotation(sequence_name=sn(a["seq"]), frame_number=a["no"], frame_timestamp=a["ts"] / 8, image=ot.ImageAnnotation(path=path(a), size=(4, 6)),
                                        depth=None, mask=ot.MaskAnnotation(path=None, mass=None if a["mass"] < 0 else float(a["mass"]), bounding_box_xywh=None), viewpoint=None))
            s.flush()
        s.commit()
    eng.dispose()
    eng = sa.create_engine("sqlite:///" + os.path.join(d, "set_lists.sqlite"))
    with eng.connect() as c:
        c.execute(sa.text("CREATE TABLE set_lists (sequence_name TEXT, frame_number INTEGER, _image_path TEXT, subset TEXT)"))
        for a in [fr[i] for i in rng.permutation(len(fr))]:
            if a["sub"]:
                c.execute(sa.text("INSERT INTO set_lists VALUES (:a,:b,:c,:d)"), {"a": sn(a["seq"]), "b": a["no"], "c": path(a), "d": LAB[a["sub"]]})
        c.commit()
    eng.dispose()


BASE = {"rem": False, "subsets": [], "cats": [], "pick": [], "excl": [], "lseq": 0, "per": 0, "lim": 0, "nf": -1, "sort": False, "lists": False,
        "sclause": [], "fclause": [], "hasev": False, "ev": [], "seed": 0}


def config(rng, fr, sq, sql):
    c = json.loads(json.dumps(BASE))
    on = lambda p=0.3: rng.random() < p
    names = [x["name"] for x in sq]
    some = lambda q, k: [q[i] for i in rng.permutation(len(q))[:k]]
    c["rem"] = bool(on(0.4))
    if on(0.4):
        c["subsets"] = sorted(some([1, 2, 3, 4], int(rng.integers(1, 4))))
    c["lists"] = bool(c["subsets"]) or (not sql and bool(on()))
    if on():
        c["cats"] = some([0, 1, 2], int(rng.integers(1, 3)))
    if on():
        c["pick"] = some(names, int(rng.integers(1, len(names) + 1)))
    if on():
        c["excl"] = some(names, int(rng.integers(1, 3)))
    if on():
        c["lseq"] = int(rng.integers(1, 5))
    if on(0.25):
        c["lim"] = int(rng.integers(1, 10))
    if on(0.35):
        c["nf"] = int(rng.integers(1, 5))
    c["seed"] = int(rng.integers(0, 100))
    if sql:
        if on():
            c["per"] = int(rng.integers(1, 3))
        if on(0.25):
            c["sclause"] = [some([0, 1, 2], 1), some(names, 1)]
        if on(0.25):
            c["fclause"] = some(list(range(12)), 6)
    else:
        c["sort"] = bool(on(0.4))
    return c


def build(d, c, sql, rng, extra=None):
    x = dict(extra or {})
    rng = np.random.default_rng(c["seed"])
    if sql:
        x.update(subset_lists_file=os.path.join(d, rng.choice(["set_lists.json", "set_lists.sqlite"])) if c["subsets"] else "", pick_categories=tuple(map(cn, c["cats"])),
                 pick_sequences=tuple(map(sn, c["pick"])), exclude_sequences=tuple(map(sn, c["excl"])), limit_sequences_per_category_to=c["per"],
                 remove_empty_masks_poll_whole_table_threshold=int(rng.choice([0, 300000])), preload_metadata=bool(rng.random() < 0.2),
                 precompute_seq_to_idx=bool(rng.random() < 0.3), scoped_session=bool(rng.random() < 0.3))
        if c["sclause"]:
            x["pick_sequences_sql_clause"] = "category='%s' OR sequence_name='%s'" % (cn(c["sclause"][0][0]), sn(c["sclause"][1][0]))
        if c["fclause"]:
            x["pick_frames_sql_clause"] = " OR ".join("frame_annots.frame_number=%d" % k for k in c["fclause"])
        return SqlIndexDataset(sqlite_metadata_file=os.path.join(d, "metadata.sqlite"), subsets=[LAB[k] for k in c["subsets"]] or None, remove_empty_masks=c["rem"],
                               limit_sequences_to=c["lseq"], limit_to=c["lim"], n_frames_per_sequence=c["nf"], seed=c["seed"],
                               frame_data_builder_FrameDataBuilder_args=NOBLOB, **x)
    return JsonIndexDataset(frame_annotations_file=os.path.join(d, "frame_annotations.jgz"), sequence_annotations_file=os.path.join(d, "sequence_annotations.jgz"),
                            subset_lists_file=os.path.join(d, "set_lists.json") if c["lists"] else "", subsets=[LAB[k] for k in c["subsets"]] or None,
                            limit_category_to=tuple(map(cn, c["cats"])), pick_sequence=tuple(map(sn, c["pick"])), exclude_sequence=tuple(map(sn, c["excl"])),
                            limit_sequences_to=c["lseq"], limit_to=c["lim"], n_frames_per_sequence=c["nf"], seed=c["seed"], sort_frames=c["sort"],
                            remove_empty_masks=c["rem"], **NOBLOB, **x)


def index(ds):
    out = []
    for i in range(len(ds)):
        f = ds[i]
        out.append([int(f.sequence_name[1:]), int(f.frame_number)])
    return out


def names(ds):
    return [int(x[1:]) for x in ds.sequence_names()]


def cats(ds):
    return [{"c": int(k[1:]), "n": [int(x[1:]) for x in v]} for k, v in ds.category_to_sequence_names().items()]


def frame(f):
    return [int(f.sequence_name[1:]), int(f.frame_number), 0 if f.frame_timestamp is None else int(round(float(f.frame_timestamp) * 8)), int(f.sequence_category[1:]), COD[f.frame_type]]


def batches(rng, fr, ix, miss=False):
    pool = [[f["seq"], f["no"]] for f in fr] if miss else ix
    out = []
    for _ in range(int(rng.integers(1, 4))):
        q = pool[int(rng.integers(0, len(pool)))][0]
        mine = [p for p in pool if p[0] == q]
        out.append([mine[i] for i in rng.permutation(len(mine))[: int(rng.integers(1, 4))]])
    return out
