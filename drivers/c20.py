import torch
from harness import enc, q, guard
from pytorch3d.ops import box3d_overlap
MODULE = "Boxes"
ASSUMPTIONS = ["convex hexahedra with planar faces and integer corners (divided by 1 or 2); planes of the two boxes coincide, or differ by more than four degrees"]
U = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]


def det(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def apply(m, o, p):
    return [o[k] + sum(m[c][k] * p[c] for c in range(3)) for k in range(3)]


def box(rng, kind):
    while True:
        o = [rng.randint(-2, 2) for _ in range(3)]
        if kind == "aligned":
            p = rng.sample(range(3), 3)
            m = [[(rng.choice([-1, 1]) * rng.randint(1, 3) if p[r] == k else 0) for k in range(3)] for r in range(3)]
        elif kind == "turned":  # orthogonal axes of equal length, unaligned
            m = rng.choice([[[2, 2, -1], [-1, 2, 2], [2, -1, 2]], [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], [[1, 0, 2], [0, 1, 0], [-2, 0, 1]], [[1, 1, 1], [1, -1, 0], [1, 1, -2]]])
            m = [[rng.choice([-1, 1]) * x for x in r] if False else r for r in m]
        else:
            m = [[rng.randint(-2, 2) for _ in range(3)] for _ in range(3)]
        if det(m) == 0:
            continue
        pts = U
        if kind == "frustum":  # top half as large as the bottom: corners in half units
            pts = [[2 * x, 2 * y, 0] for x, y, z in U[:4]] + [[x, y, 1] for x, y, z in U[:4]]
            m = [m[0], m[1], m[2]]
        b = [apply(m, o, p) for p in pts]
        lo = [min(c) for c in zip(*b)]
        if all(max(c) - min(c) <= 8 for c in zip(*b)):
            off = [rng.randint(-2, 1) - (l if abs(l) > 5 else 0) for l in lo]
            return [[c + d for c, d in zip(v, off)] for v in b]


def overlap(ctx, rng, tr):
    fam = rng.choice([["aligned"], ["aligned"], ["aligned", "turned", "skew", "frustum"], ["turned", "skew"], ["frustum"]])
    # k: small boxes, their volumes are reported in units; slivers of small turned boxes fall below the area threshold
    s, k = rng.choice([(1, 1), (2, 1), (1, 8)]) if fam == ["aligned"] else (rng.choice([1, 2]), 1)
    a = [box(rng, rng.choice(fam)) for _ in range(rng.choice([1, 1, 2]))]
    b = [box(rng, rng.choice(fam)) for _ in range(rng.choice([1, 2]))]
    if rng.random() < 0.2:  # the same box, its corners listed from another side, or a shifted copy
        p = rng.choice([range(8), [4, 5, 6, 7, 0, 1, 2, 3], [1, 0, 3, 2, 5, 4, 7, 6], [0, 3, 2, 1, 4, 7, 6, 5], [3, 0, 1, 2, 7, 4, 5, 6]])
        d = [rng.randint(-1, 1) for _ in range(3)] if rng.random() < 0.5 else [0, 0, 0]
        b[0] = [[c + x for c, x in zip(a[0][i], d)] for i in p]
    A, B = torch.tensor(a).float() / s / k, torch.tensor(b).float() / s / k
    sh = torch.tensor([float(rng.choice([0, 0, 3])) / k for _ in range(3)])
    A, B = A + sh, B + sh
    snap = A.clone(), B.clone()

    def go(e):
        v, i = box3d_overlap(A, B) if rng.random() < 0.7 else box3d_overlap(A, B, eps=1e-3)
        if tuple(v.shape) != (len(a), len(b)) or v.shape != i.shape:
            raise AssertionError("shape of the volumes")
        e.update(vol=q(v * k ** 3, 1000), iou=q(i, 1000))
    tr.append(guard({"op": "iou", "a": a, "b": b, "s": s}, go))
    tr.append({"op": "same", "what": "box overlap does not modify its inputs", "same": torch.equal(snap[0], A) and torch.equal(snap[1], B)})


def rejects(ctx, rng, tr):
    u = torch.tensor(U).float()[None]
    for _ in range(40):
        bent = u * torch.tensor([float(rng.randint(1, 3)) for _ in range(3)])
        for _ in range(rng.choice([1, 1, 2, 4])):
            i = rng.randrange(8)
            bent[0, i] += torch.tensor([float(rng.choice([-1, 1])) * rng.choice([0.01, 0.1, 0.5]) if k == rng.randrange(3) else 0.0 for k in range(3)])
        v = bent[0]
        planar = True
        for f in ([0, 1, 2, 3], [3, 2, 6, 7], [0, 1, 5, 4], [0, 3, 7, 4], [1, 2, 6, 5], [4, 5, 6, 7]):
            n = torch.linalg.cross(v[f[1]] - v[f[0]], v[f[2]] - v[f[0]])
            if abs(float(torch.dot(n / n.norm(), v[f[3]] - v[f[0]]))) > 1e-3:
                planar = False
        if not planar:
            tr.append({"op": "rejects", "what": "bent box", "rejected": raises(lambda: box3d_overlap(*rng.choice([(bent, u), (u, bent), (torch.cat([u, bent]), u)])))})
    # faces bent in opposite directions: the deviations cancel in a sum over the faces
    twist = u.clone()
    twist[0, 2, 2], twist[0, 6, 2] = -0.1, 0.9
    flat = u.clone()
    flat[..., 2] = 0
    for what, b in (("box of zero volume", flat), ("bent box", twist), ("number of corners", u[:, :7]), ("dimension of corners", u[..., :2])):
        tr.append({"op": "rejects", "what": what, "rejected": raises(lambda: box3d_overlap(b, u)) and raises(lambda: box3d_overlap(u, b))})
    x = u.clone().requires_grad_()

    def back():
        try:
            box3d_overlap(x, u)[0].sum().backward()
        except ValueError:
            return True
        return False
    tr.append({"op": "rejects", "what": "request for gradients", "rejected": back()})


def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False


def traces(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(250, 4000)):
        tr = []
        overlap(ctx, rng, tr)
        overlap(ctx, rng, tr)
        yield tr
    tr = []
    rejects(ctx, rng, tr)
    yield tr
