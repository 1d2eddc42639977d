import sharelib
from meshlib import *  # noqa
MODULE = "Meshes"
ASSUMPTIONS = ["integer vertex coordinates (exact in float32)", "batches with at least one valid mesh (plus explicit empty-batch cases)"]
CFG = """SPECIFICATION Spec
CONSTANTS MaxObjs = {mo} Depth = {d} MaxEdits = {me} Multi = {multi}
{view}
INVARIANT Coherent
{emit}
"""


def traces(ctx):
    # the design itself: every interleaving of accessor calls and edits keeps the caches coherent
    ctx.design("MeshCache (2 objects, coherent caches)", "MeshCache",
               CFG.format(mo=2, d=ctx.n(6, 8), me=2, multi="TRUE", view="VIEW View", emit=""))
    behs = ctx.behaviours("MeshCache exhaustive histories", "MeshCache",
                          CFG.format(mo=2, d=3, me=2, multi="FALSE", view="", emit="INVARIANT Emit"))
    if not ctx.thorough:
        behs = ctx.rng.sample(behs, 150)
    behs += ctx.behaviours("MeshCache simulated histories", "MeshCache",
                           CFG.format(mo=4, d=10, me=3, multi="TRUE", view="", emit="INVARIANT Emit"),
                           simulate=ctx.n(160, 3000), depth=11)
    for b in behs:
        r = Replay(ctx)
        r.run(b)
        yield r.tr
    # empty batches
    for _ in range(6):
        r = Replay(ctx)
        n = ctx.rng.randint(0, 3)
        r.step({"op": "list", "v": [[]] * n, "f": [[]] * n},
               lambda: [Meshes([torch.zeros(0, 3)] * n, [torch.zeros(0, 3, dtype=torch.int64)] * n)])
        for acc in ["len", "isempty", "verts_list", "faces_list", "verts_packed", "faces_packed", "verts_packed_to_mesh_idx",
                    "faces_packed_to_mesh_idx", "valid"]:
            r.obs(1, acc)
        yield r.tr
    yield from sharelib.share(ctx, [sharelib.MeshK], ctx.n(90, 1350))
