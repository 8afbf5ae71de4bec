"""Geometry managers, through Surface, in any frame, with any rays."""
from hlib import *
import hlib
import geom
from tracer.surface import Surface
from tracer.object import AssembledObject
from tracer.assembly import Assembly
from tracer.ray_bundle import RayBundle

def reshaped(rng, g):
    """A geometry manager made with other dimensions, perhaps used, and then given the wanted ones."""
    if g["k"] not in ("sphere", "hemi", "cut", "tri") or rng.randint(4): return geom.make_gm(g)
    gm = geom.make_gm(dict(g, p=[x * [2., .5][rng.randint(2)] for x in g["p"]]))
    if rng.randint(2):
        gm.find_intersections(hlib.rand_frame(rng), RayBundle(vertices=rng.uniform(-1, 1, (3, 4)), directions=N.array([rand_unit(rng) for _ in range(4)]).T))
        gm.done()
    if g["k"] == "tri": gm.set_vertices(N.array([[g["p"][0], g["p"][2]], [g["p"][1], g["p"][3]], [0, 0]]))
    else: gm.set_radius(g["p"][0])
    return gm

def scenario(rng, out, kind):
    whole = rng.randint(10) == 0
    g = geom.whole_geom(rng, kind) if whole else geom.rand_geom(rng, kind)
    rand_frame = (lambda r, s=3.: geom.whole_frame(r)) if whole else hlib.rand_frame
    def build():
        f = rand_frame(rng)
        surf = Surface(reshaped(rng, g), lambda *a: None, location=f[:3, 3].copy(), rotation=f[:3, :3].copy())
        chain = [f]; obj = asm = None
        if rng.randint(2):
            fo = rand_frame(rng)
            obj = AssembledObject(surfs=[surf], transform=fo); chain = [fo, f]
            if rng.randint(2):
                fa = rand_frame(rng, 1.)
                asm = Assembly(objects=[obj]); asm.set_transform(fa); chain = [fa] + chain
        return surf, obj, asm, chain
    r, exc = guarded(build)
    steps = []
    if exc:
        out.put({"fam": kind, "cover": [kind], "g": geom.enc_geom(g), "steps": [{"exc": exc, "chain": [], "v": []}]}); return
    surf, obj, asm, chain = r
    for rnd in range(rng.randint(1, 4)):
        if rnd and rng.randint(2):                                   # move something first
            f = rand_frame(rng)
            top = asm or obj or surf
            _, exc = guarded(top.set_transform, f)
            chain = [f] + chain[1:]
        W = N.eye(4)
        for f in chain: W = N.dot(W, f)
        n = [1, 2, 5, 9, 12][rng.randint(5)] if rng.randint(60) else [150, 129, 257, 513, 1025, int(rng.randint(500, 1100))][rng.randint(6)]
        lv, ld = (geom.whole_rays if whole else geom.rand_rays)(rng, g, n, *([True] if n > 100 and rng.randint(2) else []))
        v = q(N.dot(W[:3, :3], lv.T) + W[:3, 3:4]); d = N.dot(W[:3, :3], ld.T)
        if whole: v, d = N.round(v).astype(int), N.round(d).astype(int)
        else: d /= N.sqrt((d**2).sum(axis=0))
        b = RayBundle(vertices=v.copy(), directions=d.copy(), energy=N.ones(n), ref_index=N.ones(n))
        st = {"exc": "", "chain": [mat(f) for f in chain], "v": cols(v), "d": cols(d), "t": [], "sel": [], "pts": [], "nrm": [], "alone": []}
        def alone(j):
            """The same surface, asked about one of the rays by itself."""
            t = N.array(surf.register_incoming(RayBundle(vertices=v[:, j:j+1].copy(), directions=d[:, j:j+1].copy(), energy=N.ones(1), ref_index=N.ones(1))), dtype=float)[0]
            a = {"j": int(j) + 1, "t": enc(N.inf if t > 1e6 else t), "p": [], "n": []}
            if N.isfinite(t) and t < 1e3:
                surf.select_rays(N.r_[0])
                gm = surf.get_geometry_manager()
                a["n"] = cols(gm.get_normals())[0]; a["p"] = cols(gm.get_intersection_points_global())[0]
            surf.done()
            st["alone"].append(a)
        def look():
            t = N.array(surf.register_incoming(b), dtype=float)
            st["t"] = vec(N.where(t > 1e6, N.inf, t))       # farther than anything: a miss
            hit = N.nonzero(N.isfinite(t) & (t < 1e3))[0]
            hit = hit[rng.permutation(len(hit))[:rng.randint(0 if rng.randint(6) == 0 else 1, len(hit) + 1)]] if len(hit) else hit
            if len(hit) or rng.randint(2):
                surf.select_rays(hit)
                gm = surf.get_geometry_manager()
                first = rng.randint(2)
                if first: pts, nrm = gm.get_intersection_points_global(), gm.get_normals()
                else: nrm, pts = gm.get_normals(), gm.get_intersection_points_global()
                st["sel"] = ints(hit); st["pts"] = cols(pts); st["nrm"] = cols(nrm)
            if rng.randint(4): surf.done()
        def both():
            if n > 1:
                for j in sorted(set(list(rng.permutation(n)[:4]) + [n - 1])): alone(j)
            look()
        _, st["exc"] = guarded(both)
        steps.append(st)
        if st["exc"]: break
    out.put({"fam": kind, "cover": [kind, "chain%d" % len(chain)] + ["whole"] * whole, "g": geom.enc_geom(g), "steps": steps})

def main():
    path, seed, size, rest = args()
    rng = N.random.RandomState(seed)
    out = Out(path)
    kinds = {"flat": geom.FLAT, "curved": geom.CURVED, "all": geom.FLAT + geom.CURVED}[rest[0] if rest else "all"]
    for i in range(size): scenario(rng, out, kinds[i % len(kinds)])
    out.close()

if __name__ == "__main__":
    main()
