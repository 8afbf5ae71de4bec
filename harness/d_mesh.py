"""Meshes: d_mesh.py OUT SEED SIZE"""
from hlib import *
import geom
from tracer.surface import Surface
from tracer.object import AssembledObject
from tracer.assembly import Assembly

KINDS = ["rect", "disc", "sphere", "hemi", "fcyl", "dish", "tri"]

def sample(rng, g):
    k, p = g["k"], g["p"]
    e = rng.randint(3) == 0        # on the rim
    if k == "rect":
        x = rng.uniform(-.5, .5, 2)
        if e: x[rng.randint(2)] = rng.choice([-.5, .5])
        return N.r_[x * p, 0.]
    if k == "tri":
        a, b = rng.uniform(0, 1, 2)
        if a + b > 1: a, b = 1 - a, 1 - b
        if e: a, b = [(a, 0.), (0., b), (a, 1 - a)][rng.randint(3)]
        return N.r_[a * p[0] + b * p[2], a * p[1] + b * p[3], 0.]
    t = rng.uniform(0, 2 * N.pi)
    if k in ("disc", "dish"):
        r = p[0] * (1. if e else N.sqrt(rng.uniform()))
        return N.r_[r * N.cos(t), r * N.sin(t), 0. if k == "disc" else r * r / 4 / p[1]]
    if k == "fcyl": return N.r_[p[0] * N.cos(t), p[0] * N.sin(t), p[1] * (rng.choice([-.5, .5]) if e else rng.uniform(-.5, .5))]
    u = rand_unit(rng) if not e else N.r_[N.cos(t), N.sin(t), 0.]
    if e and rng.randint(2): u = N.r_[0., 0., rng.choice([-1., 1.])]
    if k == "hemi": u[2] = -abs(u[2])
    return u * p[0]

def size_of(g):
    k, p = g["k"], g["p"]
    if k == "tri": return max(N.hypot(p[0], p[1]), N.hypot(p[2], p[3]), N.hypot(p[0] - p[2], p[1] - p[3]))
    if k == "rect": return max(p)
    if k == "fcyl": return max(2 * N.pi * p[0], p[1])
    if k in ("disc", "dish"): return 2 * N.pi * p[0] * .7
    return 2 * N.pi * p[0]

def scenario(rng, out, kind):
    g = geom.rand_geom(rng, kind)
    chain = []; steps = []
    def build():
        f = rand_frame(rng)
        surf = Surface(geom.make_gm(g), lambda *a: None, location=f[:3, 3].copy(), rotation=f[:3, :3].copy())
        obj = asm = None; chain[:] = [f]
        if rng.randint(2):
            fo = rand_frame(rng); obj = AssembledObject(surfs=[surf], transform=fo); chain.insert(0, fo)
            if rng.randint(2):
                fa = rand_frame(rng, 1.); asm = Assembly(objects=[obj]); asm.set_transform(fa); chain.insert(0, fa)
        return surf, obj, asm
    r, exc = guarded(build)
    st0 = {"exc": exc, "chain": [], "pts": [], "samp": [], "h": enc(1), "shape": True, "rows": 1, "count": 0}
    if exc: steps.append(st0)
    else:
        surf, obj, asm = r
        for rnd in range(rng.randint(1, 4)):
            if rnd:
                f = rand_frame(rng); w = rng.randint(len(chain))
                node = [x for x in (asm, obj, surf) if x is not None][w]
                _, exc = guarded(node.set_transform, f.copy()); chain[w] = f
            if kind == "tri":
                res = int(rng.randint(2, 10)); h = size_of(g) / (res - 1)
            else:
                n = rng.uniform(.3, 20) if rng.randint(8) else rng.uniform(20, 60)
                res = n / size_of(g)
                if rng.randint(3) == 0: res = float(max(1, N.round(res)))
                if rng.randint(6) == 0: res = int(max(1, N.round(res)))
                h = 1. / res
            st = dict(st0, chain=[mat(f) for f in chain], h=enc(h), samp=[vec(sample(rng, g)) for _ in range(12)])
            def look():
                m = surf.mesh(res)
                x, y, z = [N.asarray(c, dtype=float) for c in m]
                st["shape"] = bool(x.ndim == 2 and x.shape == y.shape == z.shape)
                st["rows"] = int(x.shape[0]) if st["shape"] else 1
                st["count"] = min(int(x.size), 10**6)
                if x.size > 60000: return            # several times the most that is asked for here: not written out
                st["pts"] = cols(N.array([x.ravel(), y.ravel(), z.ravel()])) if st["shape"] else []
            _, st["exc"] = guarded(look)
            steps.append(st)
            if st["exc"]: break
    out.put({"fam": kind, "cover": [kind, "chain%d" % len(chain)], "g": geom.enc_geom(g), "steps": steps})

if __name__ == "__main__":
    path, seed, size, rest = args()
    rng = N.random.RandomState(seed); out = Out(path)
    for k in range(size): scenario(rng, out, KINDS[k % len(KINDS)])
    out.close()
