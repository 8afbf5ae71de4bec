"""Sources and diffuse optics in bulk: d_source.py OUT SEED SIZE small|big|diffuse"""
from hlib import *
import geom
from d_spatial import unit
from tracer.sources import solar_disk_bundle, square_bundle, pillbox_sunshape_directions
from tracer.surface import Surface
from tracer.ray_bundle import RayBundle
from tracer import optics_callables as oc

def f1(x): return float(q(x))
def uncut(a): return [enc(x) for x in a]

def common(rng, big):
    narrow = 10**rng.uniform(-3.9, -3)
    ang = f1([0.00465, rng.uniform(1e-3, .1), rng.uniform(.1, 1.5), N.pi / 2, narrow, narrow][rng.randint(6)])
    if not big and rng.randint(6) == 0: ang = 0.
    return {"exc": "", "same": True, "n": int(20000 if big else rng.randint(1, 40) if rng.randint(4) else rng.randint(40, 400)), "R": enc(1.), "c": vec(N.zeros(3)), "dir": vec(N.r_[0, 0, 1.]), "v": [], "d": [],
            "e": [], "flux": False, "F": enc(0), "ca": enc(N.cos(ang)), "sa": enc(N.sin(ang)), "pi": enc(N.pi), "big": bool(big)}, ang

def disk(rng, big):
    st, ang = common(rng, big)
    R = f1([1., 10.**rng.uniform(-1, 1.5)][rng.randint(2)]); c = q(rng.uniform(-5, 5, (3, 1))); d = unit(rng)
    if rng.randint(4) == 0: c = N.zeros((3, 1))
    if rng.randint(4) == 0: c = N.round(c).astype(int)
    if rng.randint(6) == 0: R = int(rng.randint(1, 31))
    flux = None if rng.randint(3) == 0 else f1([rng.uniform(0, 1000), 10.**rng.uniform(-4, 4), 0., 1][[0, 0, 0, 1, 1, 2, 3][rng.randint(7)]])
    n = st["n"]
    st.update(op="disk", R=enc(R), c=vec(c), dir=vec(d), flux=flux is not None, F=enc(flux or 0.))
    keep = [c.copy(), d.copy()]
    def go():
        if rng.randint(2): b = solar_disk_bundle(n, c, d, R, ang) if flux is None else solar_disk_bundle(n, c, d, R, ang, flux)
        else: b = solar_disk_bundle(num_rays=n, center=c, direction=d, radius=R, ang_range=ang, flux=flux)
        st["v"] = cols(b.get_vertices()); st["d"] = cols(b.get_directions())
        if flux is not None: st["e"] = vec(b.get_energy())
    _, st["exc"] = guarded(go)
    st["same"] = bool(N.array_equal(keep[0], c) and N.array_equal(keep[1], d))
    return st

def pill(rng, big):
    st, ang = common(rng, big)
    n = st["n"]; st["op"] = "pill"
    def go(): st["d"] = cols(pillbox_sunshape_directions(n, ang))
    _, st["exc"] = guarded(go)
    return st

def square(rng):
    n = int([rng.randint(1, 40), rng.randint(1, 7)**2, rng.randint(1, 7)**2][rng.randint(3)])
    if rng.randint(6) == 0: n = int(rng.randint(40, 330) if rng.randint(2) else rng.randint(7, 18)**2)
    w = f1(rng.uniform(.3, 4)); c = q(rng.uniform(-5, 5, (3, 1))); d = unit(rng)
    if rng.randint(5) == 0: w = int(rng.randint(1, 4))
    side = int(N.ceil(N.sqrt(n)))
    st = {"op": "square", "exc": "", "same": True, "n": n, "w": enc(w), "side": side, "c": vec(c), "dir": vec(d), "v": [], "d": []}
    keep = [c.copy(), d.copy()]
    def go():
        b = square_bundle(n, c, d, w)
        st["v"] = cols(b.get_vertices()); st["d"] = cols(b.get_directions())
    _, st["exc"] = guarded(go)
    st["same"] = bool(N.array_equal(keep[0], c) and N.array_equal(keep[1], d))
    return st

def diffuse(rng):
    """Thousands of rays onto one diffuse surface."""
    g = geom.rand_geom(rng, ["plane", "plane", "rect", "disc", "sphere", "cyl", "dish"][rng.randint(7)])
    f = rand_frame(rng)
    st = {"op": "diffuse", "exc": "", "same": True, "g": geom.enc_geom(g), "chain": [mat(f)], "d": [], "out": []}
    single = rng.randint(4) == 0
    n = 3000 if single else 20000
    lv, ld = geom.rand_rays(rng, g, 60)
    def go():
        a = f1(rng.uniform(0, .9))
        s = Surface(geom.make_gm(g), [oc.LambertianReflector, oc.LambertianReceiver][rng.randint(2)](a), location=f[:3, 3].copy(), rotation=f[:3, :3].copy())
        # find rays that surely hit, then use them over and over
        def world(v, d):
            v = N.dot(f[:3, :3], v.T) + f[:3, 3:4]; d = N.dot(f[:3, :3], d.T)
            return v, d / N.sqrt((d**2).sum(axis=0))
        v, d = world(lv, ld)
        b = RayBundle(vertices=v, directions=d, energy=N.ones(60), ref_index=N.ones(60))
        t = N.array(s.register_incoming(b)); s.done()
        ok = N.nonzero(N.isfinite(t) & (t < 100) & (t > 1e-3))[0]
        if not len(ok): return
        if rng.randint(3) == 0: ok = ok[:1]                 # all the same ray
        k = ok[rng.randint(0, len(ok), n)]
        v, d = v[:, k], d[:, k]
        if single:                                          # one ray at a time
            for j in range(n):
                s.register_incoming(RayBundle(vertices=v[:, j:j+1].copy(), directions=d[:, j:j+1].copy(), energy=N.ones(1), ref_index=N.ones(1)))
                s.select_rays(N.arange(1))
                o = s.get_outgoing()
                ov, od = cols(o.get_vertices()), cols(o.get_directions())
                st["out"] += [{"par": p + j, "v": ov[m], "d": od[m]} for m, p in enumerate(ints(o.get_parents()))]
                s.done()
            st["d"] = cols(d)
            return
        b = RayBundle(vertices=v, directions=d, energy=N.ones(n), ref_index=N.ones(n))
        s.register_incoming(b); s.select_rays(N.arange(n))
        o = s.get_outgoing()
        ov, od = cols(o.get_vertices()), cols(o.get_directions())
        st["d"] = cols(d)
        st["out"] = [{"par": p, "v": ov[j], "d": od[j]} for j, p in enumerate(ints(o.get_parents()))]
        s.done()
    _, st["exc"] = guarded(go)
    return st if st["d"] or st["exc"] else None

if __name__ == "__main__":
    path, seed, size, rest = args()
    rng = N.random.RandomState(seed); N.random.seed(seed)
    out = Out(path); fam = rest[0]
    k = 0
    while k < size:
        if fam == "small":
            steps = [[disk, lambda r, b: square(r), pill][rng.randint(3)](rng, False) for _ in range(5)]
        elif fam == "big": steps = [[disk, disk, pill][k % 3](rng, True)]
        else:
            st = diffuse(rng)
            if st is None: continue
            steps = [st]
        k += 1
        out.put({"fam": fam, "cover": sorted(set(x["op"] for x in steps)), "steps": steps})
    out.close()
