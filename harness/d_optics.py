"""Optics managers on real surfaces, receivers' books, and the optics functions."""
from hlib import *
import geom
from tracer.surface import Surface
from tracer.ray_bundle import RayBundle
from tracer import optics, optics_callables as oc

def rand_optics(rng, kind):
    a = float(q([0., 1., 0.25, 0.5][rng.randint(4)] if rng.randint(2) else rng.uniform()))
    n1 = 1.0 if rng.randint(2) else float(q(rng.uniform(1, 2.5)))
    n2 = [1.5, 1.0, float(q(rng.uniform(1, 2.5)))][rng.randint(3)]
    if rng.randint(8) == 0: n2 = float(q(n1 * (1 + 10**rng.uniform(-5, -2))))
    if rng.randint(2): n1, n2 = n2, n1
    o = {"k": kind, "a": a, "n": [n1, n2]}
    mk = {"mirror": lambda: oc.perfect_mirror if rng.randint(2) else oc.Reflective(0), "refl": lambda: oc.Reflective(a),
          "recv": lambda: (oc.AbsorptionAccountant(oc.Reflective, a) if a < 1 else oc.AbsorptionAccountant(oc.Reflective)) if rng.randint(3) == 0 else
          oc.ReflectiveReceiver(a) if a < 1 else oc.ReflectiveReceiver(), "onesided": lambda: oc.AbsorberReflector(a),
          "refr": lambda: oc.RefractiveHomogenous(n1, n2), "lamb": lambda: oc.LambertianReflector(a),
          "lrecv": lambda: oc.LambertianReceiver(a) if a < 1 else oc.LambertianReceiver()}[kind]
    if kind == "mirror": o["a"] = 0.
    return o, mk

def enc_optics(o):
    return {"k": o["k"], "a": enc(o["a"]), "n": [enc(x) for x in o["n"]]}

def snap_rays(b):
    e = b.get_energy(); m = b.get_ref_index(); mk = b.get_mark(); par = b.get_parents()
    v, d = cols(b.get_vertices()), cols(b.get_directions())
    return [{"par": p, "v": v[k], "d": d[k], "e": enc(e[k]), "m": enc(m[k]), "mark": x}
            for k, (p, x) in enumerate(zip(ints(par), ints(mk)))]

def critical_rays(rng, o, n):
    """Local rays on a flat surface around the critical angle."""
    hi, lo = max(o["n"]), min(o["n"])
    V, D = [], []
    for _ in range(n):
        if rng.randint(3) == 0: s = [lo, hi][rng.randint(2)] / N.hypot(lo, hi)         # Brewster's angle, from either side
        elif rng.randint(8) == 0: s = [0., N.sqrt(.5), .5, .6][rng.randint(4)]
        else: s = min(lo / hi * [1., 1 - 1e-15, 1 + 1e-15, 1 - 1e-9, 1 + 1e-9, 1 - 1e-3, 1 + 1e-3][rng.randint(7)], 1.)
        a = rng.uniform(0, 2 * N.pi) if rng.randint(2) else 0.
        d = N.r_[s * N.cos(a), s * N.sin(a), -N.sqrt(max(1 - s * s, 0))]
        if rng.randint(2): d[2] *= -1
        V.append(-d + N.r_[rng.uniform(-.1, .1, 2), 0]); D.append(d)
    return N.array(V), N.array(D)

def scenario(rng, out, kind, many=False):
    g = geom.rand_geom(rng, (geom.FLAT + geom.CURVED)[rng.randint(12)] if rng.randint(3) else ["plane", "rect", "disc"][rng.randint(3)])
    whole = rng.randint(10) == 0
    if whole: g = geom.whole_geom(rng, g["k"])
    o, mk = rand_optics(rng, kind)
    st0 = {"op": "go", "exc": "", "chain": [], "v": [], "sel": [], "out": [], "t": []}
    def build():
        f = geom.whole_frame(rng) if whole else rand_frame(rng)
        opt = mk()
        return f, opt, Surface(geom.make_gm(g), opt, location=f[:3, 3].copy(), rotation=f[:3, :3].copy())
    r, exc = guarded(build)
    steps = []
    head = {"fam": kind, "cover": [kind, "on-" + g["k"]] + ["whole"] * whole, "g": geom.enc_geom(g), "o": enc_optics(o), "steps": steps}
    if exc:
        steps.append(dict(st0, exc=exc)); out.put(head); return
    f, opt, surf = r
    recv = kind in ("recv", "lrecv")
    def query():
        def look():
            e, p = opt.get_all_hits()
            h = {"e": vec(e), "p": cols(p)}
            if rng.randint(2): e *= 0; p *= 0                   # the caller may do as he likes with the answer
            return h
        h, exc = guarded(look)
        steps.append({"op": "query", "exc": exc, "hits": h})
    if recv and rng.randint(2): query()
    for rnd in range(rng.randint(1, 5 if recv else 3) if not recv or rng.randint(40) else rng.randint(12, 40)):
        n = [0, 1, 1, 2, 4, 8][rng.randint(6)] if rnd else [1, 2, 4, 8][rng.randint(4)]
        if kind == "refr" and geom.rand_geom and g["k"] in geom.FLAT and rng.randint(2):
            lv, ld = critical_rays(rng, o, max(n, 1)); n = len(lv)
        else:
            if rng.randint(100) == 0: n = 120
            if many and not rnd: n = int(rng.randint(1000, 2600))
            lv, ld = (geom.whole_rays if whole else geom.rand_rays)(rng, g, n)
        v = q(N.dot(f[:3, :3], lv.T) + f[:3, 3:4]).reshape(3, -1); d = N.dot(f[:3, :3], ld.T).reshape(3, -1)
        if whole and ld.dtype == int: v, d = N.round(v).astype(int), N.round(d).astype(int)
        else: d = d / N.sqrt((d**2).sum(axis=0))
        e = q([rng.uniform(0, 10, n), N.zeros(n), rng.uniform(0, 1000, n), N.ones(n), 10**rng.uniform(-4, 4, n)][rng.randint(5)])
        if whole and rng.randint(2): e = N.ceil(e).astype(int)
        m = N.array(o["n"])[rng.randint(0, 2, n)]
        if rng.randint(3) == 0: m[:] = o["n"][0]
        mark = rng.randint(1, 100, n)
        b = RayBundle(vertices=v.copy(), directions=d.copy(), energy=e.copy(), ref_index=m.copy(), mark=mark.copy())
        st = dict(st0, chain=[mat(f)], v=cols(v), d=cols(d), e=vec(e), m=vec(m), mark=ints(mark), same=True, alone=[])
        def alone(j):
            """A surface like this one, given one of the rays by itself."""
            one = Surface(geom.make_gm(g), mk(), location=f[:3, 3].copy(), rotation=f[:3, :3].copy())
            t = N.array(one.register_incoming(RayBundle(vertices=v[:, j:j+1].copy(), directions=d[:, j:j+1].copy(), energy=e[j:j+1].copy(), ref_index=m[j:j+1].copy(), mark=mark[j:j+1].copy())), dtype=float)[0]
            one.select_rays(N.r_[0])
            a = {"j": int(j) + 1, "t": enc(t), "out": snap_rays(one.get_outgoing())}
            one.done()
            st["alone"].append(a)
        def look():
            t = N.array(surf.register_incoming(b), dtype=float)
            st["t"] = vec(N.where(t > 1e6, N.inf, t))       # farther than anything: a miss
            hit = N.nonzero(N.isfinite(t) & (t < 200) & (t > 1e-5))[0]
            if len(hit) and rng.randint(3) == 0: hit = hit[rng.permutation(len(hit))[:rng.randint(1, len(hit) + 1)]]
            if len(hit) or rng.randint(3) == 0:
                surf.select_rays(hit)
                st["sel"] = ints(hit)
                ob = surf.get_outgoing()
                st["out"] = snap_rays(ob) if ob.get_num_rays() else []
            surf.done()
            if len(hit) > 1:
                for j in rng.permutation(hit)[:3]: alone(j)
            st["same"] = bool(N.array_equal(b.get_vertices(), v) and N.array_equal(b.get_directions(), d) and N.array_equal(b.get_energy(), e)
                and N.array_equal(b.get_ref_index(), m) and N.array_equal(b.get_mark(), mark))
        _, st["exc"] = guarded(look)
        steps.append(st)
        if st["exc"]: break
        if recv:
            for _ in range(rng.randint(0, 3)): query()
            if rng.randint(3) == 0:
                _, exc = guarded(opt.reset); steps.append({"op": "reset", "exc": exc})
                if rng.randint(2): query()
    if recv and not steps[-1]["exc"]: query()
    out.put(head)

def functions(rng, out):
    steps = []
    for _ in range(rng.randint(1, 4)):
        n = rng.randint(1, 8)
        d = N.array([rand_unit(rng) for _ in range(n)]).T
        nr = N.array([rand_unit(rng) for _ in range(n)]).T
        for j in range(n):
            k = rng.randint(6)
            if k == 0: nr[:, j] = d[:, j]
            elif k == 1: nr[:, j] = -d[:, j]
            elif k == 2:                            # grazing
                p = N.cross(d[:, j], rand_unit(rng)); p = p / N.sqrt((p**2).sum()) + d[:, j] * 10**rng.uniform(-3, -1) * [1., -1.][rng.randint(2)]
                nr[:, j] = p / N.sqrt((p**2).sum())
        ns = q(rng.uniform(1, 2.5, (2, n)))
        if rng.randint(4) == 0: ns[:] = ns[:, :1]
        if rng.randint(6) == 0: ns[1] = ns[0]
        elif rng.randint(6) == 0: ns[1] = q(ns[0] * (1 + 10**rng.uniform(-5, -2)) ** rng.choice([-1, 1]))
        op = ["reflections", "refractions", "fresnel", "hartmann"][rng.randint(4)]
        st = {"op": op, "d": cols(d), "n": cols(nr), "n1": vec(ns[0]), "n2": vec(ns[1]), "mask": [], "out": [],
              "prop": "C14" if op == "reflections" else "C15"}
        scalar = N.all(ns == ns[:, :1]) and rng.randint(2)
        n1, n2 = (float(ns[0, 0]), float(ns[1, 0])) if scalar else (ns[0].copy(), ns[1].copy())
        def look():
            if op == "reflections": st["out"] = cols(optics.reflections(d.copy(), nr.copy()))
            elif op == "refractions":
                mk, o = optics.refractions(n1, n2, d.copy(), nr.copy())
                st["mask"] = [bool(x) for x in mk]; st["out"] = cols(o)
            elif op == "fresnel":
                st["out"] = vec(optics.fresnel(d.copy(), nr.copy(), n1, n2))
            else:
                k = q(N.r_[rng.uniform(1, 2), rng.uniform(0, 1), rng.uniform(-3, -1), rng.uniform(0, 1), rng.uniform(-3, -1)])
                L = q(rng.uniform(0.3, 2, n))
                st["k"] = vec(k); st["d"] = vec(L); st["out"] = vec(optics.refr_idx_hartmann(L, *k))
        _, st["exc"] = guarded(look)
        steps.append(st)
        if st["exc"]: break
    out.put({"fam": "functions", "cover": ["fn-" + x["op"] for x in steps], "steps": steps})

KINDS = ["refr", "refl", "refr", "recv", "onesided", "mirror", "refr", "lamb", "lrecv", "recv"]
SETS = {"all": KINDS + ["fn"], "mirror": ["refl", "mirror", "recv", "onesided", "refr", "fn"], "refr": ["refr", "refr", "fn"],
        "energy": KINDS, "recv": ["recv", "lrecv"], "diffuse": ["lamb", "lrecv"]}

def main():
    path, seed, size, rest = args()
    rng = N.random.RandomState(seed); N.random.seed(seed)
    out = Out(path)
    ks = SETS[rest[0] if rest else "all"]
    for i in range(size):
        k = ks[i % len(ks)]
        if k == "fn": functions(rng, out)
        else: scenario(rng, out, k, i in (len(ks), 2 * len(ks) + 1))
    out.close()

if __name__ == "__main__":
    main()
