"""Heliostat fields: d_field.py OUT SEED SIZE"""
from hlib import *
from tracer.models.heliostat_field import HeliostatField, solar_vector, radial_stagger
from tracer.assembly import Assembly
from tracer.ray_bundle import RayBundle
from tracer.tracer_engine import TracerEngine

def f1(x): return float(q(x))
def cs(a): return enc(N.cos(a)), enc(N.sin(a))

def spread(rng, n, gap):
    """n positions at least gap apart."""
    P = []
    while len(P) < n:
        p = N.r_[rng.uniform(-30, 30, 2), [0., 0., rng.uniform(-3, 3), rng.uniform(-20, 60)][rng.randint(4)]]
        if rng.randint(6) == 0: p = N.r_[rng.randint(-30, 31, 2), 0.]
        if N.abs(p[:2]).max() > 1 and all(N.sqrt(((p - o)**2).sum()) > gap for o in P): P.append(q(p))
    return N.array(P).reshape(-1, 3)

def height(rng):
    return f1([rng.uniform(5, 40), rng.uniform(3, 50), rng.uniform(-15, 5), 0., float(rng.randint(1, 30))][rng.randint(5)])

def scenario(rng, out):
    n = rng.randint(1, 7) if rng.randint(20) else rng.randint(15, 40)
    w, h, a, th = f1(rng.uniform(.5, 3)), f1(rng.uniform(.5, 3)), f1([0., .1, rng.uniform()][rng.randint(3)]), height(rng)
    pos = spread(rng, n, 2 * N.hypot(w, h))
    kind = rng.randint(4)
    given = pos.astype(int) if (kind == 0 and N.array_equal(pos, N.round(pos))) else pos.tolist() if kind == 1 else pos.copy()
    steps = []; cover = set()
    hf, exc = guarded(lambda: HeliostatField(given, w, h, a, th))
    steps.append({"op": "build", "exc": exc, "pos": cols(pos.T), "th": enc(th)})
    want = N.array(given, dtype=float)
    frames = []
    if rng.randint(3) == 0: frames.append(rand_frame(rng, 5.))
    nest = rng.randint(3) == 0
    if nest: frames.insert(0, rand_frame(rng, 5.))
    st = {"sun": None, "nrm": None}
    top = [None]
    def place():
        if len(frames) > (1 if nest else 0): hf.set_transform(frames[-1].copy())
        top[0] = hf
        if nest: top[0] = Assembly(subassemblies=[hf]); top[0].set_transform(frames[0].copy())
    def world():
        f = N.eye(4)
        for x in frames: f = N.dot(f, x)
        return f
    def look():
        s = {"op": "look", "exc": "", "loc": [], "z": [], "same": True}
        def go():
            hs = hf.get_heliostats()
            s["loc"] = [vec(x.get_location()) for x in hs]
            s["z"] = [vec(x.get_transform()[:3, 2]) for x in hs]
        _, s["exc"] = guarded(go)
        s["same"] = bool(N.array_equal(N.array(given, dtype=float), want))
        steps.append(s)
    def shoot():
        s = {"op": "shoot", "exc": "", "a": enc(a), "near": enc(.495 * min(w, h)), "far": enc(.51 * N.hypot(w, h)), "reach": enc(1.2 * N.hypot(w, h)), "chain": [mat(f) for f in frames], "shots": []}
        V, D, S = [], [], []
        for _ in range(rng.randint(1, 10)):
            k = rng.randint(n)
            sun = st["sun"] is not None and rng.randint(4) > 0
            u = st["sun"] if sun else rand_unit(rng)
            off = N.zeros(3)
            if rng.randint(2):         # off the centre, in the plane the mirror should be in: the nearest corner is further away
                nrm = st["nrm"][k] if st["nrm"] is not None else N.r_[0., 0., -1.]
                o = rng.uniform(-1, 1, 3); o -= N.dot(o, nrm) * nrm
                off = q(o * .2 * min(w, h))
                if rng.randint(3) == 0:
                    l = N.sqrt((o**2).sum())
                    if l > .1: off = q(o / l * [.49 * min(w, h), .52 * N.hypot(w, h), rng.uniform(.52, .8) * N.hypot(w, h)][rng.randint(3)])
            v = q(pos[k] + off + u * .3 * min(w, h))
            e = f1(rng.uniform(.5, 2))
            S.append({"h": int(k) + 1, "u": vec(u), "off": vec(off), "v": vec(v), "e": enc(e), "sun": bool(sun), "out": [], "_e": e})
            V.append(v); D.append(-u)
        f = world()
        v = N.dot(f[:3, :3], N.array(V).T) + f[:3, 3:4]; d = N.dot(f[:3, :3], N.array(D).T)
        d /= N.sqrt((d**2).sum(axis=0))
        def go():
            e = TracerEngine(top[0])
            e.ray_tracer(RayBundle(vertices=v, directions=d, energy=N.array([x["_e"] for x in S]), ref_index=N.ones(len(S))), 1, 0.)
            if e.tree.num_bunds() < 2: return
            b = e.tree[1]
            for j in range(b.get_num_rays()):
                S[int(b.get_parents()[j])]["out"].append({"v": vec(b.get_vertices()[:, j]), "d": vec(b.get_directions()[:, j]), "e": enc(b.get_energy()[j])})
        _, s["exc"] = guarded(go)
        for x in S: del x["_e"]
        s["shots"] = S
        steps.append(s)
    if not exc:
        _, exc = guarded(place)
        look()
        if rng.randint(2): shoot()
        for _ in range(rng.randint(2, 7)):
            k = rng.randint(6)
            if k <= 2:
                az = [rng.uniform(-N.pi, 3 * N.pi), 0., N.pi / 2, N.pi][min(3, rng.randint(8))]
                el = [0., rng.uniform(0.01, 1.5), rng.uniform(0.01, 1.5), rng.uniform(1.2, 3.1), N.pi / 2, rng.uniform(1.3, 1.57)][rng.randint(6)]
                (ca, sa), (ce, se) = cs(az), cs(el)
                r, exc = guarded(lambda: hf.aim_to_sun(az, el))
                steps.append({"op": "aim", "exc": exc, "ca": ca, "sa": sa, "ce": ce, "se": se}); cover.add("aim")
                if exc: break
                st["sun"] = N.r_[-N.sin(az) * N.sin(el), -N.cos(az) * N.sin(el), N.cos(el)]
                t = N.r_[0, 0, th] - pos; t /= N.sqrt((t**2).sum(axis=1))[:, None]
                b = t + st["sun"]; st["nrm"] = b / N.maximum(N.sqrt((b**2).sum(axis=1)), 1e-9)[:, None]
                look(); shoot()
                o, exc = guarded(lambda: solar_vector(az, el))
                steps.append({"op": "sun", "exc": exc, "ca": ca, "sa": sa, "ce": ce, "se": se, "out": [] if exc else vec(o)})
            elif k == 3:
                th = height(rng)
                r, exc = guarded(lambda: hf.set_aim_height(th))
                steps.append({"op": "raise", "exc": exc, "h": enc(th)}); cover.add("raise")
                look()
            elif k == 4:
                shoot()
            else:           # the caller uses his array for something else
                if isinstance(given, N.ndarray):
                    given[...] = rng.randint(5, 9); want = N.array(given, dtype=float)
                    cover.add("scribble"); look()
    out.put({"fam": "field", "cover": sorted(cover) + ["nested"] * nest, "steps": steps})

def stagger(rng, out):
    steps = []
    for _ in range(4):
        a0 = f1(rng.uniform(-4, 4)); a1 = f1(a0 + rng.uniform(-.1, 6)); az = f1(rng.uniform(.1, 1.5))
        r0 = f1(rng.uniform(1, 10)); r1 = f1(r0 + rng.uniform(-.2, 20)); dr = f1(rng.uniform(.7, 4))
        o, exc = guarded(lambda: radial_stagger(a0, a1, az, r0, r1, dr))
        st = {"op": "stagger", "exc": exc, "a0": enc(a0), "a1": enc(a1), "az": enc(az), "rmin": enc(r0), "rmax": enc(r1), "dr": enc(dr),
              "cs0": list(cs(a0)), "csh": list(cs(az / 2)), "out": []}
        if not exc: st["out"] = [vec(x) for x in N.asarray(o)]
        steps.append(st)
    out.put({"fam": "stagger", "cover": ["stagger"], "steps": steps})

if __name__ == "__main__":
    path, seed, size, rest = args()
    rng = N.random.RandomState(seed); out = Out(path)
    for k in range(size):
        if k % 6 == 5: stagger(rng, out)
        else: scenario(rng, out)
    out.close()
