"""Runs the real engine on abstract scenes (see spec/Engine.tla) and records what it did.

d_engine.py OUT SEED SIZE [SCENES.ndjson]   (scenes enumerated by TLC; else random ones)
"""
from hlib import *
from tracer.assembly import Assembly
from tracer.object import AssembledObject
from tracer.surface import Surface
from tracer.geometry_manager import GeometryManager
from tracer.ray_bundle import RayBundle
from tracer.tracer_engine import TracerEngine
from tracer.spatial_geometry import translate

MISS = 99
AX = [N.r_[1., 0, 0], N.r_[0, 1., 0], N.r_[0, 0, 1.], N.r_[-1., 0, 0], N.r_[0, -1., 0], N.r_[0, 0, -1.]]
ESC = 0.25                      # energy unit
PROBE = N.array([[0., 1., 0., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.]])

class StubGM(GeometryManager):
    def __init__(self, sid, sc, log):
        self.sid, self.sc, self.log = sid, sc, log
    def find_intersections(self, frame, bundle):
        GeometryManager.find_intersections(self, frame, bundle)
        self._b = bundle
        self.log.append([self.sid, "reg"])
        sc = self.sc
        m = [int(x) for x in bundle.get_mark()]
        t = N.array([sc["real"][sc["dist"][k - 1][self.sid - 1]] for k in m], dtype=float)
        self._t = t
        return t.copy()
    def select_rays(self, idxs):
        self.log.append([self.sid, "sel"])
        b = self._b
        self._pts = b.get_vertices()[:, idxs] + self._t[idxs][None, :] * b.get_directions()[:, idxs]
        self._n = len(idxs)
    def get_normals(self):
        return N.tile(N.c_[[0., 0., 1.]], (1, self._n))
    def get_intersection_points_global(self):
        return self._pts
    def done(self):
        self.log.append([self.sid, "done"])
        GeometryManager.done(self)
        for a in ("_pts", "_t", "_b"): self.__dict__.pop(a, None)

class StubOptics(object):
    def __init__(self, sid, sc, log):
        self.sid, self.sc, self.log = sid, sc, log
    def __call__(self, geometry, rays, selector):
        self.log.append([self.sid, "out"])
        selector = N.asarray(selector)
        pts = geometry.get_intersection_points_global()
        m = [int(x) for x in rays.get_mark()[selector]]
        kids = [self.sc["out"][k - 1][self.sid - 1] for k in m]
        depth = max([len(k) for k in kids] + [0])
        loc, ch = [], []
        for n in range(depth):
            for i, k in enumerate(kids):
                if n < len(k):
                    loc.append(i); ch.append(k[n])
        loc = N.array(loc, dtype=int)
        return rays.inherit(selector[loc], vertices=pts[:, loc],
            direction=N.array([AX[(c["m"] - 1) % 6] for c in ch]).reshape(-1, 3).T,
            energy=N.array([c["e"] * ESC for c in ch], dtype=float),
            parents=selector[loc],
            mark=N.array([c["m"] for c in ch], dtype=int),
            via=N.repeat(self.sid, len(ch)))

class StubObject(AssembledObject):
    """Answers ownership and relevancy from the tables, by the marks of the rays it is given."""
    def setup(self, sc, sids):
        self.sc, self.sids = sc, sids
    def own_rays(self, rays, surface_id):
        s = self.sids[surface_id]
        return N.array([self.sc["own"][int(k) - 1][s - 1] for k in rays.get_mark()], dtype=bool)
    def surfaces_for_next_iteration(self, rays, surface_id):
        s = self.sids[surface_id]
        r = N.ones((len(self.sids), rays.get_num_rays()), dtype=bool)
        for i, k in enumerate(rays.get_mark()):
            for j, t in enumerate(self.sids):
                r[j, i] = self.sc["rel"][int(k) - 1][s - 1][t - 1]
        return r

def build(sc, rng, log, late=None):
    """The scene as nested assemblies, in a random order and nesting.

    late -- if a list, some things are not added yet; calling its members in order adds them.
    """
    surfs = {}
    objs = []
    nobj = max(sc["surf"] + [0])
    frames = {}
    for o in range(1, nobj + 1):
        sids = [s for s in range(1, len(sc["surf"]) + 1) if sc["surf"][s - 1] == o]
        sids = [sids[i] for i in rng.permutation(len(sids))]
        sl = []
        for s in sids:
            surfs[s] = Surface(StubGM(s, sc, log), StubOptics(s, sc, log), location=N.r_[float(s), 0., 0.])
            sl.append(surfs[s])
        c = rng.randint(len(sl) + 1) if late is not None else len(sl)
        ob = StubObject(surfs=sl[:c]); ob.setup(sc, sids)
        for x in sl[c:]: late.append(lambda ob=ob, x=x: ob.add_surface(x))
        objs.append(ob)
    objs = [objs[i] for i in rng.permutation(len(objs))]
    if rng.randint(4) == 0:
        bare = StubObject(surfs=[]); bare.setup(sc, [])                  # an object without surfaces
        objs.insert(rng.randint(len(objs) + 1), bare)
    k = rng.randint(3)
    if k == 0 or not objs:
        asm = Assembly(objects=objs)
    elif k == 1:
        c = rng.randint(len(objs) + 1)
        asm = Assembly(objects=objs[:c], subassemblies=[Assembly(objects=objs[c:])])
    else:
        asm = Assembly()
        for o in objs:
            if rng.randint(2): f = lambda o=o: asm.add_object(o)
            else:
                sub = Assembly()
                f = lambda o=o, sub=sub: (sub.add_object(o, translate(0, 1., 0)), asm.add_assembly(sub))
            if late is not None and rng.randint(2): late.append(f)
            else: f()
    return asm, surfs

def source(sc, rng):
    n = len(sc["src"])
    # distinct dyadic starting points, exact in Num
    v = N.array([[i * 0.5, (i % 3) * 0.25, -0.125 * i] for i in range(n)], dtype=float).reshape(-1, 3).T
    b = RayBundle(vertices=v.copy(),
        directions=N.array([AX[(r["m"] - 1) % 6] for r in sc["src"]]).reshape(-1, 3).T.copy(),
        energy=N.array([r["e"] * ESC for r in sc["src"]], dtype=float),
        ref_index=N.array([1 + i for i in range(n)], dtype=float),
        mark=N.array([r["m"] for r in sc["src"]], dtype=int),
        via=N.zeros(n, dtype=int),
        src=N.arange(1, n + 1),
        pol=N.array([[i, -i] for i in range(1, n + 1)], dtype=float).reshape(-1, 2).T.copy())
    return b

def snap(b, first=False):
    """A bundle as the specification sees it."""
    n = b.get_num_rays()
    def prop(nm):
        f = getattr(b, "get_" + nm, None)
        return None if f is None else guarded(f)[0]
    def iv(nm):
        x = prop(nm)
        return [-1] * n if x is None else ints(x)
    e = [x / ESC for x in N.asarray(b.get_energy(), dtype=float)]
    pol = prop("pol")
    return {"n": n, "m": iv("mark"), "via": iv("via"), "src": iv("src"), "e": ints(e),
            "par": [-1] * n if first else iv("parents"), "ref": iv("ref_index"),
            "pol": [] if pol is None else [ints(c) for c in N.asarray(pol).T],
            "v": cols(b.get_vertices()), "d": cols(b.get_directions())}

def run(eng, sc, bund, tree, log, surfs):
    def frames():
        out = []
        for s in sorted(surfs):
            x, e = guarded(surfs[s].global_to_local, PROBE)
            out.append(None if e else N.array(x)); out.append(N.array(surfs[s].get_transform()))
        return out
    fr0 = frames()
    before = state_of(bund)
    del log[:]
    r, exc = guarded(eng.ray_tracer, bund, sc["reps"], sc["cut"], tree)
    if exc:
        return {"exc": exc}
    def grab():
        t = eng.tree
        lv = [snap(t[k], k == 0 and tree) for k in range(t.num_bunds())]
        hist = []
        if tree:
            op = [ints(p) for p in t.ordered_parents()]
            nb = t.num_bunds()
            for k in range(nb):
                if nb > 60 and k % 61 != 3 and k < nb - 1: continue
                nr = int(t[k].get_num_rays())
                for j in range(nr) if nr <= 6 else [0, 1, 2, nr - 3, nr - 2, nr - 1]:
                    last = k == t.num_bunds() - 1 and j % 2 == 1
                    h, ex = guarded(t.ray_history, j) if last else guarded(t.ray_history, j, k)
                    hist.append({"l": k, "j": j, "h": ints(h) if not ex else [], "exc": ex})
        else:
            op = []
        fr1 = frames()
        return {"exc": "", "lv": lv, "rv": cols(r[0]), "rd": cols(r[1]), "op": op, "hist": hist,
                "calls": [list(c) for c in log],
                "same": same_state(before, state_of(bund)),
                "frames": all(x is None or N.array_equal(x, y) for x, y in zip(fr0, fr1))}
    g, exc = guarded(grab)
    return g if not exc else {"exc": exc}

def observe(sc, rng, out, fam):
    log = []
    runs = []
    late = [] if rng.randint(4) == 0 else None
    built, exc = guarded(build, sc, rng, log, late)
    spec = {k: sc[k] for k in ("surf", "dist", "out", "own", "rel", "src", "reps", "min")}
    spec["len"] = [enc(x) if x < 1e5 else enc(0) for x in sc["len"]]
    if exc:
        runs.append({"exc": exc, "tree": True, "what": "build"})
    else:
        asm, surfs = built
        eng = TracerEngine(asm)
        if late is not None:                 # the scene is completed after the engine was given it
            if rng.randint(2): guarded(eng.ray_tracer, source(sc, rng), 1, 0.)
            guarded(lambda: [f() for f in late])
        b = source(sc, rng)
        plan = [("first", True, eng, b)]
        k = rng.randint(4) if sc["reps"] else 2
        if k == 0: plan.append(("again", True, eng, b))
        elif k == 1: plan.append(("other-engine", True, TracerEngine(asm), b))
        elif k == 2: plan.append(("no-tree", False, eng, b))
        else:
            plan.append(("fresh-source", True, eng, source(sc, rng)))
        for what, tree, e, bb in plan:
            g = run(e, sc, bb, tree, log, surfs)
            g["tree"] = tree; g["what"] = what
            runs.append(g)
        if rng.randint(3) == 0:          # the same scene put together in another order
            built, exc = guarded(build, sc, rng, log)
            if not exc:
                g = run(TracerEngine(built[0]), sc, source(sc, rng), True, log, built[1])
                g["tree"] = True; g["what"] = "reordered"; runs.append(g)
    sc_out = {"fam": fam, "sc": spec, "steps": runs,
              "own": any(any(r) for r in sc["own"]) or not all(all(all(x) for x in r) for r in sc["rel"])}
    out.put(sc_out)

def reals(rng):
    """Real distances for the classes 0, 1, 2, 3, ..."""
    tiny = [0., 1e-12, 1e-11, 1e-9, 1e-8, 1e-7, 9e-7][rng.randint(7)]
    k = rng.randint(7)
    step = [0.25, 1., 2.0**-12, 2.0**-16, 2.0**-19, 512., 2.0**-18][k]
    r = [0., q(tiny)] + [step * (i - 1) for i in range(2, 40)]
    if k in (3, 4) and rng.randint(2):
        r = [0., q(tiny)] + [step * (i - 1) if i < 5 else 0.5 * i for i in range(2, 40)]
    return [float(x) for x in r]

def fill(sc, rng):
    sc["len"] = reals(rng)
    sc["real"] = dict(enumerate(sc["len"])); sc["real"][MISS] = N.inf
    sc["cut"] = sc["min"] * ESC
    if sc["min"] > 0 and rng.randint(2):
        off = 2.0**-rng.randint(8, 34)
        if rng.randint(2): sc["cut"] += off                               # nothing lies between
        else: sc["cut"] -= off; sc["min"] -= 1                            # energy min is now above the cut-off
    return sc

def rand_scene(rng, own, crowd=0, vast=False, ages=False):
    M, S = rng.randint(1, 6), rng.randint(0 if rng.randint(12) == 0 else 1, 7)
    long = rng.randint(3) == 0           # rays that go on for many generations
    if long or own: M, S = rng.randint(2, 6), rng.randint(3, 7)
    size = rng.randint(30)
    wide, endless = size == 0 and not crowd, size == 1 and not crowd
    if vast: wide, endless = True, False
    if ages: wide, endless = False, True
    if wide: M, S = rng.randint(1, 4), rng.randint(12, 37)        # many surfaces
    if endless: long = True; M, S = rng.randint(2, 6), rng.randint(3, 7)
    if vast: M, S = 2, rng.randint(260, 300)                      # hundreds of objects
    nobj = rng.randint(min(2, S), S + 1) if S else 0
    surf = [int(rng.randint(1, nobj + 1)) for _ in range(S)]
    if vast: surf = list(range(1, S + 1)); surf[-1] = S - 1
    # objects are numbered without gaps
    used = sorted(set(surf)); surf = [used.index(x) + 1 for x in surf]
    miss = 0. if endless else rng.choice([0.02, 0.1] if long else [0.1, 0.2, 0.4] if own else [0.1, 0.4, 0.7])
    dist = []
    for m in range(M):
        real = list(rng.permutation(S) + 2)
        row = []
        for s in range(S):
            u = rng.uniform()
            row.append(MISS if u < miss else 0 if u < miss + 0.08 else 1 if u < miss + 0.16 else int(real[s]))
        if vast:
            few = rng.permutation(S)[:6].tolist() + [int(rng.randint(256, S))]
            row = [2 + few.index(s) if s in few else MISS for s in range(S)]
        dist.append(row)
    fade = rng.choice([0.02, 0.1] if long else [0.05, 0.1, 0.3] if own else [0.1, 0.3, 0.6])
    mn = int(rng.randint(0, 4))
    def ray():
        u = rng.uniform()
        e = mn if u < fade / 2 else max(mn - int(rng.randint(1, 3)), 0) if u < fade else mn + int(rng.randint(1, 4))
        return {"m": int(rng.randint(1, M + 1)), "e": int(e)}
    if endless: fade = 0.
    if vast: fade = .05
    split = 0. if endless else 0.05 if long else rng.choice([0.1, 0.35])
    outt = [[[ray() for _ in range(1 + (rng.uniform() < split) + (rng.uniform() < split / 3) - (rng.uniform() < (0. if endless else 0.01 if long else 0.05)))]
             for s in range(S)] for m in range(M)]
    po, pr = (rng.choice([0.2, 0.5]), rng.choice([0.2, 0.6])) if own else (0, 0)
    ow = [[bool(rng.uniform() < po) for s in range(S)] for m in range(M)]
    rel = [[[bool(rng.uniform() >= pr) for j in range(S)] for s in range(S)] for m in range(M)]
    src = [ray() for _ in range(rng.randint(0 if rng.randint(15) == 0 else 1, 7))]
    reps = rng.randint(5, 13) if long else rng.randint(2, 7) if own else 0 if rng.randint(15) == 0 else rng.randint(1, 6)
    if long: src = src[:3]
    if endless: reps = rng.randint(20, 45)
    if ages: reps = rng.randint(260, 290); src = [ray()]
    if vast: src = [ray() for _ in range(3)]
    if crowd: src = [ray() for _ in range(crowd)]; reps = min(reps, 3)
    return {"surf": surf, "dist": dist, "out": outt, "own": ow, "rel": rel, "src": src, "reps": int(reps), "min": mn}

def main():
    path, seed, size, rest = args()
    rng = N.random.RandomState(seed)
    out = Out(path)
    if rest:
        lines = open(rest[0]).read().splitlines()
        lo, step = int(rest[1]), int(rest[2])
        pick = list(range(lo, len(lines), step))
        if size and len(pick) > size:
            pick = sorted(rng.permutation(len(pick))[:size])
            pick = [lo + step * i for i in pick]
        for i in pick:
            observe(fill(json.loads(lines[i]), rng), rng, out, "model")
    else:
        for i in range(size):
            observe(fill(rand_scene(rng, i % 2 == 1, int(rng.randint(130, 300)) if i % 50 == 20 else 0, vast=i == 7, ages=i == 9), rng), rng, out, "random")
    out.close()

if __name__ == "__main__":
    main()
