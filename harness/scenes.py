"""Scenes made of parts (spec/Models.tla, Expand) and their counterparts in the code."""
from hlib import *
import geom
from tracer.assembly import Assembly
from tracer.object import AssembledObject
from tracer.surface import Surface
from tracer.ray_bundle import RayBundle
from tracer.tracer_engine import TracerEngine
from tracer import optics_callables as oc

def opt_spec(kind, a=0., n=(1., 1.5)):
    return {"k": kind, "a": float(a), "n": [float(x) for x in n]}

def enc_opt(o):
    return {"k": o["k"], "a": enc(o["a"]), "n": [enc(x) for x in o["n"]]}

def make_opt(o):
    k = o["k"]
    if k == "mirror": return oc.Reflective(0)
    return {"refl": oc.Reflective, "recv": oc.ReflectiveReceiver, "onesided": oc.AbsorberReflector,
            "lamb": oc.LambertianReflector, "lrecv": oc.LambertianReceiver}[k](o["a"]) if k != "refr" \
        else oc.RefractiveHomogenous(*o["n"])

class Part(object):
    """One object or model: what the specification is told, what is built, and its own frame."""
    def __init__(self, m, build, frame, sf=(), surfs=()):
        self.m, self.build, self.frame, self.sf = m, build, frame, [N.array(x) for x in sf]
    def axis(self, rng):
        """The local Z axis of one of the surfaces."""
        return self.sf[rng.randint(len(self.sf))][:3, 2] if self.sf else N.r_[0., 0., 1.]

class Scene(object):
    """A tree of assemblies: groups[k] = frame of the k-th sub-assembly (0: directly in the root)."""
    def __init__(self, parts, where, root, groups, prop=""):
        self.parts, self.where, self.root, self.groups, self.prop = parts, where, root, groups, prop
        self.books = {}
        self.now = len(parts)         # how many of the parts are there; the others come later
    def build(self):
        subs = []
        self.nodes = {"root": None, "g": [], "p": []}
        objs = [[] for _ in range(len(self.groups) + 1)]
        asms = [[] for _ in range(len(self.groups) + 1)]
        for p, w in list(zip(self.parts, self.where))[:self.now]:
            thing = p.build(self)
            thing.set_transform(p.frame.copy())
            self.nodes["p"].append(thing)
            (objs if isinstance(thing, AssembledObject) else asms)[w].append(thing)
        for k, f in enumerate(self.groups):
            a = Assembly(objects=objs[k + 1], subassemblies=asms[k + 1])
            a.set_transform(f.copy()); subs.append(a); self.nodes["g"].append(a)
        self.asm = Assembly(objects=objs[0], subassemblies=asms[0] + subs)
        if not N.array_equal(self.root, N.eye(4)): self.asm.set_transform(self.root.copy())
        self.nodes["root"] = self.asm
        return self.asm
    def grow(self):
        """One more part joins the scene."""
        p, w = self.parts[self.now], self.where[self.now]
        thing = p.build(self)
        to = self.nodes["g"][w - 1] if w else self.asm
        (to.add_object if isinstance(thing, AssembledObject) else to.add_assembly)(thing, p.frame.copy())
        self.nodes["p"].append(thing)
        self.now += 1
    def chains(self):
        return [[mat(self.root)] + ([mat(self.groups[w - 1])] if w else []) + [mat(p.frame)]
                for p, w in list(zip(self.parts, self.where))[:self.now]]
    def world(self, k):
        p, w = self.parts[k], self.where[k]
        f = self.root
        if w: f = N.dot(f, self.groups[w - 1])
        return N.dot(f, p.frame)
    def place(self, exc=""):
        return {"op": "place", "exc": exc, "ch": self.chains(), "sf": [[mat(x) for x in p.sf] for p in self.parts[:self.now]]}
    def head(self, fam, steps, cover=(), **kw):
        return dict({"fam": fam, "cover": [fam] + list(cover), "prop": self.prop, "parts": [p.m for p in self.parts], "steps": steps}, **kw)
    def frames(self):
        out = []
        for t in [self.nodes["root"]] + self.nodes["g"] + self.nodes["p"]:
            out.append(N.array(t.get_transform()))
        for x in self.asm.get_surfaces(): out.append(N.array(x.get_transform()))
        return out

# ---- ordinary objects

def optics_for(rng, kinds, acct):
    k = kinds[rng.randint(len(kinds))]
    a = float(q([0., 0.5, 0.25, rng.uniform()][rng.randint(4)]))
    o = opt_spec(k, a if k not in ("mirror",) else 0.)
    return o

def obj_part(rng, ns, kinds, next_acct, shared, spread=2.):
    surfs, sf, accts = [], [], []
    for _ in range(ns):
        g = geom.rand_geom(rng, GKINDS[rng.randint(len(GKINDS))], size=1.5)
        o = optics_for(rng, kinds, 0)
        a = 0
        if o["k"] in ("recv", "lrecv"):
            a = next_acct[0]; next_acct[0] += 1
            if a > 6: o = opt_spec("mirror"); a = 0
        f = rand_frame(rng, 1.)
        f[:3, 3] = q(f[:3, 3] + rng.uniform(-.3, .3, 3))        # no two surfaces at exactly the same place
        surfs.append((g, o, a)); sf.append(f)
    m = {"k": "obj", "skip": False, "surfs": [{"g": geom.enc_geom(g), "o": enc_opt(o), "acct": a} for g, o, a in surfs]}
    def build(scene):
        ss = []
        for (g, o, a), f in zip(surfs, sf):
            op = make_opt(o)
            if a: scene.books[a] = op
            ss.append(Surface(geom.make_gm(g), op, location=f[:3, 3].copy(), rotation=f[:3, :3].copy()))
        if piecewise:
            ob = AssembledObject(surfs=ss[:1])
            for x in ss[1:]: ob.add_surface(x)
            return ob
        return AssembledObject(surfs=ss)
    piecewise = rng.randint(3) == 0
    p = Part(m, build, rand_frame(rng, spread), sf)
    p.aim = lambda r: (lambda k: N.dot(sf[k][:3, :3], geom.aim_point(r, surfs[k][0])) + sf[k][:3, 3])(r.randint(len(surfs)))
    p.kinds = [g["k"] for g, _, _ in surfs] + [o["k"] for _, o, _ in surfs]
    return p

def osm_part(rng, spread=2.):
    from tracer.models.one_sided_mirror import rect_one_sided_mirror
    w, h = [float(x) for x in q(rng.uniform(0.5, 3, 2))]
    a = float(q([0., 1., 0.25, rng.uniform()][rng.randint(4)]))
    m = {"k": "osm", "w": enc(w), "h": enc(h), "a": enc(a)}
    p = Part(m, lambda sc: rect_one_sided_mirror(w, h, a) if a > 0 else rect_one_sided_mirror(w, h), rand_frame(rng, spread))
    p.aim = lambda r: N.r_[r.uniform(-.6, .6) * w, r.uniform(-.6, .6) * h, 0.]
    p.kinds = ["osm"]
    return p

def osr_part(rng, acct, spread=2.):
    from tracer.models.one_sided_mirror import one_sided_receiver
    w, h = [float(x) for x in q(rng.uniform(0.5, 3, 2))]
    a = float(q([0., 1., 0.25, rng.uniform()][rng.randint(4)]))
    m = {"k": "osr", "w": enc(w), "h": enc(h), "a": enc(a), "acct": acct}
    def build(sc):
        front, obj = one_sided_receiver(w, h, a) if a < 1 or rng.randint(2) else one_sided_receiver(w, h)
        sc.books[acct] = front.get_optics_manager()
        return obj
    p = Part(m, build, rand_frame(rng, spread))
    p.aim = lambda r: N.r_[r.uniform(-.6, .6) * w, r.uniform(-.6, .6) * h, 0.]
    p.kinds = ["osr"]
    return p

GKINDS = ["rect", "disc", "tri", "sphere", "hemi", "cut", "fcyl", "dish", "hex", "rect", "disc", "plane", "cyl", "parab"]

# ---- rays

def aimed(rng, scene, n, dist=4.):
    V, D = [], []
    for _ in range(n):
        k = rng.randint(scene.now)
        f = scene.world(k)
        a = N.dot(f[:3, :3], scene.parts[k].aim(rng)) + f[:3, 3]
        c = rng.randint(6)
        if c == 5:                             # nearly along or nearly across a surface's axis
            z = N.dot(f[:3, :3], scene.parts[k].axis(rng))
            if rng.randint(2): w = z + rand_unit(rng) * 10**rng.uniform(-4, -1)
            else:
                w = N.cross(z, rand_unit(rng)); w = w / N.sqrt((w**2).sum()) + z * 10**rng.uniform(-3, -1) * rng.choice([-1, 1])
            v = a + w * rng.uniform(0.5, dist) * rng.choice([-1, 1])
        elif c == 0:
            v = a + rand_unit(rng) * rng.uniform(0.2, 1.)
        elif c == 1:
            v = rng.uniform(-dist, dist, 3)
            a = v + rand_unit(rng)
        else:
            v = a + rand_unit(rng) * rng.uniform(0.5, dist)
        d = a - v
        l = N.sqrt((d**2).sum())
        if l < 1e-3: d = N.r_[0., 0., -1.]; l = 1.
        V.append(v); D.append(d / l)
    v = q(N.array(V).reshape(-1, 3).T); d = N.array(D).reshape(-1, 3).T
    return v, d / N.sqrt((d**2).sum(axis=0))

def rays(rng, v, d, index=(1.,), energy=None):
    n = v.shape[1]
    e = q((rng.uniform(0.5, 10, n) if rng.randint(3) else 10**rng.uniform(-3, 3, n)) if energy is None else energy)
    m = N.array(index)[rng.randint(0, len(index), n)]
    return {"v": v, "d": d, "e": e, "m": m, "mark": N.arange(1, n + 1)}

def bundle(r):
    return RayBundle(vertices=r["v"].copy(), directions=r["d"].copy(), energy=r["e"].copy(), ref_index=r["m"].copy(), mark=r["mark"].copy())

def pick(r, idx):
    idx = N.asarray(idx, dtype=int)
    return {"v": r["v"][:, idx], "d": r["d"][:, idx], "e": r["e"][idx], "m": r["m"][idx], "mark": r["mark"][idx]}

def snap(b, mn=0., source=False):
    n = int(b.get_num_rays())
    if n == 0: return {"n": 0, "par": [], "v": [], "d": [], "e": [], "m": [], "mark": [], "strong": []}
    par = [-1] * n if source else ints(b.get_parents())
    return {"n": n, "par": par, "v": cols(b.get_vertices()), "d": cols(b.get_directions()), "e": vec(b.get_energy()),
            "m": vec(b.get_ref_index()), "mark": ints(b.get_mark()),
            "strong": [bool(x > mn) for x in N.asarray(b.get_energy()).ravel()]}

def levels(engine, mn):
    t = engine.tree
    return [snap(t[k], mn, k == 0) for k in range(int(t.num_bunds()))]

def trace(scene, engine, r, reps, mn, cmp="", keep=False):
    st = {"op": "trace", "exc": "", "reps": reps, "min": enc(mn), "lv": [], "same": True, "frames": True, "cmp": cmp, "keep": keep,
          "src": {"mark": ints(r["mark"]), "v": cols(r["v"])}}
    def go():
        b = bundle(r)
        was = state_of(b)
        before = scene.frames()
        engine.ray_tracer(b, reps, mn, tree=True)
        st["lv"] = levels(engine, mn)
        st["same"] = same_state(was, state_of(b))
        after = scene.frames()
        st["frames"] = len(before) == len(after) and all(N.array_equal(x, y) for x, y in zip(before, after))
    _, st["exc"] = guarded(go)
    return st

def sampled(engine, mn, some):
    """The recorded bundles, cut down to the given source rays and what the record says came of them."""
    t = engine.tree; out = []; at = N.asarray(some, dtype=int)
    for k in range(int(t.num_bunds())):
        b = t[k]
        if k:
            par = N.asarray(b.get_parents()); at = N.nonzero(N.in1d(par, up))[0]
            place = dict((int(x), y) for y, x in enumerate(up))
        if len(at) == 0: out.append(snap(RayBundle.empty_bund(), mn)); up = at; continue
        l = {"n": len(at), "par": [-1] * len(at) if k == 0 else [place[int(x)] for x in par[at]],
             "v": cols(b.get_vertices()[:, at]), "d": cols(b.get_directions()[:, at]), "e": vec(b.get_energy()[at]),
             "m": vec(b.get_ref_index()[at]), "mark": ints(b.get_mark()[at]), "strong": [bool(x > mn) for x in b.get_energy()[at]]}
        out.append(l); up = at
    return out

def trace_many(scene, engine, r, reps, mn, some):
    """A trace of more rays than can be looked at one by one: some of them are."""
    st = {"op": "trace", "exc": "", "reps": reps, "min": enc(mn), "lv": [], "same": True, "frames": True, "cmp": "", "keep": False,
          "src": {"mark": ints(r["mark"][some]), "v": cols(r["v"][:, some])}}
    def go():
        b = bundle(r)
        engine.ray_tracer(b, reps, mn, tree=True)
        st["lv"] = sampled(engine, mn, some)
    _, st["exc"] = guarded(go)
    return st

def query(scene, a, rng=None):
    def look():
        e, p = scene.books[a].get_all_hits()
        h = {"e": vec(e), "p": cols(p)}
        return h
    h, exc = guarded(look)
    return {"op": "query", "exc": exc, "acct": a, "hits": h if h else {"e": [], "p": []}}

def ledger(scene):
    def look():
        out = []
        for a in sorted(scene.books): out += vec(scene.books[a].get_all_hits()[0])
        return out
    h, exc = guarded(look)
    return {"op": "ledger", "exc": exc, "got": h or []}

def reset(scene):
    def go():
        for a in scene.books: scene.books[a].reset()
    _, exc = guarded(go)
    return {"op": "reset", "exc": exc}
