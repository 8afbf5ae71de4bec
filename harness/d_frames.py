"""Histories of building and moving scenes."""
from hlib import *
from tracer.assembly import Assembly
from tracer.object import AssembledObject
from tracer.surface import Surface
from tracer.geometry_manager import GeometryManager
from tracer.boundary_shape import BoundarySphere, BoundaryCylinder, BoundaryPlane
from tracer.ray_bundle import RayBundle
from tracer.tracer_engine import TracerEngine

class LookGM(GeometryManager):
    """Misses everything; remembers the frame it was given, offers a small mesh."""
    grid = N.array([[[0., 1.], [0., 2.]], [[0., 0.5], [1., -1.]], [[0., 0.], [0.25, 2.]]])
    def find_intersections(self, frame, bundle):
        GeometryManager.find_intersections(self, frame, bundle)
        self.seen = N.array(frame, dtype=float)
        return N.repeat(N.inf, bundle.get_num_rays())
    def mesh(self, resolution):
        return self.grid[0], self.grid[1], self.grid[2]

PTS = N.array([[0., 0, 0], [1, 2, 3], [-1.5, 0.25, 2], [4, -3, 1]])

def probe():
    return RayBundle(vertices=N.zeros((3, 1)), directions=N.array([[0.], [0.], [1.]]), energy=N.ones(1))

class World(object):
    def __init__(self, rng):
        self.rng = rng; self.nodes = []; self.kind = []; self.par = []; self.steps = []
        self.shared = []           # arrays passed to setters, kept by the caller
        self.cover = set()
    def rot(self):
        k = self.rng.randint(4)
        if k == 0: return rot_axis(N.eye(3)[self.rng.randint(3)], *[(0., 1.), (-1., 0.), (0., -1.)][self.rng.randint(3)]).astype(int)
        if k == 1: return N.eye(3)
        return N.asfortranarray(q(rand_rot(self.rng))) if self.rng.randint(4) == 0 else q(rand_rot(self.rng))
    def loc(self):
        if self.rng.randint(8) == 0: return N.zeros(3, dtype=[float, int][self.rng.randint(2)])      # back to the origin
        if self.rng.randint(3) == 0: return self.rng.randint(-3, 4, 3).astype([int, int, N.int32, N.float32][self.rng.randint(4)])
        if self.rng.randint(8) == 0: return N.round(self.rng.uniform(-3, 3, 3) * 1024).astype(N.float32) / N.float32(1024)
        if self.rng.randint(8) == 0: return q(self.rng.uniform(-300, 300, 6))[::2]
        return q(self.rng.uniform(-3, 3, 3))
    def fr(self):
        f = N.eye(4); f[:3, :3] = self.rot(); f[:3, 3] = self.loc()
        if self.rng.randint(5) == 0:
            f[:3, :3] = N.round(f[:3, :3]) if False else N.eye(3); f[:3, 3] = self.rng.randint(-3, 4, 3); f = f.astype(int)
        return f
    def keep(self, *arrs):
        """The caller's own arrays: passed, later perhaps passed again or written over."""
        self.shared.extend(a for a in arrs if a is not None)
        return [None if a is None else a.copy() for a in arrs]
    def observe(self):
        rng = self.rng
        ns = range(len(self.nodes))
        o = {"get": [], "surf": [], "g2l": [], "mesh": [], "bnd": [], "list": []}
        surfs = [n for n in ns if self.kind[n] == "surf"]
        for n in ns:
            x = self.nodes[n]
            o["get"].append({"tr": mat(x.get_transform()), "loc": vec(x.get_location()), "rot": mat(x.get_rotation())})
        for n in surfs:
            x = self.nodes[n]
            x.register_incoming(probe())
            o["surf"].append({"n": n + 1, "wf": mat(x.get_geometry_manager().seen)})
            x.done()
        if surfs:
            n = surfs[rng.randint(len(surfs))]; x = self.nodes[n]
            k = rng.randint(1, len(PTS) + 1)
            o["g2l"].append({"n": n + 1, "pts": cols(PTS[:k].T), "out": cols(x.global_to_local(PTS[:k].T.copy()))})
            n = surfs[rng.randint(len(surfs))]; x = self.nodes[n]
            mx = x.mesh(1.)
            o["mesh"].append({"n": n + 1, "pts": cols(LookGM.grid.reshape(3, -1)), "out": cols(N.array([N.asarray(c).ravel() for c in mx]))})
        for n in ns:
            if self.kind[n] != "bnd": continue
            x = self.nodes[n]
            pts = q(rng.uniform(-6, 6, (5, 3)))
            k = rng.randint(1, 6); pts = pts[:k]
            ans = x.in_bounds(pts)
            sh, r = self.bnd[n]
            o["bnd"].append({"n": n + 1, "shape": sh, "r": enc(r), "pts": cols(pts.T), "ans": ["T" if a else "F" for a in ans]})
        for n in ns:
            if self.kind[n] in ("obj", "asm"):
                x = self.nodes[n]
                def ids(l): return [([m + 1 for m in ns if self.nodes[m] is y] or [0])[0] for y in l]
                o["list"].append({"n": n + 1, "surfs": ids(x.get_surfaces()),
                                  "objs": ids(x.get_objects()) if self.kind[n] == "asm" else [],
                                  "own": ids(x.get_local_objects() + x.get_assemblies()) if self.kind[n] == "asm" else ids(x.get_surfaces() + x.get_boundaries())})
        return o
    def step(self, op, fn, arrs=(), **kw):
        cp = [None if a is None else a.copy() for a in arrs]
        res, exc = guarded(fn)
        same = all(a is None or (N.array_equal(a, c) and a.dtype == c.dtype) for a, c in zip(arrs, cp))
        st = dict(op=op, exc=exc, same=bool(same), refused=False, **kw)
        if op == "bad":
            st["refused"] = exc != ""; st["exc"] = exc = ""
        return st, res, exc
    def finish(self, st):
        if self.rng.randint(3) == 0 and st["op"] != "scribble":
            for a in self.shared: a[...] = self.rng.randint(5, 9)     # the caller reuses his arrays
            self.shared = []
        if not st["exc"]:
            o, exc = guarded(self.observe)
            st["exc"] = exc
            if not exc: st["obs"] = o
        self.steps.append(st); self.cover.add(st["op"])
        return not st["exc"]
    # operations
    def put(self, kind, x, kids=()):
        self.nodes.append(x); self.kind.append(kind); self.par.append(None)
        for k in kids: self.par[k] = len(self.nodes) - 1
    bnd = None
    def create(self, kind):
        rng = self.rng
        free = lambda ks: [n for n in range(len(self.nodes)) if self.par[n] is None and self.kind[n] in ks and rng.randint(3)]
        f = self.fr()
        loc = None if rng.randint(4) == 0 else f[:3, 3].copy()
        rot = None if rng.randint(4) == 0 else f[:3, :3].copy()
        kids = []
        eff = N.eye(4)
        if loc is not None: eff[:3, 3] = loc
        if rot is not None: eff[:3, :3] = rot
        arrs = (loc, rot)
        if kind == "surf":
            fn = lambda: Surface(LookGM(), lambda g, r, s: None, location=loc, rotation=rot)
        elif kind == "bnd":
            if self.bnd is None: self.bnd = {}
            sh = ["sphere", "cyl", "plane"][rng.randint(3)]
            r = float(rng.randint(1, 33)) / 8
            self.bnd[len(self.nodes)] = (sh, r)
            if sh == "sphere":
                eff = N.eye(4)
                if loc is not None: eff[:3, 3] = loc
                fn = lambda: BoundarySphere(location=loc, radius=r)
            elif sh == "cyl": fn = lambda: BoundaryCylinder(2 * r, location=loc, rotation=rot)
            else: fn = lambda: BoundaryPlane(location=loc, rotation=rot)
        elif kind == "obj":
            ks, kb = free(["surf"]), free(["bnd"])
            kids = ks + kb
            tr = None if rng.randint(3) == 0 else f
            eff = N.eye(4) if tr is None else tr
            arrs = (tr,)
            fn = lambda: AssembledObject(surfs=[self.nodes[k] for k in ks] if ks or rng.randint(2) else None,
                                         bounds=[self.nodes[k] for k in kb] if kb or rng.randint(2) else None, transform=tr)
        else:
            ko, ka = free(["obj"]), free(["asm"])
            kids = ko + ka
            fn = lambda: Assembly(objects=[self.nodes[k] for k in ko] if ko or rng.randint(2) else None,
                                  subassemblies=[self.nodes[k] for k in ka] if ka or rng.randint(2) else None, location=loc, rotation=rot)
        eff = N.array(eff, dtype=float)
        st, x, exc = self.step("create", fn, arrs, kind=kind, fr=mat(eff), kids=[k + 1 for k in kids])
        self.shared.extend(a for a in arrs if a is not None)
        if not exc: self.put(kind, x, kids)
        return self.finish(st)
    def add(self):
        rng = self.rng
        c = [(p, k) for p in range(len(self.nodes)) for k in range(len(self.nodes)) if p != k and self.par[k] is None and
             ((self.kind[p] == "obj" and self.kind[k] in ("surf", "bnd")) or (self.kind[p] == "asm" and self.kind[k] in ("obj", "asm")))]
        def above(p):
            r = []
            while p is not None: r.append(p); p = self.par[p]
            return r
        c = [(p, k) for p, k in c if k not in above(p)]
        if not c: return True
        p, k = c[rng.randint(len(c))]
        P, K = self.nodes[p], self.nodes[k]
        tr = None
        if self.kind[k] in ("obj", "asm") and rng.randint(3): tr = self.fr()
        kd = self.kind[k]
        if kd == "surf": fn = lambda: P.add_surface(K)
        elif kd == "bnd": fn = lambda: P.add_boundary(K)
        else:
            m = P.add_object if kd == "obj" else P.add_assembly
            fn = (lambda: m(K)) if tr is None else (lambda: m(K, tr))
        st, _, exc = self.step("add", fn, (tr,), p=p + 1, c=k + 1, fr=mat(N.eye(4) if tr is None else tr))
        if tr is not None: self.shared.append(tr)
        if not exc: self.par[k] = p
        return self.finish(st)
    def move(self):
        rng = self.rng
        n = rng.randint(len(self.nodes)); x = self.nodes[n]
        how = ["loc", "rot", "tr"][rng.randint(3)]
        pool = [a for a in self.shared if a.shape == {"loc": (3,), "rot": (3, 3), "tr": (4, 4)}[how]]
        if pool and rng.randint(3) == 0: a = pool[rng.randint(len(pool))]      # the same array for several things
        else: a = {"loc": self.loc, "rot": self.rot, "tr": self.fr}[how]()
        if rng.randint(5) == 0:                                                # a nudge
            cur, exc = guarded(lambda: N.array({"loc": x.get_location, "rot": x.get_rotation, "tr": x.get_transform}[how](), dtype=float))
            if not exc:
                a = q(cur)
                by = 2.**-rng.randint(8, 27)
                if how == "rot": a = q(N.dot(rot_axis(N.eye(3)[rng.randint(3)], N.sqrt(1 - by**2), by), a))
                elif how == "loc": a[rng.randint(3)] += by
                else: a[rng.randint(3), 3] += by
                self.cover.add("nudge")
        val = {"loc": vec, "rot": mat, "tr": mat}[how](a)
        f = {"loc": "set_location", "rot": "set_rotation", "tr": "set_transform"}[how]
        st, _, exc = self.step(how, lambda: getattr(x, f)(a), (a,), n=n + 1, val=val)
        self.shared.append(a)
        return self.finish(st)
    def wrong(self, right):
        shapes = [(3,), (3, 3), (3, 1), (1, 3), (1,), (2,), (4,), (), (0,), (1, 1), (4, 4), (3, 4), (4, 3), (2, 2), (2, 3), (3, 2), (1, 3, 3), (3, 3, 1), (9,)]
        return N.ones([x for x in shapes if x != right][self.rng.randint(len(shapes) - 1)])
    def bad(self):
        rng = self.rng
        n = rng.randint(len(self.nodes)); x = self.nodes[n]
        if rng.randint(2):
            a = self.wrong((3,))
            fn = lambda: x.set_location(a)
        else:
            a = self.wrong((3, 3))
            fn = lambda: x.set_rotation(a)
        st, _, exc = self.step("bad", fn, (a,), n=n + 1)
        return self.finish(st)
    def trace(self):
        asm = [n for n in range(len(self.nodes)) if self.kind[n] == "asm" and self.par[n] is None]
        if not asm: return True
        x = self.nodes[asm[self.rng.randint(len(asm))]]
        st, _, exc = self.step("trace", lambda: TracerEngine(x).ray_tracer(probe(), 2, 0.))
        return self.finish(st)

def scenario(rng, out):
    w = World(rng)
    ok = True
    wide = rng.randint(6) == 0           # boxes with many parts
    if wide:
        w.cover.add("wide")
        box, part = [("asm", "obj"), ("asm", "asm"), ("obj", "surf"), ("obj", "bnd")][rng.randint(4)]
        ok = w.create("asm") and w.create(box)
        n = rng.randint(3, 9)
        for _ in range(n): ok = ok and w.create(part)
        if part == "obj":
            ok = ok and w.create("surf") and w.create("surf")
        for _ in range(n + 2):
            if ok: ok = w.add()
    for kind in [] if wide else ["surf", "surf", "obj", "asm", "asm"][:rng.randint(3, 6)]:
        ok = ok and w.create(kind)
    for _ in range(rng.randint(5, 12)):
        if not ok: break
        k = rng.randint(16)
        if k <= 3 and len(w.nodes) < (14 if wide else 9): ok = w.create(["surf", "bnd", "obj", "asm", "asm"][rng.randint(5)])
        elif k <= 6: ok = w.add()
        elif k <= 13: ok = w.move()
        elif k == 14: ok = w.bad() and (rng.randint(2) == 0 or w.bad())
        else: ok = w.trace()
    depth = 0
    for n in range(len(w.nodes)):
        d, p = 1, w.par[n]
        while p is not None: d += 1; p = w.par[p]
        depth = max(depth, d)
    out.put({"fam": "frames", "cover": sorted(w.cover) + ["depth%d" % depth], "steps": w.steps})

def main():
    path, seed, size, rest = args()
    rng = N.random.RandomState(seed)
    out = Out(path)
    for i in range(size): scenario(rng, out)
    out.close()

if __name__ == "__main__":
    main()
