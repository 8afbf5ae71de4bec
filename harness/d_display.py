"""What the user is shown: d_display.py OUT SEED SIZE rays|view|tree

The display libraries are stood in for by stubs/viewstubs.py; the modules under test are the real ones.
"""
from hlib import *
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs"))
import viewstubs
viewstubs.install()
import geom
from tracer.assembly import Assembly
from tracer.object import AssembledObject
from tracer.surface import Surface
from tracer.ray_bundle import RayBundle
from tracer.trace_tree import RayTree
from tracer.tracer_engine import TracerEngine
from tracer import optics_callables as oc

class Py2Dict(dict):
    """The code is Python 2: keys, values and items are lists."""
    def keys(self): return list(dict.keys(self))
    def values(self): return list(dict.values(self))
    def items(self): return list(dict.items(self))

def py3_only(exc):
    """Raised because of the translation to Python 3, not by the code."""
    return "changed size during iteration" in exc or "keys changed during iteration" in exc

# ---- rays

SELECT = [None, None, lambda b: b.get_energy() > .6, lambda b: b.get_vertices()[0] > 0, lambda b: b.get_directions()[2] < .1,
          lambda b: N.arange(b.get_num_rays()) % 2 == 1, lambda b: N.zeros(b.get_num_rays(), dtype=bool), lambda b: b.get_energy() != b.get_energy().max()]

def levels(tree, sel):
    out = []
    for k in range(tree.num_bunds()):
        b = tree[k]; n = int(b.get_num_rays())
        lit = N.asarray(b.get_energy()) != 0
        if sel is not None: lit = lit & sel(b)
        out.append({"n": n, "par": [-1] * n if k == 0 else ints(b.get_parents()), "lit": [bool(x) for x in lit],
                    "v": cols(b.get_vertices()), "d": cols(b.get_directions())})
    return out

def made_tree(rng):
    """A tree as a trace could have left it: rays without energy give rise to nothing."""
    t = RayTree()
    n = int(rng.randint(1, 8)) if rng.randint(12) else 60
    live = None
    for k in range(rng.randint(1, 5)):
        e = q((rng.uniform(.1, 1., n) if rng.randint(3) else 10**rng.uniform(-6, 2, n)) * (rng.uniform(size=n) > .3))
        kw = {}
        if k:
            if not len(live): break
            par = live[rng.randint(0, len(live), n)] if rng.randint(3) else N.sort(live[rng.randint(0, len(live), n)])
            kw["parents"] = par
        d = N.array([rand_unit(rng) for _ in range(n)]).T
        t.append(RayBundle(vertices=q(rng.uniform(-2, 2, (3, n))), directions=d, energy=e, **kw))
        live = N.nonzero(e)[0]
        n = int(rng.randint(1, 8)) if rng.randint(12) else 60
    return t

BASE = {"op": "view", "exc": "", "surfs": [], "world": [], "res": 10, "col": 1, "op_": 1, "all": True, "which": [], "plots": False, "lv": [], "len": enc(1.),
        "live": [], "segs": [], "ctl": [], "wantctl": [], "same": True}

def pairs(scene):
    a, b = viewstubs.segments(scene)
    return [[x, y] for x, y in zip(cols(a.T), cols(b.T))]

def rays(rng, out):
    from tracer.mayavi_ui import scene_view
    steps = []
    for _ in range(rng.randint(1, 4)):
        sel = SELECT[rng.randint(len(SELECT))]; ln = float(q(rng.uniform(.2, 5)))
        t = made_tree(rng)
        st = dict(BASE, do="rays", lv=levels(t, sel), len=enc(ln))
        was = [state_of(t[k]) for k in range(t.num_bunds())]
        def look():
            scene = viewstubs.MlabSceneModel()
            if sel is None and rng.randint(2): scene_view.show_rays(scene, t, ln)
            else: scene_view.show_rays(scene, t, ln, sel)
            st["segs"] = pairs(scene)
        _, st["exc"] = guarded(look)
        st["same"] = all(same_state(x, state_of(t[k])) for k, x in enumerate(was))
        steps.append(st)
        if st["exc"]: break
    out.put({"fam": "rays", "cover": ["rays"], "steps": fix(steps)})

def fix(steps):
    for st in steps:
        if "op_" in st: st["op"] = "view"; st["opac"] = st.pop("op_")
    return steps

# ---- views

class Tokens(object):
    def __init__(self): self.t = {}
    def of(self, key): return self.t.setdefault(key, len(self.t) + 1)

class World(object):
    def __init__(self, rng):
        self.rng, self.surfs, self.objs = rng, [], []
        self.mt, self.ct, self.ot = Tokens(), Tokens(), Tokens()
        self.ct.of((.5, .5, .5)); self.ot.of(1.)
    def frame(self): return rand_frame(self.rng, 2.)
    def surf(self):
        rng = self.rng
        g = geom.rand_geom(rng, ["rect", "disc", "sphere", "hemi", "fcyl", "dish", "rect"][rng.randint(7)], size=.7)
        a = float(q(rng.uniform(.4, 1)))
        o = [oc.Reflective, oc.ReflectiveReceiver, oc.AbsorberReflector][rng.randint(3)](a)
        f = self.frame()
        s = Surface(geom.make_gm(g), o, location=f[:3, 3].copy(), rotation=f[:3, :3].copy())
        self.surfs.append(s); self.dress(s)
        return s
    def dress(self, s):
        rng = self.rng
        if rng.randint(4) == 0: s.resolution = [2, 3][rng.randint(2)]
        if rng.randint(4) == 0: s.colour = [(1., 0., 0.), (0., 0., 1.)][rng.randint(2)]
        if rng.randint(4) == 0: s.opacity = [.5, .25, 0.][rng.randint(3)]
    def obj(self):
        o = AssembledObject(surfs=[self.surf() for _ in range(self.rng.randint(1, 3))], transform=self.frame())
        self.objs.append(o); return o
    def asm(self):
        rng = self.rng
        a = Assembly(objects=[self.obj() for _ in range(rng.randint(0 if rng.randint(6) == 0 else 1, 3))],
                     subassemblies=[Assembly(objects=[self.obj()])] if rng.randint(3) == 0 else None)
        a.set_transform(self.frame())
        return a
    def ids(self, ss): return [([n + 1 for n, x in enumerate(self.surfs) if x is y] or [0])[0] for y in ss]
    def mesh(self, xyz): return self.mt.of(tuple(tuple(N.shape(c)) + tuple(N.round(N.ravel(c), 7) + 0.) for c in xyz))
    def looks(self, res):
        out = []
        for n, s in enumerate(self.surfs):
            own = int(getattr(s, "resolution", 0))
            out.append({"n": n + 1, "res": own, "col": self.ct.of(s.colour) if hasattr(s, "colour") else 0, "op": self.ot.of(float(s.opacity)) if hasattr(s, "opacity") else 0,
                        "mesh": [[r, self.mesh(s.mesh(r))] for r in sorted(set([res, own]) - set([0]))]})
        return out
    def live(self, scene):
        return [[self.mesh(m.mlab_source.xyz), self.ct.of(tuple(m.look.get("color", ()))), self.ot.of(float(m.look.get("opacity", 1.)))] for m in viewstubs.meshes(scene)]

def beam(rng, w, asm):
    n = int(rng.randint(1, 8))
    ss = asm.get_surfaces()
    V, D = [], []
    for _ in range(n):
        v = rng.uniform(-5, 5, 3)
        a = N.array(ss[rng.randint(len(ss))].mesh(2)).reshape(3, -1).mean(axis=1) + rng.uniform(-.3, .3, 3) if ss and rng.randint(4) else rng.uniform(-2, 2, 3)
        V.append(v); D.append((a - v) / N.sqrt(((a - v)**2).sum()))
    e = q((rng.uniform(.5, 3, n) if rng.randint(3) else 10**rng.uniform(-5, 2, n)) * (rng.uniform(size=n) > .2))
    return RayBundle(vertices=q(N.array(V).T), directions=N.array(D).T, energy=e, ref_index=N.ones(n))

def view(rng, out):
    from tracer.mayavi_ui import scene_view
    scene_view.dict = Py2Dict
    w = World(rng); cover = set(); steps = []
    asms = [w.asm() for _ in range(rng.randint(1, 3))]
    asm = asms[0]; src = beam(rng, w, asm) if rng.randint(6) else None
    sel = SELECT[rng.randint(len(SELECT))]; ln = float(q([1., rng.uniform(.2, 5)][rng.randint(2)]))
    ctl = [200000000, .05]
    V = [None]
    def trace():
        e = TracerEngine(asm); e.ray_tracer(src, ctl[0], ctl[1], tree=True)
        return levels(e.tree, sel)
    def step(do, fn, plots=False, res=10, col=1, opac=1, **kw):
        st = dict(BASE, do=do, res=res, col=col, op_=opac, len=enc(ln), plots=plots, **kw)
        b0 = state_of(src) if src is not None else {}
        def pre():
            st["surfs"] = w.ids(asm.get_surfaces()); st["world"] = w.looks(res)
            if plots: st["lv"] = trace()
        _, exc = guarded(pre)
        if exc: raise RuntimeError("display driver: " + exc)
        f0 = [N.array(s.get_transform()) for s in w.surfs]
        _, exc = guarded(fn)
        if exc and py3_only(exc): return False
        def post():
            sc = V[0]._scene
            st["live"] = w.live(sc); st["segs"] = pairs(sc)
            c = V[0].trace_control(); st["ctl"] = [int(c[0]), enc(c[1])]; st["wantctl"] = [ctl[0], enc(ctl[1])]
            st["same"] = (src is None or same_state(b0, state_of(src))) and all(N.array_equal(x, s.get_transform()) for x, s in zip(f0, w.surfs))
        if not exc: _, exc = guarded(post)
        st["exc"] = exc; steps.append(st); cover.add(do)
        return not exc
    def begin():
        kw = {}
        if ln != 1. or rng.randint(2): kw["escaping"] = ln
        if sel is not None: kw["ray_selector"] = sel
        V[0] = scene_view.TracerScene(asm, src, **kw)
    ok = step("view", begin, plots=src is not None)
    for _ in range(rng.randint(2, 9)):
        if not ok: break
        k = rng.randint(11)
        T = V[0]
        if k == 0 and len(asms) > 1:
            asm = asms[[j for j, a in enumerate(asms) if a is not asm][0]]
            if rng.randint(2): ok = step("clear", T.clear_scene)
            ok = ok and step("assembly", lambda: T.set_assembly(asm))
        elif k == 1: ok = step("clear", T.clear_scene)
        elif k == 2:
            src = beam(rng, w, asm); ok = step("source", lambda: T.set_source(src), plots=True)
        elif k == 3 and src is not None: ok = step("plot", T.plot_ray_trace, plots=True)
        elif k == 4:                                            # drawn again
            if rng.randint(2): ok = step("show", T.show_assembly)
            else:
                which = [s for s in asm.get_surfaces() if rng.randint(2)]
                ok = step("show", lambda: T.show_assembly(update=[id(s) for s in which]), all=False, which=w.ids(which))
        elif k == 5:
            res, c, o = [2, 4][rng.randint(2)], [(0., 1., 0.), (.5, .5, .5)][rng.randint(2)], [.75, 1.][rng.randint(2)]
            ok = step("show", lambda: T.show_assembly(c, res, opacity=o) if rng.randint(2) else T.show_assembly(colour=c, resolution=res, opacity=o),
                      res=res, col=w.ct.of(c), opac=w.ot.of(o))
        elif k == 6:
            kw = {}
            if rng.randint(2): kw["max_iter"] = ctl[0] = int([1, 2, 5, 200][rng.randint(4)])
            if rng.randint(2): kw["min_energy"] = ctl[1] = float(q([.05, .5, .2][rng.randint(3)]))
            ok = step("control", lambda: T.set_trace_control(**kw))
        elif k <= 8:                                            # the assembly changes, the view follows when told to
            if rng.randint(2):
                x = w.obj()
                if rng.randint(2): asm.add_object(x, w.frame())
                else: asm.add_assembly(Assembly(objects=[x]), w.frame())
                cover.add("gain")
            elif asm.get_local_objects():
                l = asm.get_local_objects(); l.remove(l[rng.randint(len(l))]); cover.add("loss")
            if rng.randint(4): ok = step("refresh", T.update_surfaces)
        else:                                                   # something is moved or dressed otherwise
            if rng.randint(3) and w.objs: w.objs[rng.randint(len(w.objs))].set_transform(w.frame())
            elif rng.randint(2): asm.set_transform(w.frame())
            elif w.surfs: w.dress(w.surfs[rng.randint(len(w.surfs))])
            if rng.randint(2): ok = step("look", lambda: None)
    out.put({"fam": "view", "cover": sorted(cover), "steps": fix(steps)})

# ---- trees

def tree(rng, out):
    from tracer.qt import assembly_tree
    steps, cover = [], set()
    nodes, kind, kids, pre, notes = [], [], [], [], []
    W = assembly_tree.AssemblyTree()
    CAPS = ["Receiver", "Dish", "Object 1", "Surface 0", "Assembly 0", "", "edited", "Top assembly"]
    def new(k, x, ks=()):
        nodes.append(x); kind.append(k); kids.append(list(ks)); notes.append("")
        p = "*none*"
        c = rng.randint(8)
        if c == 0: x._tree_tags = {}
        elif c == 1: p = CAPS[rng.randint(len(CAPS))]; x._tree_tags = {"caption": p}
        elif c == 2: notes[-1] = "old"; x._tree_tags = {"note": "old"}
        pre.append(p)
        return len(nodes)
    def surf(): return new("surf", Surface(geom.make_gm({"k": "rect", "p": [1., 1.]}), oc.perfect_mirror))
    def obj():
        ks = [surf() for _ in range(rng.randint(0, 4) if rng.randint(12) else 12)]
        return new("obj", AssembledObject(surfs=[nodes[k - 1] for k in ks]), ks)
    def asm(depth):
        ko = [obj() for _ in range(rng.randint(0, 4))]; ka = [asm(depth - 1) for _ in range(rng.randint(0, 3))] if depth else []
        return new("asm", Assembly(objects=[nodes[k - 1] for k in ko], subassemblies=[nodes[k - 1] for k in ka]), ko + ka)
    def items(it): return [str(it.text(0)), bool(it.flags() & 2), [items(it.child(k)) for k in range(it.childCount())]]
    BT = {"op": "tree", "exc": "", "T": [], "pre": [], "top": 0, "n": 0, "text": "", "now": 0, "items": [], "tags": [], "notes": [], "wantnotes": []}
    def step(do, fn, **kw):
        st = dict(BT, do=do, **kw)
        _, exc = guarded(fn)
        def post():
            if do == "grow": st["T"] = [{"kind": a, "kids": list(b)} for a, b in zip(kind, kids)]; st["pre"] = list(pre); return
            st["items"] = [items(W.topLevelItem(k)) for k in range(W.topLevelItemCount())]
            if st["items"]: st["now"] = ([n + 1 for n, x in enumerate(nodes) if x is W.get_assembly()] or [0])[0]
            c = [W.get_tag(x, "caption") for x in nodes]; st["tags"] = ["*none*" if x is None else str(x) for x in c]
            st["notes"] = [str(W.get_tag(x, "note") or "") for x in nodes]; st["wantnotes"] = list(notes)
        if not exc: _, exc = guarded(post)
        st["exc"] = exc; steps.append(st); cover.add(do)
        return not exc
    tops = [asm(rng.randint(0, 3)) for _ in range(rng.randint(1, 3))]
    ok = step("grow", lambda: None)
    shown = []
    def display(t):
        ok = step("display", lambda: W.set_assembly(nodes[t - 1]), top=t)
        shown[:] = [t]
        return ok
    ok = ok and display(tops[0])
    def walk():
        """The items of the members: (item, member), by the order the specification gives."""
        res = []
        def go(it, n):
            res.append((it, n))
            q_ = lambda k: [x for x in kids[n - 1] if kind[x - 1] == k]
            if kind[n - 1] == "obj": parts = [(it, q_("surf"))]
            else:
                heads = [k for k in ("asm", "obj") if q_(k)]
                parts = [(it.child(j), q_(k)) for j, k in enumerate(heads)]
            for h, l in parts:
                for j, x in enumerate(l):
                    c = h.child(j) if h is not None else None
                    if c is not None: go(c, x)
        if at[0] == len(nodes): go(W.topLevelItem(0), shown[0])
        return res
    at = [len(nodes)]
    for _ in range(rng.randint(2, 9)):
        if not ok: break
        k = rng.randint(8)
        if k == 0:
            t = tops[rng.randint(len(tops))] if rng.randint(3) else [n + 1 for n, x in enumerate(kind) if x == "asm"][rng.randint(kind.count("asm"))]
            ok = display(t); at[0] = len(nodes)
        elif k <= 4:
            l, exc = guarded(walk)
            if l:
                it, n = l[rng.randint(len(l))]; text = CAPS[rng.randint(len(CAPS))]
                if it.text(0) != text: ok = step("rename", lambda: it.setText(0, text), n=n, text=text)
        elif k == 5:
            n = rng.randint(len(nodes)) + 1; text = CAPS[rng.randint(len(CAPS))]
            if rng.randint(2): ok = step("tag", lambda: W.set_tag(nodes[n - 1], "caption", text), n=n, text=text)
            else: notes[n - 1] = text; ok = step("note", lambda: W.set_tag(nodes[n - 1], "note", text))
        else:                                                   # the assembly grows and is shown again
            a = [n + 1 for n, x in enumerate(kind) if x == "asm"][rng.randint(kind.count("asm"))]
            if rng.randint(2): c = obj(); f = lambda: nodes[a - 1].add_object(nodes[c - 1])
            else: c = asm(0); f = lambda: nodes[a - 1].add_assembly(nodes[c - 1])
            kids[a - 1].append(c)
            ok = step("grow", f) and display(shown[0]); at[0] = len(nodes)
    out.put({"fam": "tree", "cover": sorted(cover), "steps": steps})

if __name__ == "__main__":
    path, seed, size, rest = args()
    rng = N.random.RandomState(seed); N.random.seed(seed)
    out = Out(path)
    for k in range(size): {"rays": rays, "view": view, "tree": tree}[rest[0] if rest[0] != "shown" else ["rays", "view"][k % 2]](rng, out)
    out.close()
