"""The ready-made models, traced: d_models.py OUT SEED SIZE sided|lens|tris|dish|all"""
from scenes import *
from tracer.models.homogenizer import rect_homogenizer
from tracer.models.spherical_lens import SphericalLens
from tracer.models.triangulated_surface import TriangulatedSurface
from tracer.models.tau_minidish import MiniDish, standard_minidish, standard_minidish_measures
from tracer.models.PETAL_dish import PETAL
from tracer.models.homogenized_local_receiver import HomogenizedLocalReceiver
from tracer.surface import Surface
from tracer.paraboloid import ParabolicDishGM, HexagonalParabolicDishGM
from tracer.optics_callables import Reflective

def f1(x): return float(q(x))

def one_part(rng, part, prop):
    ng = rng.randint(0, 2)
    return Scene([part], [int(rng.randint(0, ng + 1))], rand_frame(rng, 1.) if rng.randint(3) == 0 else N.eye(4),
                 [rand_frame(rng, 1.) for _ in range(ng)], prop)

def to_world(sc, k, v, d):
    f = sc.world(k)
    v = N.dot(f[:3, :3], v) + f[:3, 3:4]; d = N.dot(f[:3, :3], d)
    return q(v), d / N.sqrt((d**2).sum(axis=0))

def local_rays(starts, aims):
    v = N.array(starts, dtype=float).reshape(-1, 3).T; a = N.array(aims, dtype=float).reshape(-1, 3).T
    d = a - v
    return v, d / N.sqrt((d**2).sum(axis=0))

def run(rng, out, sc, fam, gen, reps, mn=0., cover=(), extra=None, rounds=2, index=(1.,)):
    steps = []
    _, exc = guarded(sc.build)
    steps.append(sc.place(exc))
    if not exc:
        engine = TracerEngine(sc.asm)
        for rnd in range(rounds):
            if rnd and rng.randint(2):                     # the whole moves together
                f = rand_frame(rng, 1.)
                what = rng.randint(2)
                node = sc.nodes["p"][0] if what else sc.asm
                _, exc = guarded(lambda: node.set_transform(f.copy()))
                if what: sc.parts[0].frame = f
                else: sc.root = f
                steps.append(sc.place(exc))
                if extra: steps.append(reset(sc))          # the map is of hits taken in the present position
            v, d = gen()
            v, d = to_world(sc, 0, v, d)
            steps.append(trace(sc, engine, rays(rng, v, d, index=index), reps, mn))
            if steps[-1]["exc"]: break
            for a in sorted(sc.books): steps.append(query(sc, a))
            if extra: extra(steps)
            if sc.books and rng.randint(3) == 0: steps.append(reset(sc))
    out.put(sc.head(fam, steps, cover))

# ---- one-sided plates and homogenizers

def sided(rng, out):
    k = rng.randint(4)
    if k == 0: part = osm_part(rng)
    elif k == 1: part = osr_part(rng, 1)
    else:
        w, dd, h = [f1(x) for x in rng.uniform(0.3, 3, 3)]
        if rng.randint(4) == 0: w, dd, h = 5., 3., 10.
        eff = f1([1., 0.9, 0., rng.uniform()][rng.randint(4)])
        m = {"k": "homog", "w": enc(w), "d": enc(dd), "h": enc(h), "eff": enc(eff)}
        part = Part(m, lambda sc: rect_homogenizer(w, dd, h, eff), rand_frame(rng, 1.))
        part.kinds = ["homog"]
    sc = one_part(rng, part, "C19")
    n = rng.randint(1, 9)
    def plate():
        a = [part.aim(rng) for _ in range(n)]
        return local_rays([x + N.r_[rng.uniform(-2, 2, 2), rng.choice([-1, 1]) * (rng.uniform(.1, 2) if rng.randint(4) else 10**rng.uniform(-3.3, -1))] for x in a], a)
    def box():
        S, A = [], []
        for _ in range(n):
            c = rng.randint(5)
            inside = N.r_[rng.uniform(-.5, .5) * w, rng.uniform(-.5, .5) * dd, rng.uniform(0, 1) * h]
            if c <= 1:      # in through the opening (either end)
                top = rng.randint(2)
                e = N.r_[rng.uniform(-.5, .5) * w, rng.uniform(-.5, .5) * dd, h if top else 0.]
                s = e + N.r_[rng.uniform(-1, 1) * w, rng.uniform(-1, 1) * dd, (1 if top else -1) * rng.uniform(.1, 1) * h]
                S.append(s); A.append(e)
            elif c == 2:    # from inside to a wall
                o = N.r_[rng.uniform(-.5, .5) * w, rng.uniform(-.5, .5) * dd, rng.uniform(-.2, 1.2) * h]
                o[rng.randint(2)] *= 3
                S.append(inside); A.append(o)
            elif c == 3:    # from outside to a wall
                o = inside + rand_unit(rng) * (w + dd + h)
                S.append(o); A.append(inside)
            else:           # anything
                S.append(rng.uniform(-1, 1, 3) * (w + dd)); A.append(rng.uniform(-1, 1, 3) * (w + dd))
        return local_rays(S, A)
    run(rng, out, sc, part.kinds[0], plate if k < 2 else box, int(rng.randint(1, 8)), cover=part.kinds)

# ---- lenses

def lens_dims(rng, shape):
    while True:
        D = f1(rng.uniform(0.5, 2)); n = f1([1.5, 1.33, rng.uniform(1.2, 2)][rng.randint(3)])
        depth = f1(rng.uniform(0.05, 1) * D)
        R = [f1(rng.uniform(0.52, 4) * D) if rng.randint(3) else f1(rng.uniform(2, 10) * D) for _ in range(2)]
        sg = [rng.choice([-1, 1]), rng.choice([-1, 1])]
        c1, c2 = sg[0] / R[0], sg[1] / R[1]
        if shape == "flat-front": c1 = 0.
        if shape == "flat-back": c2 = 0.
        # the rims do not cross the other face
        def z(c, r): return (1 / c - N.sign(c) * N.sqrt(1 / c**2 - r * r)) if c else 0.
        if rng.randint(3) == 0:        # a thin edge
            depth = f1((z(c1, D / 2) - z(c2, D / 2)) / (1. if c2 else 1 + 1 / n) + [.02, .05, rng.uniform(.01, .1)][rng.randint(3)] * D)
            if depth < .03 * D: continue
        P = (n - 1) * (c1 - c2 + depth * (n - 1) * c1 * c2 / n)
        if abs(P) < 0.05: continue
        if c2 == 0.: thick = depth + depth / n
        else: thick = depth
        if thick - z(c1, D / 2) + z(c2, D / 2) < 0.009 * D and rng.randint(8): continue
        return D, depth, (sg[0] * R[0] if c1 else 0.), (sg[1] * R[1] if c2 else 0.), n

def lens_part(rng, dims):
    D, depth, R1, R2, n = dims
    plane = lambda R: R if R else [0, None, N.inf, -N.inf][rng.randint(4)]
    r1, r2 = plane(R1), plane(R2)
    m = {"k": "lens", "D": enc(D), "depth": enc(depth), "c1": enc(1. / R1 if R1 else 0.), "c2": enc(1. / R2 if R2 else 0.), "n": enc(n)}
    fr = rand_frame(rng, 1.)
    def build(sc):
        if fr is part.frame and rng.randint(2): return SphericalLens(D, depth, r1, r2, n, transform=fr.copy())
        return SphericalLens(diameter=D, depth=depth, R1=r1, R2=r2, refr_idx=n)
    part = Part(m, build, fr)
    part.kinds = ["lens", "front-" + ("flat" if not R1 else "+" if R1 > 0 else "-"), "back-" + ("flat" if not R2 else "+" if R2 > 0 else "-")]
    return part

def axis_step(part, dims):
    """The lens alone in the world frame: an axial and a paraxial ray, and what it says about itself."""
    D, depth, R1, R2, n = dims
    st = {"op": "axis", "m": part.m, "exc": "", "front": enc(0), "back": enc(0), "v": [enc(0)] * 3, "d": [enc(0)] * 3, "f": enc(0)}
    def look():
        L = SphericalLens(D, depth, R1, R2, n)
        st["f"] = enc(L.focal_length())
        def down(x):
            e = TracerEngine(Assembly(objects=[L]))
            e.ray_tracer(RayBundle(vertices=N.c_[[x, 0., 50.]], directions=N.c_[[0., 0., -1.]], energy=N.r_[1.], ref_index=N.r_[1.]), 2, 0.)
            a, b = e.tree[1], e.tree[2]
            k = int(N.argmin(b.get_directions()[2] + 10. * (b.get_ref_index() != 1.)))      # out at the back
            return a.get_vertices()[2, 0], b.get_vertices()[:, k], b.get_directions()[:, k]
        st["front"], v, d = down(0.); st["front"] = enc(st["front"]); st["back"] = enc(v[2])
        _, v, d = down(1. / 256)
        st["v"], st["d"] = vec(v), vec(d)
    _, st["exc"] = guarded(look)
    return st

def lens(rng, out, shape=None, kf=None):
    shape = shape or ["curved", "curved", "flat-front", "flat-back"][rng.randint(4)]
    dims = lens_dims(rng, shape)
    part = lens_part(rng, dims)
    sc = one_part(rng, part, "C21")
    if kf or rng.randint(4) == 0:
        steps = [sc.place(), axis_step(part, dims)]
        h = sc.head("axis", steps, part.kinds, **({"kf": kf} if kf else {}))
        h["focus"] = bool(kf == "lens-focus" or shape == "flat-front"); h["thick"] = bool(kf == "lens-plano-back" or shape != "flat-back")
        out.put(h); return
    D, depth, R1, R2, n = dims
    c1, c2 = (1. / R1 if R1 else 0.), (1. / R2 if R2 else 0.)
    pd = depth * (n - 1) / n * c1 / ((n - 1) * (c1 - c2 + depth * (n - 1) * c1 * c2 / n))
    zc = lambda R: N.sign(R) * N.sqrt(R * R - D * D / 4) - R
    edge = [pd + zc(R2) if R2 else 0., pd + depth + (zc(R1) if R1 else 0.)]
    def gen():
        k = rng.randint(1, 7) if rng.randint(4) else 16
        S, A = [], []
        for _ in range(k):
            c = rng.randint(4) if rng.randint(3) else 4
            a = N.r_[rng.uniform(-.5, .5, 2) * D, rng.uniform(-.3, 1.3) * depth]
            if c == 0: s = N.r_[a[:2], rng.choice([-1, 1]) * 6.]; a = N.r_[s[:2], 0.]
            elif c == 1: s = a + rand_unit(rng) * rng.uniform(1, 3)
            elif c == 2:                                                                       # into the edge
                t = rng.uniform(0, 2 * N.pi); a = N.r_[N.cos(t) * D / 2, N.sin(t) * D / 2, rng.uniform(-.3, 1.3) * depth]
                if rng.randint(2): a[2] = edge[0] + rng.uniform(-.2, 1.2) * (edge[1] - edge[0])
                s = N.r_[a[:2] * rng.uniform(1.5, 4), a[2] + rng.uniform(-.3, .3)]
                if rng.randint(2): s = N.r_[a[:2] * rng.uniform(-.5, .5), a[2] + rng.uniform(-.2, .2) * depth]
            elif c == 4:                                                                       # where a face meets the edge
                t = rng.uniform(0, 2 * N.pi); e = 10**rng.uniform(-3.5, -1.5)
                r = D / 2 * (1 - e * rng.randint(-1, 3)); zz = edge[rng.randint(2)] + e * rng.uniform(-1, 1) * D
                a = N.r_[N.cos(t) * r, N.sin(t) * r, zz]
                s = [N.r_[a[:2], a[2] + rng.choice([-1, 1]) * 4], a + rand_unit(rng) * rng.uniform(.5, 3), N.r_[0., 0., (edge[0] + edge[1]) / 2], N.r_[a[:2] * 3, a[2]]][rng.randint(4)]
            else: s = a + rand_unit(rng) * 0.3 * depth
            if N.abs(a - s).max() < 1e-2: s = a + N.r_[0., 0., 4.]
            S.append(s); A.append(a)
        return local_rays(S, A)
    run(rng, out, sc, "lens", gen, int(rng.randint(1, 5)), mn=f1([0., 0.01, 0.5][rng.randint(3)]), cover=part.kinds, index=(1., 1., n))

# ---- triangulated surfaces

def tris(rng, out):
    nv = rng.randint(3, 9)
    verts = q(rng.uniform(-2, 2, (nv, 3)))
    k = rng.randint(4)
    if k == 0:      # a pyramid / box-like solid, perturbed
        verts = q(N.array([[0., 0, 0], [2, 0, 0], [2, 2, 0], [0, 2, 0], [1, 1, 2]]) + rng.uniform(-.2, .2, (5, 3))); nv = 5
        faces = N.array([[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4], [0, 2, 1], [0, 3, 2]])
    else:
        faces = N.array([rng.permutation(nv)[:3] for _ in range(rng.randint(1, 7))])
    if rng.randint(2):          # some faces without area
        for _ in range(rng.randint(1, 3)):
            c = rng.randint(5)
            i, j = rng.permutation(nv)[:2]
            if c == 0: bad = [i, i, j]
            elif c == 1: bad = [i, j, i]
            elif c == 2: bad = [j, i, i]
            elif c == 3: bad = [i, i, i]
            else:
                t = [0.5, 2., -1.][rng.randint(3)]
                verts = N.vstack((verts, q(verts[i] + (verts[j] - verts[i]) * t))); bad = [i, j, len(verts) - 1]
                bad = [bad[x] for x in rng.permutation(3)]
            faces = N.insert(faces, rng.randint(0, len(faces) + 1), bad, axis=0)
    sz = [1., 1., 1., .1, .01, 20.][rng.randint(6)]
    verts = q(verts * sz)
    if rng.randint(4) == 0 and k:          # a small facet among the others
        c = rng.uniform(-2, 2, 3) * sz
        verts = N.vstack((verts, q(c + N.array([rand_unit(rng) for _ in range(3)]) * .05 * sz * 10**rng.uniform(-1.3, 0))))
        faces = N.insert(faces, rng.randint(0, len(faces) + 1), [len(verts) - 3, len(verts) - 2, len(verts) - 1], axis=0)
    whole = k and rng.randint(5) == 0       # vertices given as whole numbers
    if whole:
        sz = 4.
        verts = N.round(rng.uniform(-9, 9, verts.shape))
    chunky = rng.randint(3)
    # slivers are too thin to tell inside from outside
    def area(t): return N.sqrt((N.cross(verts[t[1]] - verts[t[0]], verts[t[2]] - verts[t[0]])**2).sum())
    def fat(t):
        a, l = area(t), max([N.sqrt(((verts[t[i]] - verts[t[i - 1]])**2).sum()) for i in range(3)])
        return l > 1e-3 and a > (.08 if chunky else .01) * l * l
    keep = [t for t in faces if fat(t) or area(t) < 1e-10 * sz]
    good = [t for t in keep if fat(t)]
    if not good:
        verts = q(N.array([[0., 0, 0], [1, 0, 0], [0, 1, 0]])); good = keep = [N.r_[0, 1, 2]]
    seen = set(); faces = []
    for t in keep:              # the same triangle twice would be met twice at the same distance
        key = tuple(sorted(int(x) for x in t))
        if key not in seen or not fat(t): faces.append(t)
        seen.add(key)
    if whole:                   # lattice points fall into one plane now and then: faces that overlap there would tie
        good, kept = [], []
        for t in faces:
            if fat(t):
                n = N.cross(verts[t[1]] - verts[t[0]], verts[t[2]] - verts[t[0]])
                if any(abs(N.cross(n, N.cross(verts[u[1]] - verts[u[0]], verts[u[2]] - verts[u[0]]))).max() < 1e-6
                       and abs(N.dot(n, verts[t[0]] - verts[u[0]])) < 1e-6 for u in good): continue
                good.append(t)
            kept.append(t)
        faces = kept
    faces = N.array(faces)
    ok = opt_spec("recv", 0.5) if rng.randint(2) else opt_spec(["mirror", "refl", "refr"][rng.randint(3)], 0.25)
    acct = 1 if ok["k"] == "recv" else 0
    m = {"k": "tris", "verts": [vec(x) for x in verts], "faces": [ints(t) for t in faces], "o": enc_opt(ok), "acct": acct}
    fr = rand_frame(rng, 1.)
    def build(scene):
        op = make_opt(ok)
        if acct: scene.books[1] = op
        v, f = verts.copy(), faces.copy()
        if whole: v = v.astype(int) if rng.randint(2) else v.astype(N.int32)
        return TriangulatedSurface(v, f, op, transform=fr.copy()) if rng.randint(2) else TriangulatedSurface(v, f, op)
    part = Part(m, build, fr)
    sc = one_part(rng, part, "C22")
    def gen():
        S, A = [], []
        for _ in range(rng.randint(1, 9)):
            t = good[rng.randint(len(good))]
            b = rng.dirichlet([1, 1, 1]) if rng.randint(3) else rng.uniform(-.3, 1.3, 3)
            if rng.randint(3) == 0: b = b / b.sum()
            a = N.dot(b / (b.sum() if abs(b.sum()) > .2 else 1.), verts[t])
            S.append(a + rand_unit(rng) * rng.uniform(.3, 4) * sz); A.append(a)
        return local_rays(S, A)
    run(rng, out, sc, "tris", gen, int(rng.randint(1, 4)), cover=["tris-" + ok["k"]] + (["degenerate"] if len(faces) > len(good) else []) + (["whole"] if whole else []))

# ---- dishes

def dish(rng, out):
    kind = ["mini", "petal", "standard", "own"][rng.randint(4)]
    D = f1(rng.uniform(1, 6))
    ref = {}
    own = ["hex", "dish"][rng.randint(2)]
    if kind == "standard":
        conc, virt = f1(rng.uniform(20, 800)), int(rng.randint(0, 4))
        eff, heff = (0.9, 0.9) if rng.randint(2) else (f1(rng.uniform(.5, 1)), f1(rng.uniform(.5, 1)))
        fl, W, H = D / 4 / (N.sqrt(2) - 1), D / 2 * N.sqrt(N.pi / conc), 0.
        n = virt + 1
        if D - n * W < 0.1: return dish(rng, out)
        H = n * W * fl / (D - n * W)
        fl, W, H = f1(fl), f1(W), f1(H)
        pos, sx, sy, depth = fl + H, W, W, H
        def make():
            ref["m"] = standard_minidish(D, conc, virt, eff, heff) if (eff, heff) != (0.9, 0.9) or rng.randint(2) else standard_minidish(D, conc, virt)
            return ref["m"][0]
    else:
        fl = f1(rng.uniform(0.4, 1.2) * D); sx = f1(rng.uniform(.1, .5) * D); asp = f1([1., rng.uniform(.5, 1.5)][rng.randint(2)]); sy = f1(sx * asp)
        asp = sy / sx
        pos = f1(fl * rng.uniform(.8, 1.5)); depth = f1(rng.uniform(.1, .6) * pos); eff, heff = f1(rng.uniform(.5, 1)), f1(rng.uniform(.5, 1))
        cls = MiniDish if kind == "mini" else PETAL
        def make():
            if kind == "own":             # any reflector with a homogenized receiver
                mr = Surface((HexagonalParabolicDishGM if own == "hex" else ParabolicDishGM)(D, fl), Reflective(1 - eff))
                ref["mr"] = mr
                return HomogenizedLocalReceiver(mr, pos, sx if sx == sy and rng.randint(2) else (sx, sy), depth, heff)
            return cls(D, fl, eff, pos, sx, depth, heff) if asp == 1. and rng.randint(2) else cls(D, fl, eff, pos, sx, depth, heff, asp)
    m = {"k": "dish", "shape": "hex" if kind == "petal" else own if kind == "own" else "dish", "R": enc(D / 2), "fl": enc(fl), "eff": enc(eff), "pos": enc(pos),
         "sx": enc(sx), "sy": enc(sy), "depth": enc(depth), "heff": enc(heff), "acct": 1}
    hold = {}
    def build(scene):
        a = make(); hold["d"] = a
        scene.books[1] = a.get_receiver_surf().get_optics_manager()
        return a
    part = Part(m, build, rand_frame(rng, 1.))
    sc = one_part(rng, part, "C23")
    def gen():
        S, A = [], []
        tilt = N.r_[rng.uniform(-.05, .05, 2), 0.] if rng.randint(2) else N.zeros(3)
        for _ in range(rng.randint(3, 12)):
            c = rng.randint(8)
            a = N.r_[rng.uniform(-.55, .55, 2) * D, 0.]
            if c <= 4: S.append(a + (N.r_[0., 0., 1.] + tilt) * (pos * 1.5 + D)); A.append(a)
            elif c == 5:
                r = N.r_[rng.uniform(-.6, .6) * sx, rng.uniform(-.6, .6) * sy, pos]
                S.append(r + N.r_[rng.uniform(-1, 1, 2), rng.uniform(-1.5, 1.5)] * D * .7); A.append(r)
            else: S.append(rng.uniform(-1, 1, 3) * 2 * D); A.append(N.r_[rng.uniform(-.3, .3, 2) * D, rng.uniform(0, 1) * pos])
        return local_rays(S, A)
    def extra(steps):
        bins = [1, 2, 3, 7, 20][rng.randint(5)] if rng.randint(15) else 50
        st = {"op": "map", "exc": "", "bins": bins, "H": [], "xe": [], "ye": [], "sx": enc(sx), "sy": enc(sy),
              "dims": [], "want": [enc(D), enc(pos)], "acct": 1, "parts": True}
        def look():
            H, xb, yb = hold["d"].histogram_hits(bins) if bins != 50 else hold["d"].histogram_hits()
            st["H"] = [vec(r) for r in N.asarray(H)]; st["xe"] = vec(xb); st["ye"] = vec(yb)
            st["dims"] = vec(hold["d"].get_external_dimensions()) if kind != "own" else st["want"]
            d = hold["d"]; ss = list(d.get_surfaces()); hom = d.get_homogenizer()
            st["parts"] = bool(d.get_main_reflector() in ss and d.get_receiver_surf() in ss and d.get_main_reflector() is not d.get_receiver_surf()
                and all(x in ss for x in hom.get_surfaces()) and len(hom.get_objects()) == 4
                and not (kind == "own" and d.get_main_reflector() is not ref["mr"]))
        _, st["exc"] = guarded(look)
        steps.append(st)
    if kind == "standard":
        st = {"op": "std", "exc": "", "D": enc(D), "conc": enc(conc), "n": virt + 1, "pi": enc(N.pi), "got": []}
        def look(): st["got"] = vec(standard_minidish_measures(D, conc, virt))
        _, st["exc"] = guarded(look)
        out.put(sc.head("standard", [sc.place(), st], ["measures"]))
    run(rng, out, sc, "dish", gen, int(rng.randint(2, 8)), mn=f1([0., 1e-3][rng.randint(2)]), cover=["dish-" + kind], extra=extra)

def main():
    path, seed, size, rest = args()
    rng = N.random.RandomState(seed); N.random.seed(seed)
    out = Out(path)
    fam = rest[0]
    fs = {"sided": [sided], "lens": [lens], "tris": [tris], "dish": [dish], "all": [sided, lens, tris, dish]}[fam]
    if fam in ("lens", "all") and seed % 1000 == 0:
        r2 = N.random.RandomState(7)
        lens(r2, out, "curved", "lens-focus"); lens(r2, out, "flat-back", "lens-plano-back")
    for i in range(size): fs[i % len(fs)](rng, out)
    out.close()

if __name__ == "__main__":
    main()
