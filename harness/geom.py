"""Surfaces as the specification (spec/Geometry.tla) describes them, and their counterparts in the code."""
from hlib import *
from tracer.flat_surface import FlatGeometryManager, RectPlateGM, RoundPlateGM
from tracer.triangular_face import TriangularFace
from tracer.sphere_surface import SphericalGM, HemisphereGM, CutSphereGM
from tracer.cylinder import InfiniteCylinder, FiniteCylinder
from tracer.paraboloid import Paraboloid, ParabolicDishGM, HexagonalParabolicDishGM
from tracer.boundary_shape import BoundarySphere, BoundaryCylinder, BoundaryPlane

FLAT = ["plane", "rect", "disc", "tri"]
CURVED = ["sphere", "hemi", "cut", "cyl", "fcyl", "parab", "dish", "hex"]

def rand_bound(rng, R):
    k = rng.randint(7)
    b = {"shape": "none", "r": 1., "fr": N.eye(4)}
    if k == 0: return b
    fr = N.eye(4)
    if rng.randint(3): fr[:3, :3] = rand_rot(rng)
    if rng.randint(4): fr[:3, 3] = rng.uniform(-1, 1, 3) * R
    if k <= 2:
        b.update(shape="sphere", r=R * rng.uniform(0.3, 1.5)); fr[:3, :3] = N.eye(3)
    elif k <= 4: b.update(shape="cyl", r=R * rng.uniform(0.2, 1.0))
    else: b.update(shape="plane")
    b["fr"] = q(fr); b["r"] = float(q(b["r"]))
    return b

def rand_geom(rng, kind, size=2.):
    if rng.randint(8) == 0: size = size * [0.02, 0.1, 8.][rng.randint(3)]
    u = lambda a, b: float(q(rng.uniform(a, b) * size if rng.randint(3) else max(1, rng.randint(a * 8, b * 8 + 1)) / 8. * size))
    if kind == "plane": p = []
    elif kind == "rect": p = [u(0.3, 2), u(0.3, 2)]
    elif kind in ("disc", "sphere", "hemi", "cut", "cyl"): p = [u(0.3, 1.5)]
    elif kind == "tri":
        while True:
            p = [float(x) for x in (rng.uniform(-2, 2, 4) if rng.randint(3) else rng.randint(-3, 4, 4))]
            if p[0] * p[3] - p[1] * p[2] > 0.3 and max(abs(x) for x in p) > 0.3: break      # corners in CCW order
        p = [float(q(x * size / 2)) for x in p]
    elif kind == "fcyl": p = [u(0.3, 1.5), u(0.3, 2)]
    elif kind == "parab": p = [u(0.4, 1.5), u(0.4, 1.5)]
    else: p = [u(0.3, 1.5), u(0.2, 2)]
    if kind in ("sphere", "hemi", "cut", "parab") and rng.randint(10) == 0: p = [1.] * len(p)     # the sizes that need not be given
    g = {"k": kind, "p": p}
    if kind == "cut": g["b"] = rand_bound(rng, p[0])
    return g

def whole_geom(rng, kind):
    """Sizes given as whole numbers, as users write them."""
    while True:
        p = [int(x) for x in rng.randint(1, 6, {"plane": 0, "rect": 2, "tri": 4, "fcyl": 2, "parab": 2, "dish": 2, "hex": 2}.get(kind, 1))]
        if kind == "tri":
            p = [int(x) for x in rng.randint(-5, 6, 4)]
            if p[0] * p[3] - p[1] * p[2] <= 1: continue
        g = {"k": kind, "p": p}
        if kind == "cut": g["b"] = rand_bound(rng, p[0])
        return g

def whole_frame(rng):
    f = N.eye(4)
    if rng.randint(2): f[:3, :3] = rot_axis(N.eye(3)[rng.randint(3)], *[(0., 1.), (-1., 0.), (0., -1.)][rng.randint(3)])
    f[:3, 3] = rng.randint(-3, 4, 3)
    return f.astype(int)

def whole_rays(rng, g, n, plain=False):
    """Local rays along the axes from whole-numbered points (directions and starts of integer type)."""
    V, D = [], []
    for _ in range(n):
        a = N.round(aim_point(rng, g)); d = N.eye(3)[[0, 1, 2, 2, 2][rng.randint(5)]] * [1, -1][rng.randint(2)]
        V.append(a - d * rng.randint(-2, 6)); D.append(d)
    return N.array(V).reshape(-1, 3).astype(int), N.array(D).reshape(-1, 3).astype(int)

def enc_geom(g):
    r = {"k": g["k"], "p": [enc(x) for x in g["p"]]}
    if "b" in g: r["b"] = {"shape": g["b"]["shape"], "r": enc(g["b"]["r"]), "fr": mat(g["b"]["fr"])}
    return r

def make_bound(b):
    loc, rot = b["fr"][:3, 3].copy(), b["fr"][:3, :3].copy()
    return {"none": lambda: None, "sphere": lambda: BoundarySphere(loc, b["r"]) if b["r"] != 1 else BoundarySphere(loc),
            "cyl": lambda: BoundaryCylinder(2 * b["r"], location=loc, rotation=rot) if b["r"] != .5 else BoundaryCylinder(location=loc, rotation=rot),
            "plane": lambda: BoundaryPlane(location=loc, rotation=rot)}[b["shape"]]()

def make_gm(g):
    k, p = g["k"], g["p"]
    if k == "plane": return FlatGeometryManager()
    if k == "rect": return RectPlateGM(p[0], p[1])
    if k == "disc": return RoundPlateGM(p[0])
    if k == "tri": return TriangularFace(N.array([[p[0], p[2]], [p[1], p[3]], [0, 0]]))
    if k == "sphere": return SphericalGM(p[0]) if p[0] != 1 else SphericalGM()
    if k == "hemi": return HemisphereGM(p[0]) if p[0] != 1 else HemisphereGM()
    if k == "cut":
        kw = {} if p[0] == 1 else {"radius": p[0]}
        b = make_bound(g["b"])
        if b is not None: kw["bounding_volume"] = b
        return CutSphereGM(**kw)
    if k == "cyl": return InfiniteCylinder(2 * p[0])
    if k == "fcyl": return FiniteCylinder(2 * p[0], p[1])
    if k == "parab": return Paraboloid(p[0], p[1]) if p[1] != 1 else Paraboloid() if p[0] == 1 else Paraboloid(p[0])
    if k == "dish": return ParabolicDishGM(2 * p[0], p[1])
    if k == "hex": return HexagonalParabolicDishGM(2 * p[0], p[1])

def extent(g):
    k, p = g["k"], g["p"]
    if k == "plane": return 3.
    if k == "rect": return max(p) / 2
    if k == "tri": return max(abs(x) for x in p)
    if k == "fcyl": return max(p[0], p[1] / 2)
    if k == "parab": return 2.5
    return p[0]

def aim_point(rng, g):
    """A local point on (or, around the outline, beside) the surface: rays are aimed at it."""
    k, p = g["k"], g["p"]
    m = rng.choice([0.6, 1.0, 1.15])
    xy = rng.uniform(-m, m, 2)
    if k == "plane": return N.r_[xy * 3, 0.]
    if k == "rect": return N.r_[xy[0] * p[0] / 2, xy[1] * p[1] / 2, 0.]
    if k == "tri":
        a, b = rng.uniform(-0.2, 1.1, 2)
        return N.r_[a * p[0] + b * p[2], a * p[1] + b * p[3], 0.]
    if k in ("sphere", "hemi", "cut"): return rand_unit(rng) * p[0]
    if k in ("cyl", "fcyl"):
        t = rng.uniform(0, 2 * N.pi); h = 3. if k == "cyl" else p[1] / 2
        return N.r_[p[0] * N.cos(t), p[0] * N.sin(t), xy[0] * h]
    if k == "disc":
        return N.r_[xy * p[0], 0.]
    if k == "parab":
        x, y = xy * p[0], xy[1] * p[1]
        x = float(x[0])
        return N.r_[x, y, (x / p[0])**2 + (y / p[1])**2]
    x, y = xy * p[0]
    return N.r_[x, y, (x * x + y * y) / 4 / p[1]]

def grad(g, a):
    """A unit normal of the surface at local point a."""
    k, p = g["k"], g["p"]
    if k in FLAT: return N.r_[0., 0., 1.]
    if k in ("sphere", "hemi", "cut"): n = a.copy()
    elif k in ("cyl", "fcyl"): n = N.r_[a[0], a[1], 0.]
    elif k == "parab": n = N.r_[2 * a[0] / p[0]**2, 2 * a[1] / p[1]**2, -1.]
    else: n = N.r_[a[0] / 2 / p[1], a[1] / 2 / p[1], -1.]
    return n / N.sqrt((n**2).sum())

def rim_point(rng, g):
    """A point of the unbounded surface just inside or just outside the outline."""
    k, p = g["k"], g["p"]
    e = 1 + rng.choice([1e-4, 1e-3, 1e-2]) * [1., -1.][rng.randint(2)]
    t = rng.uniform(0, 2 * N.pi)
    on = lambda x, y: N.r_[x, y, (x * x + y * y) / 4 / p[1]]
    if k == "rect":
        x, y = rng.uniform(-1, 1) * p[0] / 2, rng.uniform(-1, 1) * p[1] / 2
        if rng.randint(2): x = [1., -1.][rng.randint(2)] * p[0] / 2 * e
        else: y = [1., -1.][rng.randint(2)] * p[1] / 2 * e
        return N.r_[x, y, 0.]
    if k == "disc": return N.r_[p[0] * e * N.cos(t), p[0] * e * N.sin(t), 0.]
    if k == "tri":
        u = rng.uniform(0, 1); c = rng.randint(3)
        a, b = [(e * u, e * (1 - u)), (u, e - 1), (e - 1, u)][c]
        return N.r_[a * p[0] + b * p[2], a * p[1] + b * p[3], 0.]
    if k == "hemi":
        z = (e - 1) * p[0]; r = N.sqrt(p[0]**2 - z * z)
        return N.r_[r * N.cos(t), r * N.sin(t), z]
    if k == "fcyl": return N.r_[p[0] * N.cos(t), p[0] * N.sin(t), [1., -1.][rng.randint(2)] * p[1] / 2 * e]
    if k == "dish": return on(p[0] * e * N.cos(t), p[0] * e * N.sin(t))
    if k == "hex":
        s = N.pi / 3 * rng.randint(6); h = N.sqrt(3) / 2 * p[0] * e; w = rng.uniform(-.5, .5) * p[0] * e
        return on(h * N.cos(s) - w * N.sin(s), h * N.sin(s) + w * N.cos(s))
    return aim_point(rng, g)

def rand_rays(rng, g, n, plain=False):
    """Local rays (n starts, n unit directions) of many kinds around a surface."""
    V, D = [], []
    R = extent(g)
    for _ in range(n):
        k = rng.randint(18) if not plain else 0
        a = aim_point(rng, g) if rng.randint(4) else rim_point(rng, g)
        if k <= 4:                                  # from anywhere, towards the surface
            v = rng.uniform(-3, 3, 3) * max(R, 0.5); d = a - v
        elif k == 5:                                # away from it
            v = rng.uniform(-2, 2, 3) * max(R, 0.5); d = v - a
        elif k == 6:                                # along an axis
            d = N.eye(3)[rng.randint(3)] * [1., -1.][rng.randint(2)]
            v = a - d * rng.uniform(-2, 4)
        elif k == 7:                                # axial, inwards
            d = N.r_[0., 0., [1., -1.][rng.randint(2)]]; v = a - d * rng.uniform(0.1, 4)
        elif k == 8:                                # from close to the middle
            v = rng.uniform(-0.3, 0.3, 3) * R; d = a - v
        elif k == 9:                                # from one point of the surface to another
            v = aim_point(rng, g); d = a - v
            v = v + d * rng.choice([0., 0., 1e-3, -1e-3, 0.1])
        elif k == 10:                               # in a plane parallel to the local XY plane
            v = N.r_[rng.uniform(-3, 3, 2), a[2] if rng.randint(2) else rng.uniform(-1, 1)]
            d = N.r_[rng.uniform(-1, 1, 2), 0.]
        elif k == 11:
            v = rng.uniform(-4, 4, 3); d = rng.uniform(-1, 1, 3)
        elif k == 12:                               # grazing
            nr = grad(g, a); d = N.cross(nr, rand_unit(rng))
            d = d / N.sqrt((d**2).sum()) + nr * rng.choice([1e-1, 1e-2, 1e-3, 1e-4]) * [1., -1.][rng.randint(2)]
            v = a - d * rng.uniform(-.3, 1.2) * max(R, .02)
        elif k == 13:                               # nearly along an axis
            d = N.eye(3)[[2, 2, 0, 1][rng.randint(4)]] * [1., -1.][rng.randint(2)] + rand_unit(rng) * 10**rng.uniform(-6, -1)
            v = a - d * (rng.uniform(-1, 4) if rng.randint(3) else rng.uniform(20, 300))
        elif k == 14:                               # nearly along the normal
            d = grad(g, a) * [1., -1.][rng.randint(2)] + rand_unit(rng) * 10**rng.uniform(-6, -1)
            v = a - d * rng.uniform(.1, 3)
        elif k == 15:                               # from just off the surface
            v = a + grad(g, a) * rng.choice([1e-2, 1e-3, 1e-4]) * [1., -1.][rng.randint(2)]
            d = rand_unit(rng)
        elif k == 16:                               # at the outline
            a = rim_point(rng, g); v = a + rand_unit(rng) * rng.uniform(.1, 2) * max(R, .3); d = a - v
        else:                                       # from far away
            v = rand_unit(rng) * (rng.uniform(8, 60) if rng.randint(4) else rng.uniform(60, 400)); d = a - v
        l = N.sqrt((d**2).sum())
        if l < 0.05: d = N.r_[0., 0., -1.]; l = 1.
        V.append(v); D.append(d / l)
    return N.array(V).reshape(-1, 3), N.array(D).reshape(-1, 3)
