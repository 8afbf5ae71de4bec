"""Rotation and transform helpers: d_spatial.py OUT SEED SIZE"""
from hlib import *
import tracer.spatial_geometry as sg

def angle(rng):
    k = rng.randint(6)
    if k == 0: return [0., N.pi / 2, N.pi, -N.pi / 2, 3 * N.pi / 2, 2 * N.pi, -N.pi, 0.25 * N.pi][rng.randint(8)]
    if k == 1: return float(rng.uniform(-1e-3, 1e-3))
    if k == 2: return float(rng.uniform(-40, 40))
    return float(rng.uniform(-2 * N.pi, 2 * N.pi))

def unit(rng):
    k = rng.randint(5)
    if k == 0: return N.eye(3)[rng.randint(3)] * [1., -1.][rng.randint(2)]
    if k == 1:      # nearly vertical
        t = 10.**rng.uniform(-8, -1); a = rng.uniform(0, 2 * N.pi)
        return N.array([N.sin(t) * N.cos(a), N.sin(t) * N.sin(a), N.cos(t) * rng.choice([-1, 1])])
    if k == 2:      # in a coordinate plane
        v = rand_unit(rng); v[rng.randint(3)] = 0.
        return v / N.sqrt((v**2).sum())
    return rand_unit(rng)

def step(rng):
    op = ["rotx", "roty", "rotz", "axis", "axis", "gen", "gen", "trans", "toz", "toz", "toz"][rng.randint(11)]
    a = angle(rng); u = unit(rng)
    st = {"op": op, "same": True, "out": [], "c": enc(N.cos(a)), "s": enc(N.sin(a))}
    keep = []
    if op[:3] == "rot": fn = lambda: getattr(sg, op)(a)
    elif op == "axis":
        st["u"] = vec(u); keep = [u]; fn = lambda: sg.general_axis_rotation(u, a)
    elif op == "gen":
        t = q(rng.uniform(-5, 5, 3)) if rng.randint(4) else rng.randint(-4, 5, 3)
        t = t[:, None]
        st["u"] = vec(u); st["t"] = vec(t); keep = [u, t]; fn = lambda: sg.generate_transform(u, a, t)
    elif op == "trans":
        t = q(rng.uniform(-5, 5, 3)) if rng.randint(2) else rng.randint(-4, 5, 3)
        st["t"] = vec(t); fn = lambda: sg.translate(*t)
    else:
        n = rng.randint(1, 7)
        if rng.randint(2) == 0: vs = unit(rng)
        else: vs = N.array([unit(rng) for _ in range(n)])
        if rng.randint(8) == 0: vs = N.round(N.eye(3)[rng.randint(0, 3, n)]).astype(int) if vs.ndim == 2 else N.eye(3, dtype=int)[rng.randint(3)]
        st["vecs"] = cols(N.atleast_2d(vs).T); keep = [vs]
        fn = lambda: sg.rotation_to_z(vs)
    cp = [x.copy() for x in keep]
    out, st["exc"] = guarded(fn)
    st["same"] = bool(all(N.array_equal(x, y) for x, y in zip(keep, cp)))
    if not st["exc"]:
        def conv():
            if op == "toz": st["out"] = [mat(m) for m in N.reshape(out, (-1, 3, 3))]
            else: st["out"] = mat(out)
        _, st["exc"] = guarded(conv)
    return st

if __name__ == "__main__":
    path, seed, size, rest = args()
    rng = N.random.RandomState(seed); out = Out(path)
    for _ in range(size):
        steps = [step(rng) for _ in range(8)]
        out.put({"fam": "spatial", "cover": sorted(set(x["op"] for x in steps)), "steps": steps})
    out.close()
