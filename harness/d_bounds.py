"""Bounding volumes: d_bounds.py OUT SEED SIZE"""
from hlib import *
from geom import whole_frame
from tracer.object import AssembledObject
from tracer.assembly import Assembly
from tracer.boundary_shape import BoundarySphere, BoundaryCylinder, BoundaryPlane

def scenario(rng, out):
    whole = rng.randint(4) == 0          # everything in whole numbers: the border is decided, too
    rand_frame = (lambda rng: whole_frame(rng).astype([int, float][rng.randint(2)])) if whole else globals()["rand_frame"]
    sh = ["sphere", "cyl", "plane"][rng.randint(3)]; r = float(q([1., .5, rng.uniform(.1, 4), rng.uniform(.1, 4)][rng.randint(4)]))
    if whole: r = [1., .5, 5., 10.][rng.randint(4)] if rng.randint(2) else int(rng.randint(1, 11))
    steps = []; fr = rand_frame(rng)
    if sh == "sphere": fr[:3, :3] = N.eye(3)
    loc, rot = fr[:3, 3].copy(), fr[:3, :3].copy()
    if rng.randint(6) == 0: loc = None; fr[:3, 3] = 0
    if rng.randint(6) == 0: rot = None; fr[:3, :3] = N.eye(3)
    chain = [fr]; nodes = []
    def build():
        if sh == "sphere": b = BoundarySphere(location=loc, radius=r) if r != 1 else BoundarySphere(loc)
        elif sh == "cyl": b = BoundaryCylinder(2 * r, location=loc, rotation=rot) if r != .5 else BoundaryCylinder(location=loc, rotation=rot)
        else: b = BoundaryPlane(location=loc, rotation=rot)
        nodes.append(b)
        k = rng.randint(4)
        if k:
            fo = rand_frame(rng)
            if rng.randint(2): o = AssembledObject(bounds=[b], transform=fo.copy())
            else:
                o = AssembledObject(transform=fo.copy()) if rng.randint(2) else AssembledObject(surfs=[], transform=fo.copy()); o.add_boundary(b)
            nodes.insert(0, o); chain.insert(0, fo)
        if k > 1:
            fa = rand_frame(rng)
            a = Assembly(objects=[o]); a.set_transform(fa.copy()); nodes.insert(0, a); chain.insert(0, fa)
        if k > 2:
            fa = rand_frame(rng)
            c = Assembly(subassemblies=[a]); c.set_transform(fa.copy()); nodes.insert(0, c); chain.insert(0, fa)
    _, exc = guarded(build)
    steps.append({"op": "build", "exc": exc, "same": True, "chain": []})
    for _ in range(0 if exc else rng.randint(3, 8)):
        k = rng.randint(5)
        W = N.eye(4)
        for f in chain: W = N.dot(W, f)
        if k == 0:
            w = rng.randint(len(chain)); f = rand_frame(rng)
            if w == len(chain) - 1 and sh == "sphere": f[:3, :3] = N.eye(3)
            how = rng.randint(3); x = nodes[w]
            if how == 0: fn = lambda: x.set_transform(f.copy())
            elif how == 1: f[:3, :3] = chain[w][:3, :3]; fn = lambda: x.set_location(f[:3, 3].copy())
            else: f[:3, 3] = chain[w][:3, 3]; fn = lambda: x.set_rotation(f[:3, :3].copy())
            chain[w] = f
            _, exc = guarded(fn)
            steps.append({"op": "move", "exc": exc, "same": True, "chain": []})
            if exc: break
        elif k == 1 and sh == "sphere":
            T = rand_frame(rng)
            if rng.randint(3):           # a plane that cuts
                T[:3, 3] = q(W[:3, 3] + rand_unit(rng) * rng.uniform(0, 1.1) * r)
            st = {"op": "rect", "exc": "", "same": True, "chain": [mat(f) for f in chain], "t": mat(T), "ans": []}
            arg = T.copy()
            o, st["exc"] = guarded(lambda: [enc(x) for x in nodes[-1].bounding_rect_for_plane(arg)])
            if o is not None: st["ans"] = o
            st["same"] = bool(N.array_equal(arg, T)); steps.append(st)
        else:
            n = [0, 1, 1, 2, 3, 4, 7, 20][rng.randint(8)]
            l = rng.uniform(-1.5, 1.5, (n, 3)) * r
            if rng.randint(3) == 0 and n:        # close to the border, either side
                l = N.array([rand_unit(rng) for _ in range(n)])
                if sh == "cyl": l[:, :2] /= N.sqrt((l[:, :2]**2).sum(axis=1))[:, None]
                l = l * r * rng.choice([.999, 1.001, .9, 1.1], n)[:, None]
                if sh == "plane": l[:, 2] = rng.choice([-1e-3, 1e-3], n)
            if whole and n:
                l = rng.randint(-6, 7, (n, 3)).astype(float)
                for j in range(n):
                    if rng.randint(3) == 0:              # on the border
                        a = N.array([[r, 0, 0], [.6 * r, .8 * r, 0]][rng.randint(2) if r % 5 == 0 else 0])
                        if sh == "sphere": l[j] = a[rng.permutation(3)] * rng.choice([-1, 1], 3)
                        elif sh == "cyl": l[j, :2] = a[rng.permutation(2)] * rng.choice([-1, 1], 2)
                        else: l[j, 2] = 0
                l = N.round(l * 2) / 2
            pts = q(N.dot(W[:3, :3], l.T).T + W[:3, 3])
            if rng.randint(8) == 0: pts = N.round(pts).astype(int)
            if whole and rng.randint(2) and (pts == N.round(pts)).all(): pts = pts.astype(int)
            cp = pts.copy()
            st = {"op": "in", "whole": bool(whole), "exc": "", "same": True, "chain": [mat(f) for f in chain], "pts": cols(pts.T), "ans": []}
            o, st["exc"] = guarded(lambda: ["T" if x else "F" for x in N.asarray(nodes[-1].in_bounds(pts)).ravel()])
            if o is not None: st["ans"] = o
            st["same"] = bool(N.array_equal(pts, cp)); steps.append(st)
    out.put({"fam": sh, "cover": [sh, "depth%d" % len(chain)] + ["whole"] * bool(whole), "b": {"shape": sh, "r": enc(r)}, "steps": steps})

if __name__ == "__main__":
    path, seed, size, rest = args()
    rng = N.random.RandomState(seed); out = Out(path)
    for _ in range(size): scenario(rng, out)
    out.close()
