"""Histories of operations on the real RayBundle."""
from hlib import *
from tracer.ray_bundle import RayBundle, concatenate_rays

SCALE = 8.
WIDTH = {"vertices": 3, "directions": 3, "pol": 2, "mat": 1}
BASE = ["vertices", "directions", "energy", "parents", "ref_index"]
EXTRA = ["wavelength", "mark", "pol", "tag_", "mat"]
INTS = ("parents", "mark")

def value(rng, p, n):
    if p in WIDTH:
        return rng.randint(-800, 800, (WIDTH[p], n)) / SCALE
    if p in INTS: return rng.randint(0, 50, n)
    if p == "tag_" : return rng.randint(0, 2, n).astype(bool)
    return rng.randint(-800, 800, n) / SCALE

def coded(p, v):
    v = N.asarray(v)
    if v.ndim == 2: return [ints(c * SCALE) for c in v.astype(float).T]
    if v.ndim == 1: return ints(v.astype(float) * SCALE)
    return [-7]

def snap(b):
    r = {}
    for p in BASE + EXTRA:
        v, exc = guarded(lambda: getattr(b, "get_" + p)())
        if not exc and v is not None: r[p] = coded(p, v)
    return r

def selector(rng, n, bools=True):
    k = rng.randint(7)
    if k == 0: s = N.array([], dtype=int)
    elif k == 1: s = rng.permutation(n)
    elif k == 2 and n: s = rng.randint(0, n, rng.randint(1, n + 3))
    elif k == 3 and bools: s = rng.randint(0, 2, n).astype(bool)
    elif k == 4: s = N.s_[int(rng.randint(0, n + 1)):]
    elif k == 5: s = N.s_[::2]
    elif k == 6 and n: s = N.sort(rng.permutation(n)[:rng.randint(1, n + 1)])
    else: s = N.s_[:]
    return s, [int(x) for x in N.arange(n)[s]]

def scenario(rng, out):
    regs, steps, cover = [], [], set()
    given = []                                  # pairs of bundles the caller has given the same arrays, for these properties
    def done(op, res, exc, to, **kw):
        if exc:
            steps.append(dict(op=op, exc=exc, to=to, **kw)); return False
        if res is not None:
            if to <= len(regs): regs[to - 1] = res
            else: regs.append(res)
        b = regs[to - 1]
        def look():
            return dict(obs=[snap(x) for x in regs], num=int(b.get_num_rays()),
                        has=[p for p in BASE + EXTRA + ["nonesuch"] if b.has_property(p)])
        o, ex = guarded(look)
        st = dict(op=op, exc=ex, to=to, **kw)
        st.update(o or {})
        steps.append(st)
        cover.add(op)
        return not ex
    def fresh(extra, n):
        base = ["vertices", "directions"] + [p for p in BASE[2:] if rng.randint(4)]
        vals = dict((p, value(rng, p, n)) for p in base + extra)
        cp = dict((p, v.copy()) for p, v in vals.items())
        r, exc = guarded(lambda: RayBundle(**cp))
        return done("new", r, exc, len(regs) + 1, val=dict((p, coded(p, v)) for p, v in vals.items()))
    def twin(a):
        """A second bundle made from the arrays the getters of the first gave."""
        have = sorted(snap(regs[a]))
        vals = dict((p, getattr(regs[a], "get_" + p)()) for p in have)
        was = dict((p, coded(p, v)) for p, v in vals.items())
        r, exc = guarded(lambda: RayBundle(**vals))
        given.append((a, len(regs), have))
        return done("new", r, exc, len(regs) + 1, val=was)
    def shared(a, p):
        """Did the caller give this property's array to another bundle, too?"""
        return any(a in (x, y) and p in ps for x, y, ps in given)
    extra = [p for p in EXTRA if rng.randint(2)]
    ok = fresh(extra, rng.randint(0 if rng.randint(5) == 0 else 1, 6))
    for _ in range(rng.randint(3, 10)):
        if not ok: break
        a = rng.randint(len(regs)); b = rng.randint(len(regs))
        n, exc = guarded(regs[a].get_num_rays)
        if exc: break
        to = len(regs) + 1 if len(regs) < 4 else int(rng.randint(1, len(regs) + 1))
        have = sorted(snap(regs[a]))
        k = rng.randint(12)
        if k == 0 and len(regs) < 4 and rng.randint(3) == 0:
            ok = twin(a)
        elif k == 0 and len(regs) < 4:
            ok = fresh(extra if rng.randint(2) else [p for p in EXTRA if rng.randint(2)], rng.randint(0, 6))
        elif k <= 3:
            s, idx = selector(rng, n)
            ov = {}
            for p in BASE + extra:
                if rng.randint(4) == 0: ov[p] = value(rng, p, len(idx))
            if rng.randint(4) == 0: ov["wavelength"] = value(rng, "wavelength", len(idx))
            kw = dict((("direction" if p == "directions" else p), v.copy()) for p, v in ov.items())
            if isinstance(s, slice) and s == N.s_[:] and rng.randint(2):
                r, exc = guarded(lambda: regs[a].inherit(**kw))
            else:
                r, exc = guarded(lambda: regs[a].inherit(s, **kw))
            ok = done("inherit", r, exc, to, a=a + 1, sel=idx, ov=dict((p, coded(p, v)) for p, v in ov.items()))
        elif k == 4:
            s, idx = selector(rng, n, False)
            r, exc = guarded(lambda: regs[a].delete_rays(s))
            ok = done("delete", r, exc, to, a=a + 1, sel=idx)
        elif k == 5 or k == 6:
            r, exc = guarded(lambda: regs[a] + regs[b])
            ok = done("plus", r, exc, to, a=a + 1, b=b + 1)
        elif k == 7:
            same = [x for x in range(len(regs)) if set(have) <= set(snap(regs[x]))]
            lst = [a] + [same[rng.randint(len(same))] for _ in range(rng.randint(0, 4))]
            r, exc = guarded(lambda: concatenate_rays([regs[x] for x in lst]))
            ok = done("concat", r, exc, to, list=[x + 1 for x in lst])
        elif k == 8 and rng.randint(3) == 0:
            which = rng.randint(2)
            r, exc = guarded(lambda: concatenate_rays([]) if which else RayBundle.empty_bund())
            ok = done("empty", r, exc, to)
        elif k == 9:
            p = have[rng.randint(len(have))]
            v = value(rng, p, n)
            _, exc = guarded(lambda: getattr(regs[a], "set_" + p)(v.copy()))
            ok = done("setall", None, exc, a + 1, a=a + 1, p=p, val=coded(p, v))
        elif k == 10:
            p = have[rng.randint(len(have))]
            s, idx = selector(rng, n)
            v = value(rng, p, len(idx))
            if shared(a, p): continue            # the caller's doing
            _, exc = guarded(lambda: getattr(regs[a], "set_" + p)(v.copy(), s))
            ok = done("setsome", None, exc, a + 1, a=a + 1, p=p, sel=idx, val=coded(p, v))
        else:
            p = have[rng.randint(len(have))]
            s, idx = selector(rng, n)
            v, exc = guarded(lambda: getattr(regs[a], "get_" + p)(s))
            ok = done("get", None, exc, a + 1, a=a + 1, p=p, sel=idx, got=coded(p, v) if not exc else [])
    out.put({"fam": "bundle", "cover": sorted(cover), "steps": steps})

def main():
    path, seed, size, rest = args()
    rng = N.random.RandomState(seed)
    out = Out(path)
    for i in range(size): scenario(rng, out)
    out.close()

if __name__ == "__main__":
    main()
