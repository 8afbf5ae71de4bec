"""Traces through random real scenes: nested assemblies, all surface kinds and optics."""
from scenes import *

FAMS = {"opaque": ["mirror", "refl", "recv", "onesided", "recv"], "glass": ["refr", "refr", "mirror", "recv"],
        "diffuse": ["lamb", "lrecv", "mirror", "refr"], "books": ["recv", "mirror", "recv"]}

def jig(rng, f):
    """Off any round position: no two surfaces at exactly the same place."""
    f = f.copy(); f[:3, 3] = q(f[:3, 3] + rng.uniform(-.2, .2, 3)); return f

def rand_scene(rng, fam):
    acct = [1]
    parts = []
    for _ in range(rng.randint(1, 4)):
        k = rng.randint(8)
        if k == 0 and fam in ("opaque", "diffuse"): parts.append(osm_part(rng))
        elif k == 1 and fam in ("opaque", "diffuse") and acct[0] <= 6:
            parts.append(osr_part(rng, acct[0])); acct[0] += 1
        else: parts.append(obj_part(rng, rng.randint(1, 4), FAMS[fam], acct, None))
    for p in parts: p.frame = jig(rng, p.frame)
    ng = rng.randint(0, 3)
    groups = [rand_frame(rng, 1.) for _ in range(ng)]
    where = [int(rng.randint(0, ng + 1)) for _ in parts]
    root = rand_frame(rng, 1.) if rng.randint(4) == 0 else N.eye(4)
    return Scene(parts, where, root, groups)

def move(rng, scene):
    """Move some node; returns a function that moves it back."""
    k = rng.randint(4)
    if k == 0 and scene.groups:
        j = rng.randint(len(scene.groups)); node = scene.nodes["g"][j]
        old = scene.groups[j]
        def put(f): scene.groups[j] = f
    elif k == 1:
        node = scene.nodes["root"]; old = scene.root
        def put(f): scene.root = f
    else:
        j = rng.randint(scene.now); node = scene.nodes["p"][j]; old = scene.parts[j].frame
        def put(f): scene.parts[j].frame = f
    def to(f):
        def go():
            if rng.randint(2): node.set_transform(f.copy())
            else: node.set_rotation(f[:3, :3].copy()); node.set_location(f[:3, 3].copy())
        _, exc = guarded(go)
        put(f)
        return scene.place(exc)
    return to, old

def scenario(rng, out, fam, crowd=False):
    sc = rand_scene(rng, fam)
    if rng.randint(4) == 0: sc.now = int(rng.randint(0, len(sc.parts)) or 1)
    steps = []
    _, exc = guarded(sc.build)
    steps.append(sc.place(exc))
    cover = ["crowd"] * crowd + sorted(set(sum([p.kinds for p in sc.parts], []))) + (["nested"] if sc.groups else [])
    if exc:
        out.put(sc.head(fam, steps, cover)); return
    n = [1, 3, 6, 10][rng.randint(4)] if not crowd else 150
    v, d = aimed(rng, sc, n)
    r = rays(rng, v, d, index=(1., 1.5) if fam in ("glass", "diffuse") else (1.,))
    reps = int(rng.randint(1, 6 if fam != "glass" else 5))
    if crowd: reps = min(reps, 2)
    mn = float(q([0., 1e-3, 0.3, 2.][rng.randint(4)]))
    det = fam != "diffuse"
    engine = TracerEngine(sc.asm)
    steps.append(trace(sc, engine, r, reps, mn, keep=det))
    if sc.books and rng.randint(2):
        steps.append(ledger(sc))
    def ask():
        for a in sorted(sc.books): steps.append(query(sc, a))
    if sc.books and rng.randint(2): ask()
    for _ in range(rng.randint(0, 4)):
        k = rng.randint(7)
        if steps[-1].get("exc"): break
        if sc.now < len(sc.parts) and rng.randint(2):      # something joins the scene
            _, exc = guarded(sc.grow)
            steps.append(sc.place(exc)); cover.append("grown")
            v, d = aimed(rng, sc, n)
            r = rays(rng, v, d)
            if not exc: steps.append(trace(sc, engine, r, reps, mn, keep=det))
        elif k == 0 and det:                                 # the same again
            steps.append(trace(sc, engine if rng.randint(2) else TracerEngine(sc.asm), r, reps, mn, cmp="C06"))
        elif k in (1, 2) and det:                          # other company
            m = rng.randint(3)
            if m == 0: idx = rng.permutation(n)
            elif m == 1: idx = rng.permutation(n)[:rng.randint(1, n + 1)]
            else: idx = rng.randint(0, n, rng.randint(1, 2 * n + 1))
            cover.append("company")
            steps.append(trace(sc, TracerEngine(sc.asm) if rng.randint(2) else engine, pick(r, idx), reps, mn, cmp="C02"))
        elif k == 3:                                       # moved, used, moved back
            to, old = move(rng, sc)
            steps.append(to(jig(rng, rand_frame(rng, 1.))))
            v2, d2 = aimed(rng, sc, 3)
            steps.append(trace(sc, engine, rays(rng, v2, d2), 2, mn))
            if rng.randint(3) == 0:
                to2, old2 = move(rng, sc); steps.append(to2(jig(rng, rand_frame(rng, 1.)))); steps.append(to2(old2))
            steps.append(to(old))
            cover.append("moved-back")
            if det: steps.append(trace(sc, engine if rng.randint(2) else TracerEngine(sc.asm), r, reps, mn, cmp="C06"))
        elif k == 4:                                       # another bundle
            v2, d2 = aimed(rng, sc, rng.randint(1, 5))
            steps.append(trace(sc, engine, rays(rng, v2, d2), int(rng.randint(1, 4)), mn))
        elif k == 5 and sc.books:
            steps.append(reset(sc))
            if rng.randint(2): ask()
        else:
            if sc.books: ask()
    if sc.books and not steps[-1].get("exc"):
        ask()
        if rng.randint(2): steps.append(ledger(sc))
    out.put(sc.head(fam, steps, cover))

def many(rng, out):
    """A bundle of tens of thousands of rays."""
    sc = rand_scene(rng, ["opaque", "glass"][rng.randint(2)])
    _, exc = guarded(sc.build)
    steps = [sc.place(exc)]
    if not exc:
        n = 70000
        v, d = aimed(rng, sc, 40); w = rng.randint(0, 40, n)
        v = q(v[:, w] + rng.uniform(-.3, .3, (3, n))); d = d[:, w] + rng.uniform(-.05, .05, (3, n)); d = d / N.sqrt((d**2).sum(axis=0))
        some = N.sort(N.r_[rng.permutation(n)[:25], n - 1 - rng.permutation(300)[:5]])
        steps.append(trace_many(sc, TracerEngine(sc.asm), rays(rng, v, d, index=(1., 1.5)), 3, 0., N.unique(some)))
    out.put(sc.head("many", steps, ["many"]))

def tie(rng, out):
    """Two faces sharing an edge, hit exactly on it: both handle the ray (pinned by the pyramid test)."""
    p = N.eye(4)
    m = {"k": "obj", "skip": False, "surfs": [{"g": geom.enc_geom({"k": "rect", "p": [2., 2.]}), "o": enc_opt(opt_spec("mirror")), "acct": 0}] * 2}
    def build(scene):
        return AssembledObject(surfs=[Surface(geom.make_gm({"k": "rect", "p": [2., 2.]}), make_opt(opt_spec("mirror"))) for _ in range(2)])
    part = Part(m, build, N.eye(4), [N.eye(4), N.eye(4)])
    sc = Scene([part], [0], N.eye(4), [])
    _, exc = guarded(sc.build)
    steps = [sc.place(exc)]
    r = rays(rng, N.c_[[0.25, 0.5, 1.]], N.c_[[0., 0., -1.]], energy=N.r_[1.])
    steps.append(trace(sc, TracerEngine(sc.asm), r, 1, 0.))
    out.put(sc.head("tie", steps, kf="tie"))

def main():
    path, seed, size, rest = args()
    rng = N.random.RandomState(seed); N.random.seed(seed)
    out = Out(path)
    fams = {"all": ["opaque", "glass", "diffuse", "books"], "books": ["books", "opaque", "books", "glass"]}[rest[0] if rest else "all"]
    if seed % 1000 == 0: tie(rng, out)
    if not rest or rest[0] == "all": many(rng, out)
    for i in range(size): scenario(rng, out, fams[i % len(fams)], i == size // 2)
    out.close()

if __name__ == "__main__":
    main()
