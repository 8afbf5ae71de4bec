"""Shared pieces of the drivers: fixed-point encoding, scenario files, guarded calls.

The drivers run the real code (a Python 3 translation of /repo's working tree,
made by bin/vlib.py) and write what they observed as ndjson, one scenario per
line.  They do not judge anything: TLC does, with the specifications in spec/.
"""
import json, math, os, sys, traceback, warnings
warnings.simplefilter("ignore")
import numpy as N
N.seterr(all="ignore")

HB = 1 << 30
INF, NINF, NAN = [2147483647, 0], [-2147483647, 0], [2147483647, 1]
LIM = 2147483647 * HB

def enc(x):
    """A real number as the <<hi, lo>> pair of Num.tla."""
    x = float(x)
    if x != x: return NAN
    if x == math.inf: return INF
    if x == -math.inf: return NINF
    n = int(math.floor(math.ldexp(x, 40) + 0.5)) if abs(x) < 4e6 else None
    if n is None or abs(n) >= LIM: return NAN
    return [n >> 30, n & (HB - 1)]

def dec(p):
    if p == INF: return math.inf
    if p == NINF: return -math.inf
    if p == NAN: return math.nan
    return (p[0] * HB + p[1]) * 2.0**-40

def vec(a):
    """1D array of any length -> list of pairs."""
    return [enc(x) for x in N.asarray(a, dtype=float).ravel().tolist()]

def cols(a):
    """(3, n) array -> n lists of 3 pairs (one per ray)."""
    a = N.asarray(a, dtype=float)
    return [[enc(x) for x in c] for c in a.T.tolist()]

def mat(a):
    return [[enc(x) for x in r] for r in N.asarray(a, dtype=float).tolist()]

def q(x):
    """Round a float onto the grid of Num, so that code and specification see the same value."""
    return N.floor(N.asarray(x, dtype=float) * 2.0**40 + 0.5) * 2.0**-40

def ints(a):
    out = []
    for x in N.asarray(a).ravel().tolist():
        xi = int(x) if x == x and abs(x) < 2e9 else -999999999
        out.append(xi if xi == x else -999999999)   # non-integral index: never valid
    return out

def shape(a):
    return list(N.shape(a))

class Out(object):
    """Scenario writer."""
    def __init__(self, path):
        self.f = open(path, "w"); self.n = 0; self.steps = 0
    def put(self, sc):
        self.n += 1
        sc["id"] = self.n
        self.steps += len(sc.get("steps", [1]))
        self.f.write(json.dumps(sc, separators=(",", ":")) + "\n")
    def close(self):
        self.f.close()

def guarded(fn, *a, **k):
    """Call the code under test; an exception is an observation, not a failure of the driver."""
    try:
        return fn(*a, **k), ""
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        if os.environ.get("VERIF_TRACE"): traceback.print_exc()
        return None, ("%s: %s" % (type(e).__name__, e))[:200]

def state_of(b):
    """Everything a bundle answers through its getters: name -> copy of the array, or nothing if it has no such property."""
    out = {}
    for nm in sorted(set(dir(b)) | set(getattr(b, "__dict__", {}))):
        if not nm.startswith("get_"): continue
        f = getattr(b, nm, None)
        if not callable(f): continue
        x, exc = guarded(f)
        if exc == "" and x is not None: out[nm] = N.array(x)
    return out

def same_state(x, y):
    return sorted(x) == sorted(y) and all(x[k].shape == y[k].shape and x[k].dtype == y[k].dtype and
        bool(N.array_equal(x[k], y[k]) or N.all((x[k] == y[k]) | ((x[k] != x[k]) & (y[k] != y[k])))) for k in x)

def rot_axis(axis, c, s):
    """Rotation by the angle with cosine c, sine s about a unit axis (independent of the code under test)."""
    x, y, z = axis; v = 1 - c
    return N.array([[x*x*v + c, x*y*v - z*s, x*z*v + y*s],
                    [y*x*v + z*s, y*y*v + c, y*z*v - x*s],
                    [z*x*v - y*s, z*y*v + x*s, z*z*v + c]])

def rand_unit(rng):
    while True:
        v = rng.uniform(-1, 1, 3); n = N.sqrt((v**2).sum())
        if 0.1 < n <= 1: return v / n

def rand_rot(rng):
    a = rng.uniform(0, 2*N.pi)
    return rot_axis(rand_unit(rng), N.cos(a), N.sin(a))

def rand_frame(rng, scale=3.):
    k = rng.randint(8)
    f = N.eye(4)
    if k == 0:
        pass
    elif k == 1:                       # axis-aligned quarter turns
        f[:3, :3] = rot_axis(N.eye(3)[rng.randint(3)], *[(0., 1.), (-1., 0.), (0., -1.)][rng.randint(3)])
        f[:3, 3] = rng.randint(-3, 4, 3)
    elif k == 2:
        f[:3, 3] = rng.uniform(-scale, scale, 3)
    else:
        f[:3, :3] = rand_rot(rng); f[:3, 3] = rng.uniform(-scale, scale, 3)
    return q(f)

def args():
    """driver.py OUT SEED SIZE [extra...]"""
    return sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
