"""Stand-ins for the display libraries (MayaVi, Traits, Qt), which are not installed here.

They keep the state a user would see - the meshes and lines on the 3D scene, the
items of a tree widget - and let the real modules of tracer run unchanged.
Names they do not know answer with an object that accepts anything.
"""
import sys, types
import numpy as N

class Loose(object):
    """Accepts anything, shows nothing."""
    def __init__(self, *a, **k): pass
    def __call__(self, *a, **k): return Loose()
    def __getattr__(self, nm):
        if nm.startswith("__"): raise AttributeError(nm)
        return Loose()
    def __iter__(self): return iter(())
    def __bool__(self): return True
    def __or__(self, o): return self
    __ror__ = __and__ = __rand__ = __or__

class LooseModule(types.ModuleType):
    def __getattr__(self, nm):
        if nm.startswith("__"): raise AttributeError(nm)
        return Loose

def module(name, **kw):
    m = LooseModule(name); m.__path__ = []
    for k, v in kw.items(): m.__dict__[k] = v
    sys.modules[name] = m
    if "." in name:
        up, last = name.rsplit(".", 1)
        if up not in sys.modules: module(up)
        sys.modules[up].__dict__[last] = m
    return m

# ---- Traits
class Instance(object):
    """A trait holding an instance, made when first asked for if default arguments are given."""
    def __init__(self, klass=None, args=None, kw=None, **meta): self.klass, self.args, self.kw = klass, args, kw or {}
    def __set_name__(self, owner, nm): self.nm = nm
    def __get__(self, obj, owner):
        if obj is None: return self
        if self.nm not in obj.__dict__: obj.__dict__[self.nm] = None if self.args is None else self.klass(*self.args, **self.kw)
        return obj.__dict__[self.nm]
    def __set__(self, obj, v): obj.__dict__[self.nm] = v

class HasTraits(object):
    def __init__(self, *a, **kw):
        for k, v in kw.items(): setattr(self, k, v)
    def trait_set(self, **kw):
        for k, v in kw.items(): setattr(self, k, v)
        return self
    set = trait_set
    def on_trait_change(self, *a, **k): pass
    def __getattr__(self, nm):
        if nm.startswith("trait") or nm.startswith("add_trait"): return Loose()
        raise AttributeError(nm)

# ---- MayaVi
class Source(object):
    """Data behind something drawn."""
    def __init__(self, xyz): self.put(*xyz)
    def put(self, *xyz): self.xyz = [N.array(c, dtype=float) for c in xyz]
    def set(self, **kw):
        self.xyz = [N.array(kw.get(nm, c), dtype=float) for nm, c in zip("xyz", self.xyz)]
    trait_set = reset = set
    @property
    def x(self): return self.xyz[0]
    @property
    def y(self): return self.xyz[1]
    @property
    def z(self): return self.xyz[2]
    def __getattr__(self, nm):
        if nm.startswith("__"): raise AttributeError(nm)
        return Loose()

class Drawn(object):
    """Something that may be on the scene."""
    def __init__(self, scene, what, src, **kw):
        self.scene, self.what, self.mlab_source, self.look = scene, what, src, kw
    def add(self):
        self.scene.live.append(self); return self
    def remove(self):
        self.scene.live[:] = [x for x in self.scene.live if x is not self and getattr(x, "on", None) is not self]
    @property
    def visible(self): return self.__dict__.get("_vis", True)
    @visible.setter
    def visible(self, v): self.__dict__["_vis"] = bool(v)
    def __getattr__(self, nm):
        if nm.startswith("__") or nm in ("on",): raise AttributeError(nm)
        return Loose()

class Dataset(object):
    lines = None
    def __getattr__(self, nm):
        if nm.startswith("__"): raise AttributeError(nm)
        return Loose()

class Pipeline(object):
    def __init__(self, scene): self.scene = scene
    def scalar_scatter(self, x, y, z, *a, **kw):
        src = Source((x, y, z)); src.dataset = Dataset()
        return Drawn(self.scene, "points", src, **kw).add()
    def surface(self, src, *a, **kw):
        d = Drawn(self.scene, "lines", src.mlab_source, **kw); d.on = src
        return d.add()
    def __getattr__(self, nm):
        if nm.startswith("__"): raise AttributeError(nm)
        return Loose()

class Mlab(object):
    def __init__(self, scene): self.scene, self.pipeline = scene, Pipeline(scene)
    def mesh(self, x, y, z, **kw): return Drawn(self.scene, "mesh", Source((x, y, z)), **kw).add()
    def clf(self, *a, **k): self.scene.live[:] = []
    def __getattr__(self, nm):
        if nm.startswith("__"): raise AttributeError(nm)
        return Loose()

class MlabSceneModel(object):
    def __init__(self, *a, **k):
        self.live = []; self.mlab = Mlab(self); self.disable_render = False; self.background = (0., 0., 0.)
    def __getattr__(self, nm):
        if nm.startswith("__"): raise AttributeError(nm)
        return Loose()

def meshes(scene):
    return [x for x in scene.live if x.what == "mesh" and x.visible]

def segments(scene):
    """Start and end points, (n, 3) each, of all line segments on the scene."""
    A, B = [N.empty((0, 3))], [N.empty((0, 3))]
    for x in scene.live:
        if x.what != "lines" or not x.visible or x.mlab_source.dataset.lines is None: continue
        p = N.array([N.ravel(c) for c in x.mlab_source.xyz]).T
        c = N.asarray(x.mlab_source.dataset.lines)
        if c.size == 0: continue
        if c.min() < 0: raise IndexError("a line refers to a point before the first one")
        A.append(p[c[:, 0].astype(int)]); B.append(p[c[:, 1].astype(int)])
    return N.vstack(A), N.vstack(B)

# ---- Qt
class Signal(object):
    def __init__(self): self.to = []
    def connect(self, f): self.to.append(f)
    def disconnect(self, f=None): self.to = [] if f is None else [g for g in self.to if g != f]
    def emit(self, *a):
        for f in list(self.to):
            try: f(*a)
            except TypeError:
                if len(a) < 2: raise
                f(*a[:1])

class QTreeWidgetItem(object):
    def __init__(self, *a):
        self._text, self._kids, self._up, self._tree, self._flags, self._data = [], [], None, None, 0, {}
        up = None
        for x in a:
            if isinstance(x, QTreeWidget) or isinstance(x, QTreeWidgetItem): up = x
            elif isinstance(x, (list, tuple)): self._text = [str(t) for t in x]
        if isinstance(up, QTreeWidget): up.addTopLevelItem(self)
        elif up is not None: up.addChild(self)
    def text(self, col=0): return self._text[col] if col < len(self._text) else ""
    def setText(self, col, t):
        while len(self._text) <= col: self._text.append("")
        if self._text[col] == t: return
        self._text[col] = t
        w = self.treeWidget()
        if w is not None and not w._blocked: w.itemChanged.emit(self, col)
    def data(self, col, role=0): return self._data.get((col, role), self.text(col) if role in (0, 2) else None)
    def setData(self, col, role, v):
        if role in (0, 2): self.setText(col, v)
        else: self._data[(col, role)] = v
    def flags(self): return self._flags
    def setFlags(self, f): self._flags = f
    def addChild(self, c): self.insertChild(len(self._kids), c)
    def addChildren(self, cs):
        for c in cs: self.addChild(c)
    def insertChild(self, k, c): self._kids.insert(k, c); c._up = self
    def removeChild(self, c): self._kids = [x for x in self._kids if x is not c]; c._up = None
    def takeChild(self, k): c = self._kids[k]; self.removeChild(c); return c
    def takeChildren(self):
        cs = self._kids; self._kids = []
        for c in cs: c._up = None
        return cs
    def child(self, k): return self._kids[k] if 0 <= k < len(self._kids) else None
    def childCount(self): return len(self._kids)
    def indexOfChild(self, c): return [i for i, x in enumerate(self._kids) if x is c][0] if any(x is c for x in self._kids) else -1
    def parent(self): return self._up
    def columnCount(self): return len(self._text)
    def treeWidget(self):
        x = self
        while x._up is not None: x = x._up
        return x._tree
    def setExpanded(self, v): self._open = v
    def isExpanded(self): return getattr(self, "_open", False)
    def __getattr__(self, nm):
        if nm.startswith("set") or nm.startswith("is"): return Loose()
        raise AttributeError(nm)

class QTreeWidget(object):
    def __init__(self, *a): self._init()
    def _init(self):
        if "_top" not in self.__dict__: self._top, self._blocked, self.itemChanged = [], False, Signal()
    def addTopLevelItem(self, it): self.insertTopLevelItem(len(self._top), it)
    def addTopLevelItems(self, its):
        for it in its: self.addTopLevelItem(it)
    def insertTopLevelItem(self, k, it): self._top.insert(k, it); it._tree = self; it._up = None
    def takeTopLevelItem(self, k):
        it = self._top.pop(k); it._tree = None
        return it
    def topLevelItem(self, k): return self._top[k] if 0 <= k < len(self._top) else None
    def topLevelItemCount(self): return len(self._top)
    def indexOfTopLevelItem(self, it): return [i for i, x in enumerate(self._top) if x is it][0] if any(x is it for x in self._top) else -1
    def invisibleRootItem(self): return None
    def clear(self):
        for it in self._top: it._tree = None
        self._top = []
    def expandItem(self, it): it.setExpanded(True)
    def blockSignals(self, v):
        was, self._blocked = self._blocked, bool(v)
        return was
    def __getattr__(self, nm):
        if nm.startswith("_"): raise AttributeError(nm)
        return Loose()

def install():
    module("traits.api", HasTraits=HasTraits, Instance=Instance)
    module("traitsui.api")
    module("mayavi.tools.mlab_scene_model", MlabSceneModel=MlabSceneModel)
    module("mayavi.core.ui.mayavi_scene"); module("mayavi.mlab")
    module("tvtk.pyface.scene_editor")
    core = module("PyQt4.QtCore"); core.Qt = types.SimpleNamespace(ItemIsEditable=2, ItemIsSelectable=1, ItemIsEnabled=32, ItemIsDragEnabled=4, ItemIsDropEnabled=8,
        ItemIsUserCheckable=16, DisplayRole=0, EditRole=2, UserRole=32)
    module("PyQt4.QtGui", QTreeWidgetItem=QTreeWidgetItem, QTreeWidget=QTreeWidget)
