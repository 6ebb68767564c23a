"""P30: the type stubs describe the module.  The stubs are parsed; calls, values and results are generated from what they promise and
judged against what the module does."""
import ast
import copy
import ctypes
import inspect
import os
import pickle
import re
import sys

import numpy as np

import pyvp
import factorama as F
from factorama import _factorama as M

try:
    import scipy.sparse as sps
except ImportError:
    sps = None

STUBS = pyvp.args()["--stubs"]
libc = ctypes.CDLL(None)


def n_cases(thorough):
    return 150000 if thorough else 12000


# ------------------------------------------------------------------------------------------------ the stubs, parsed
class Sig:
    def __init__(self, node, owner):
        a = node.args
        self.owner, self.name = owner, node.name
        pos = a.posonlyargs + a.args
        if owner and pos and not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in node.decorator_list):
            pos = pos[1:]
        defaults = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        self.params = [(p.arg, p.annotation, d) for p, d in zip(pos, defaults)]
        self.ret = node.returns
        self.star = a.vararg or a.kwarg or a.kwonlyargs

    def __str__(self):
        return "%s.%s(%s)" % (self.owner or "", self.name, ", ".join(p[0] for p in self.params))


class Cls:
    def __init__(self, node):
        self.name = node.name
        self.bases = [b.id for b in node.bases if isinstance(b, ast.Name)]
        self.methods, self.props, self.attrs, self.consts = {}, {}, {}, {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                deco = [ast.unparse(d) for d in n.decorator_list]
                if "property" in deco:
                    self.props[n.name] = [n.returns, None]
                elif any(d.endswith(".setter") for d in deco):
                    self.props[n.name][1] = n.args.args[1].annotation
                else:
                    self.methods.setdefault(n.name, []).append(Sig(n, self.name))
            elif isinstance(n, ast.AnnAssign):
                if ast.unparse(n.annotation).startswith("typing.ClassVar"):
                    self.consts[n.target.id] = n.annotation
                else:
                    self.attrs[n.target.id] = n.annotation

    def public(self):
        return {n for n in list(self.methods) + list(self.props) + list(self.attrs) + list(self.consts) if not n.startswith("_")}


class Stub:
    def __init__(self, path):
        self.text = open(path).read()
        self.classes, self.functions, self.names, self.imported = {}, {}, set(), set()
        self.all = None
        for n in ast.parse(self.text).body:
            if isinstance(n, ast.ClassDef):
                self.classes[n.name] = Cls(n)
            elif isinstance(n, ast.FunctionDef):
                self.functions.setdefault(n.name, []).append(Sig(n, None))
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                if n.target.id == "__all__" and n.value is not None:
                    self.all = ast.literal_eval(n.value)
                else:
                    self.names.add(n.target.id)
            elif isinstance(n, ast.ImportFrom) and n.module and n.module.startswith("factorama"):
                self.imported |= {a.asname or a.name for a in n.names}
        # the values of enumeration members are given as comments
        self.members = {}
        for c, m, c2, v in re.findall(r"^\s+\w+: typing\.ClassVar\[\w+\]\s*# value = <(\w+)\.(\w+): (-?)(\d+)>", self.text, re.M):
            self.members.setdefault(c, {})[m] = int(c2 + v)


S = Stub(os.path.join(STUBS, "_factorama.pyi"))
P = Stub(os.path.join(STUBS, "__init__.pyi"))
ENUMS = sorted(c for c in S.classes if "__members__" in S.classes[c].consts)


# ------------------------------------------------------------------------------------------------ what annotations promise
def shape_of(ann):
    """[rows, cols] of an Annotated array, or None."""
    if isinstance(ann, ast.Subscript) and ast.unparse(ann.value).endswith("Annotated"):
        for e in ann.slice.elts:
            if isinstance(e, ast.Constant) and isinstance(e.value, str):
                return [int(x) if x.strip().isdigit() else x.strip() for x in e.value.strip("[]").split(",")]
    return None


def conforms(v, ann, where=""):
    """None, or what is wrong with v as a value annotated ann."""
    t = ast.unparse(ann) if ann is not None else "None"
    bad = "%r (%s) is not %s" % (v if not isinstance(v, np.ndarray) else v.shape, type(v).__name__, t)
    if t in ("None", "typing.Any", "Any"):
        return None if t != "None" or v is None else bad
    if t in ("float", "typing.SupportsFloat"):
        return None if type(v) is float else bad
    if t in ("int", "typing.SupportsInt"):
        return None if type(v) is int else bad
    if t == "bool":
        return None if type(v) is bool else bad
    if t == "str":
        return None if type(v) is str else bad
    if t.endswith("csc_matrix") or t.endswith("csc_array"):
        return None if sps is None or sps.isspmatrix_csc(v) else bad
    sh = shape_of(ann)
    if sh is not None:
        if type(v) is not np.ndarray or v.dtype != np.float64:
            return bad
        want = sh[:1] if sh[1] == 1 else sh
        if v.ndim != len(want) or any(isinstance(w, int) and w != n for w, n in zip(want, v.shape)):
            return bad
        return None
    if isinstance(ann, ast.BinOp):
        return None if conforms(v, ann.left) is None or conforms(v, ann.right) is None else bad
    if isinstance(ann, ast.Constant) and ann.value is None:
        return None if v is None else bad
    if isinstance(ann, ast.Subscript):
        b = ast.unparse(ann.value)
        if b in ("list", "typing.List", "List"):
            if type(v) is not list:
                return bad
            return next((x for x in (conforms(e, ann.slice) for e in v) if x), None)
        if b in ("tuple", "typing.Tuple", "Tuple"):
            el = ann.slice.elts
            if type(v) is not tuple or len(v) != len(el):
                return bad
            return next((x for x in (conforms(e, a) for e, a in zip(v, el)) if x), None)
        if b.endswith("Optional"):
            return None if v is None else conforms(v, ann.slice)
        if b.endswith("Union"):
            return None if any(conforms(v, a) is None for a in ann.slice.elts) else bad
        if b in ("dict", "typing.Dict"):
            return None if type(v) is dict else bad
    n = t.split(".")[-1]
    if n in S.classes and hasattr(M, n):
        return None if isinstance(v, getattr(M, n)) else bad
    return None


def rodrigues(w):
    return M.ExpMapSO3(np.asarray(w, float))


class World:
    def __init__(self, c, r):
        self.c, self.r = c, r
        self.nid = r.randrange(0, 50)
        self.keep = []

    def id(self):
        self.nid += self.r.randrange(1, 4)
        return self.nid

    def x(self, lo=-3, hi=3):
        """A number that single precision and decimal text represent exactly."""
        return self.r.randrange(lo * 64, hi * 64 + 1) / 64.0

    def pos(self):
        return self.r.randrange(8, 200) / 64.0

    def vec(self, n, lo=-3, hi=3):
        return np.array([self.x(lo, hi) for _ in range(n)])

    def unit(self):
        return self.r.choice([np.array(v, float) for v in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (0, -1, 0), (0.6, 0.8, 0), (0, 0.28, -0.96))])

    def rot(self):
        return rodrigues(self.vec(3, -2, 2))

    def variable(self, cls, n=None):
        if cls == "Variable":
            cls = "GenericVariable"
        v = self.build_variable(cls, n)
        self.keep.append(v)
        return v

    def build_variable(self, cls, n=None):
        i = self.id()
        if cls == "PoseVariable":
            return M.PoseVariable(i, np.concatenate([self.vec(3), self.vec(3, -1, 1)]))
        if cls == "LandmarkVariable":
            return M.LandmarkVariable(i, self.vec(3) + np.array([0.0, 0.0, 12.0]))
        if cls == "GenericVariable":
            return M.GenericVariable(i, self.vec(n or 3))
        if cls == "RotationVariable":
            return M.RotationVariable(i, self.rot())
        if cls == "InverseRangeVariable":
            return M.InverseRangeVariable(i, self.vec(3) + np.array([0.0, 9.0, 0.0]), self.unit(), 4 + self.pos())
        if cls == "PlaneVariable":
            return M.PlaneVariable(i, self.unit(), self.x())
        if cls == "Pose2DVariable":
            return M.Pose2DVariable(i, self.vec(3))
        raise pyvp.Skip()

    # values for one parameter list; None where no value is known
    def values(self, cls, sig):
        dim = self.r.randrange(1, 5)
        out = {}
        for name, ann, dflt in sig.params:
            t = ast.unparse(ann) if ann is not None else ""
            sh = shape_of(ann)
            if t == "typing.SupportsInt":
                v = self.id()
            elif t == "typing.SupportsFloat":
                v = self.pos()
            elif t == "bool":
                v = self.r.random() < 0.5
            elif sh == [3, 1]:
                v = self.unit() if re.search("bearing|normal", name) else self.vec(3)
            elif sh == [3, 3]:
                v = self.rot()
            elif sh and isinstance(sh[0], int):
                v = self.vec(sh[0] * sh[1]).reshape(sh if sh[1] != 1 else sh[:1])
            elif sh:
                v = self.vec(dim)
            elif t in S.classes and t in ENUMS:
                v = getattr(M, t)(self.r.choice(sorted(S.members.get(t, {0: 0}).values())))
            elif t in S.classes:
                n = dim
                if cls == "PosePositionBetweenFactor" or cls == "Pose2DBetweenFactor" or cls == "PlaneFactor":
                    n = 3
                if cls in ("BearingObservationFactor2D", "RangeBearingFactor2D"):
                    n = 2
                if cls == "CoordinateTransformFactor":
                    n = 1 if name.startswith("scale") else 3
                if cls == "LinearVelocityFactor":
                    n = dim
                v = self.variable(t, n)
            else:
                return None
            out[name] = v
        return out


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return isinstance(b, float) and b != b
    if sps is not None and sps.issparse(a):
        return sps.issparse(b) and same(a.toarray(), b.toarray())
    if isinstance(a, M.Variable):
        return isinstance(b, M.Variable) and type(a) is type(b) and same(a.value(), b.value()) and a.id() == b.id()
    if isinstance(a, M.Factor):
        return isinstance(b, M.Factor) and type(a) is type(b) and a.id() == b.id()
    if isinstance(a, (M.OptimizerStats, M.OptimizerSettings)):
        return type(a) is type(b) and all(same(getattr(a, n), getattr(b, n)) for n in dir(a) if not n.startswith("_"))
    return type(a) is type(b) and a == b


def mro(cls):
    out = [cls]
    for b in S.classes[cls].bases:
        if b in S.classes:
            out += mro(b)
    return out


def observe(c, obj, cls):
    """All that the zero-argument methods, properties and attributes promised by the stub return."""
    seen = {}
    for k in mro(cls):
        C = S.classes[k]
        for name, sigs in C.methods.items():
            if name.startswith("__") or name in seen or any(s.params for s in sigs) or name in ("print_structure", "print_variables", "optimize",
                    "finalize_structure", "compute_full_jacobian_and_residual", "prepare_to_estimate_covariances", "print_all_covariances"):
                continue
            if isinstance(obj, (M.FactorGraph, M.SparseOptimizer)):
                continue
            v = getattr(obj, name)()
            w = conforms(v, sigs[0].ret)
            c.check(w is None, "result-type", lambda: "%s.%s() returned %s" % (cls, name, w))
            c.count("results")
            seen[name] = v
        for name, (ann, _) in C.props.items():
            v = getattr(obj, name)
            w = conforms(v, ann)
            c.check(w is None, "property-type", lambda: "%s.%s is %s" % (cls, name, w))
            seen[name] = v
        for name, ann in C.attrs.items():
            v = getattr(obj, name)
            w = conforms(v, ann)
            c.check(w is None, "attribute-type", lambda: "%s.%s is %s" % (cls, name, w))
            seen[name] = v
    return seen


def graph_view(f):
    """Residual and Jacobian of a factor in a graph of its own."""
    g = M.FactorGraph()
    done = set()
    for v in f.variables():
        if v.id() not in done:
            done.add(v.id())
            g.add_variable(v)
    g.add_factor(f)
    g.finalize_structure()
    return g.compute_full_residual_vector(), g.compute_full_jacobian_matrix()


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, e


def other_form(w, v, ann):
    """The same value as another kind the annotation admits."""
    t = ast.unparse(ann)
    r = w.r
    if t == "typing.SupportsInt":
        return r.choice([np.int64, np.int32, np.uint16, np.intc])(v), "np-int"
    if t == "typing.SupportsFloat":
        k = r.randrange(3)
        if k == 2 and float(v).is_integer():
            return int(v), "int"
        return (np.float64 if k else np.float32)(v), "np-float"
    if isinstance(v, np.ndarray):
        k = r.randrange(9)
        if k == 0:
            return v.tolist(), "list"
        if k == 1:
            return tuple(tuple(x) if isinstance(x, list) else x for x in v.tolist()), "tuple"
        if k == 2:
            return np.asfortranarray(v), "fortran"
        if k == 3:
            b = np.full(tuple(3 * n for n in v.shape), 77.0)
            b[tuple(slice(1, None, 3) for _ in v.shape)] = v
            return b[tuple(slice(1, None, 3) for _ in v.shape)], "strided"
        if k == 4:
            return v[::-1].copy()[::-1], "reversed"
        if k == 5:
            b = v.copy()
            b.flags.writeable = False
            return b, "read-only"
        if k == 6 and (v == v.astype(np.float32)).all():
            return v.astype(np.float32), "single"
        if k == 7 and v.ndim == 1:
            return v.reshape(-1, 1), "column"
        if k == 8 and v.ndim == 1 and (v == v.astype(int)).all():
            return v.astype(int), "integers"
        return v.astype(">f8"), "big-endian"
    return v, "same"


NAMED = re.compile(r"^arg\d+$")


def call_forms(w, fn, sig, vals, want, same_result, what):
    """fn called in other ways that the signature promises to be the same."""
    c, r = w.c, w.r
    names = [p[0] for p in sig.params]
    named = not any(NAMED.match(n) for n in names)
    for _ in range(3):
        use = dict(vals)
        forms = []
        for name, ann, d in sig.params:
            if r.random() < 0.4:
                use[name], k = other_form(w, use[name], ann)
                forms.append(k)
        npos = r.randrange(0, len(names) + 1) if named else len(names)
        kw = names[npos:]
        r.shuffle(kw)
        got, err = attempt(lambda: fn(*[use[n] for n in names[:npos]], **{n: use[n] for n in kw}))
        if err is not None:
            c.viol("call-refused", "%s refused with %d positional, keywords %s, %s: %r" % (what, npos, kw, {k: type(v).__name__ for k, v in use.items()}, err))
            continue
        for k in forms:
            c.count("form:" + k)
        c.count("keyword-calls" if kw else "positional-calls")
        bad = same_result(want, got)
        c.check(not bad, "call-differs", lambda: "%s called with %d positional and keywords %s (%s) differs: %s" % (what, npos, kw, use, bad))
        c.evals += 1
        c.cover(hash((what, npos, tuple(kw), tuple(forms))))


def refusals(w, fn, sig, vals, unchanged, what, allsigs):
    """Calls that fit no signature."""
    c, r = w.c, w.r
    names = [p[0] for p in sig.params]
    if not names:
        kind = r.choice(["extra", "unknown"])
    else:
        kind = r.choice(["missing", "extra", "unknown", "class", "none", "shape", "text", "twice"])
    use = dict(vals)
    pos, kw = [use[n] for n in names], {}
    if kind == "missing":
        req = [q for q, a, d in sig.params if d is None]
        if not req:
            return
        n = r.choice(req)
        if any(NAMED.match(x) for x in names):
            pos = pos[:-1]
            if any(d is not None for _, _, d in sig.params):
                return
        else:
            pos, kw = [], {x: use[x] for x in names if x != n}
        if any(set(kw) == {p[0] for p in s.params} for s in allsigs) or any(s is not sig and len(pos) == len(s.params) for s in allsigs):
            return
    elif kind == "extra":
        if any(len(s.params) > len(names) for s in allsigs):
            return
        pos.append(r.choice([1.0, None, "x"]))
    elif kind == "unknown":
        kw["no_such_parameter"] = 1.0
    elif kind == "twice":
        if any(NAMED.match(x) for x in names):
            return
        kw[names[0]] = use[names[0]]
    else:
        pick = []
        for i, (n, ann, d) in enumerate(sig.params):
            t, sh = ast.unparse(ann), shape_of(ann)
            if kind in ("class", "none") and t in S.classes and t not in ENUMS:
                pick.append(i)
            if kind == "shape" and sh and isinstance(sh[0], int):
                pick.append(i)
            if kind == "text" and (sh or t in ("typing.SupportsInt", "typing.SupportsFloat")):
                pick.append(i)
        if not pick:
            return
        i = r.choice(pick)
        n, ann, d = sig.params[i]
        t, sh = ast.unparse(ann), shape_of(ann)
        if kind == "none":
            bad = None
        elif kind == "text":
            bad = r.choice(["abc", [], {}, object(), "1"]) if not sh else r.choice(["abc", object(), {"a": 1}])
        elif kind == "shape":
            m = int(np.prod([x for x in sh]))
            bad = r.choice([np.zeros(m + 1), np.zeros((m, 2)), np.zeros((2, 2, 2)), np.zeros(max(1, m - 1) if m != 2 else 5), np.zeros(0)])
            if sh[1] == 1 and bad.shape in ((m,), (m, 1)) or list(bad.shape) == sh:
                return
        else:
            pool = [k for k in ("PoseVariable", "LandmarkVariable", "GenericVariable", "RotationVariable", "PlaneVariable", "Pose2DVariable") if t not in mro(k)]
            bad = r.choice([w.variable(k) for k in pool] + [M.FactorGraph(), M.OptimizerStats(), "text", 3, np.zeros(3)])
            if t in ("FactorGraph", "OptimizerStats") and isinstance(bad, getattr(M, t)):
                return
        pos[i] = bad
        if r.random() < 0.5 and not any(NAMED.match(x) for x in names):
            kw = dict(zip(names, pos))
            pos = []
    before = unchanged()
    got, err = attempt(lambda: fn(*pos, **kw))
    c.count("refusal:" + kind)
    c.evals += 1
    c.cover(hash((what, kind, len(pos))))
    c.check(isinstance(err, TypeError), "not-refused", lambda: "%s with %s (positional %s, keywords %s) %s" % (
        what, kind, [type(p).__name__ for p in pos], {k: type(v).__name__ for k, v in kw.items()}, "was accepted" if err is None else "raised " + repr(err)))
    c.check(same(before, unchanged()), "refusal-changed", lambda: "%s refused with %s changed something" % (what, kind))


# ------------------------------------------------------------------------------------------------ the cases
def case_structure(c, r):
    for where, st, mod in (("_factorama.pyi", S, M), ("__init__.pyi", P, F)):
        listed = set(st.classes) | set(st.functions) | (st.imported if st is P else set())
        for n in sorted(listed):
            c.check(hasattr(mod, n), "missing", lambda: "%s lists %s, which the module does not have" % (where, n))
        if st.all is not None:
            for n in st.all:
                c.check(hasattr(mod, n), "missing", lambda: "__all__ in %s lists %s, which the module does not have" % (where, n))
                c.check(n in listed, "missing", lambda: "__all__ in %s lists %s, which it does not declare" % (where, n))
            c.check(set(st.all) == listed - {"_factorama"}, "missing", lambda: "__all__ in %s differs from what it declares: %s" % (where, set(st.all) ^ listed))
    for n in sorted(vars(M)):
        if not n.startswith("_"):
            c.check(n in S.classes or n in S.functions, "undeclared", "the module has %s, which _factorama.pyi does not list" % n)
            c.check(n in P.imported, "undeclared", "the package has %s, which __init__.pyi does not list" % n)
            c.check(getattr(F, n, None) is getattr(M, n), "reexport", "factorama.%s is not factorama._factorama.%s" % (n, n))
    c.check("__version__" not in P.names or isinstance(F.__version__, str), "version", "no version")
    for n, C in sorted(S.classes.items()):
        k = getattr(M, n, None)
        if k is None:
            continue
        c.check(inspect.isclass(k), "not-a-class", n)
        have = {m for m in vars(k) if not m.startswith("_")}
        for m in sorted(have - C.public()):
            c.viol("undeclared", "%s.%s exists but the stub does not list it" % (n, m))
        for m in sorted(C.public() - have):
            c.viol("missing", "the stub lists %s.%s, which %s" % (n, m, "is inherited" if hasattr(k, m) else "does not exist"))
        for m in C.methods:
            c.check(callable(getattr(k, m, None)), "missing", lambda: "the stub lists %s.%s(), which cannot be called" % (n, m))
        bases = [b.__name__ for b in k.__bases__ if b.__module__ == k.__module__]
        c.check(bases == C.bases, "bases", lambda: "%s derives from %s, the stub says %s" % (n, bases, C.bases))
        for m in C.public() & have:
            isprop = isinstance(vars(k)[m], property)
            c.check(isprop == (m in C.props or m in C.attrs) or m in C.consts or n in ENUMS, "kind", lambda: "%s.%s is %s a property" % (n, m, "" if isprop else "not"))
        if "__init__" not in C.methods:
            got, err = attempt(k)
            c.check(isinstance(err, TypeError), "constructor", lambda: "%s has no constructor in the stub and can be constructed" % n)
            c.count("abstract")
        c.evals += 1
        c.cover(hash(n))
    # Python functions: names, order and defaults
    for n, sigs in sorted(P.functions.items()):
        f = getattr(F, n, None)
        if f is None or not inspect.isfunction(f):
            continue
        want = [(p, ast.unparse(d) if d is not None else None) for p, a, d in sigs[0].params]
        got = [(p.name, repr(p.default) if p.default is not p.empty else None) for p in inspect.signature(f).parameters.values()]
        c.check(want == got or sigs[0].star, "python-signature", lambda: "%s takes %s, the stub says %s" % (n, got, want))
        c.count("python-functions")
        c.evals += 1
    c.count("structure")


def case_enum(c, r, n):
    k = getattr(M, n)
    members = S.members.get(n, {})
    C = S.classes[n]
    listed = {m for m in C.consts if m != "__members__"}
    c.check(set(members) == listed, "enum-members", lambda: "%s: %s" % (n, set(members) ^ listed))
    c.check(set(k.__members__) == listed, "enum-members", lambda: "%s has members %s, the stub lists %s" % (n, sorted(k.__members__), sorted(listed)))
    for m, v in members.items():
        e = getattr(k, m, None)
        if e is None:
            c.viol("enum-members", "%s.%s does not exist" % (n, m))
            continue
        ok = int(e) == v and e.value == v and e.name == m and k(v) == e and hash(k(v)) == hash(e) and e.__index__() == v and type(e.value) is int
        c.check(ok, "enum-value", lambda: "%s.%s is %r %r, the stub says %d" % (n, m, e.name, e.value, v))
        c.check(k(int(e)).name == m and str(e) == "%s.%s" % (n, m), "enum-name", lambda: "%s(%d) is %s" % (n, v, k(v)))
        # pickle refers to the class by its module's name
        c.check(pickle.loads(pickle.dumps(e)) == e and copy.copy(e) == e, "enum-pickle", lambda: "%s.%s" % (n, m))
        for m2, v2 in members.items():
            f = getattr(k, m2, None)
            c.check((e == f) == (v == v2) and (e != f) == (v != v2), "enum-equal", lambda: "%s.%s and %s" % (n, m, m2))
        c.check(not (e == "x") and e != "x" and not (e == None), "enum-equal", lambda: "%s.%s equals something else" % (n, m))
        for a in ("name", "value"):
            _, err = attempt(lambda: setattr(e, a, getattr(e, a)))
            c.check(isinstance(err, AttributeError), "enum-writable", lambda: "%s.%s.%s can be written" % (n, m, a))
        c.count("enum-members")
        c.evals += 1
        c.cover(hash((n, m)))
    for bad in ("x", None, 1.5, [1]):
        _, err = attempt(lambda: k(bad))
        c.check(isinstance(err, TypeError), "not-refused", lambda: "%s(%r) was accepted" % (n, bad))


def differs(cls, c):
    def f(a, b):
        x, y = observe(c, a, cls), observe(c, b, cls)
        bad = [k for k in x if not same(x[k], y.get(k))]
        if not bad and isinstance(a, M.Factor):
            (p, e1), (q, e2) = attempt(lambda: graph_view(a)), attempt(lambda: graph_view(b))
            if (e1 is None) != (e2 is None) or e1 is None and not same(p, q):
                return "residual or Jacobian in a graph: %s and %s" % (p, q)
        return "; ".join("%s() %r and %r" % (k, x[k], y.get(k)) for k in bad)
    return f


def case_constructor(c, r, n):
    C, k = S.classes[n], getattr(M, n)
    w = World(c, r)
    sigs = C.methods["__init__"]
    sig = r.choice(sigs)
    vals = w.values(n, sig)
    if vals is None:
        c.count("no-values:" + n)
        raise pyvp.Skip()
    names = [p[0] for p in sig.params]
    ref, err = attempt(lambda: k(*[vals[x] for x in names]))
    if err is not None:
        c.check(not isinstance(err, TypeError), "call-refused", lambda: "%s refused: %r" % (sig, err))
        raise pyvp.Skip()
    c.count("constructed:" + n)
    d = differs(n, c)
    call_forms(w, k, sig, vals, ref, d, str(sig))
    # defaults
    opt = [(p, ast.literal_eval(x)) for p, a, x in sig.params if x is not None]
    if opt:
        for _ in range(2):
            omit = [(p, x) for p, x in opt if r.random() < 0.6] or [r.choice(opt)]
            full = dict(vals)
            full.update(omit)
            a, e1 = attempt(lambda: k(**full))
            b, e2 = attempt(lambda: k(**{p: v for p, v in full.items() if p not in dict(omit)}))
            if e1 is not None or e2 is not None:
                c.check(repr(e1) == repr(e2), "default-refused", lambda: "%s without %s: %r and %r" % (sig, omit, e1, e2))
                continue
            bad = d(a, b)
            c.check(not bad, "default-differs", lambda: "%s without %s differs from giving the listed defaults: %s" % (sig, omit, bad))
            # the default must be visible: another value is not the same
            c.count("defaults")
            c.evals += 1
            c.cover(hash((str(sig), tuple(p for p, _ in omit))))
    vs = [v for v in vals.values() if isinstance(v, M.Variable)]
    for _ in range(2):
        refusals(w, k, sig, vals, lambda: [v.value() for v in vs], str(sig), sigs)
    if isinstance(ref, M.Factor):
        # variables() are the variables given, in the order of the parameters
        given = [v for x in names for v in [vals[x]] if isinstance(v, M.Variable)]
        got = ref.variables()
        c.check(all(any(g is x for x in given) for g in got), "variables", lambda: "%s.variables() are not those given" % n)
        c.count("factor-variables")
    # attributes of two objects are separate and hold what is written
    case_attributes(c, r, n, ref, k(*[vals[x] for x in names]))


def case_attributes(c, r, n, a, b):
    w = World(c, r)
    for m in mro(n):
        C = S.classes[m]
        both = [(x, t, t) for x, t in C.attrs.items()] + [(x, g, s) for x, (g, s) in C.props.items()]
        for name, get, put in both:
            if put is None:
                _, err = attempt(lambda: setattr(a, name, getattr(a, name)))
                c.check(isinstance(err, AttributeError), "writable", lambda: "%s.%s can be written" % (n, name))
                continue
            t = ast.unparse(put)
            if t == "typing.SupportsFloat":
                v = w.x()
            elif t == "typing.SupportsInt":
                v = r.randrange(0, 1000)
            elif t == "bool":
                v = not getattr(a, name)
            elif t in ENUMS:
                v = getattr(M, t)(r.choice(sorted(S.members[t].values())))
            elif t == "OptimizerStats":
                v = M.OptimizerStats()
                v.chi2 = w.x()
                v.rank = r.randrange(9)
            else:
                continue
            others = {q: getattr(a, q) for q, g, p in both if q != name}
            bo = {q: getattr(b, q) for q, g, p in both}
            f = other_form(w, v, put)[0] if r.random() < 0.5 else v
            _, err = attempt(lambda: setattr(a, name, f))
            if not c.check(err is None, "attribute-refused", lambda: "%s.%s = %r: %r" % (n, name, f, err)):
                continue
            g = getattr(a, name)
            if t == "OptimizerStats":
                c.check(g.chi2 == v.chi2 and g.rank == v.rank, "attribute", lambda: "%s.%s does not hold what was written" % (n, name))
                v.chi2 += 1
                c.check(g.chi2 != v.chi2 and getattr(a, name).chi2 != v.chi2, "attribute", lambda: "%s.%s follows the object assigned" % (n, name))
            else:
                c.check(g == v and conforms(g, get) is None, "attribute", lambda: "%s.%s = %r reads %r" % (n, name, f, g))
                c.check(all(same(others[q], getattr(a, q)) for q in others), "attribute-others", lambda: "writing %s.%s changed another" % (n, name))
                c.check(all(same(bo[q], getattr(b, q)) for q in bo) if t != "OptimizerStats" else True, "attribute-shared", lambda: "writing %s.%s changed another object" % (n, name))
                bad = r.choice(["x", [], object()])
                if t != "bool":
                    _, err = attempt(lambda: setattr(a, name, bad))
                    c.check(isinstance(err, TypeError) and getattr(a, name) == v, "not-refused", lambda: "%s.%s = %r: %r" % (n, name, bad, err))
            c.count("attribute:%s.%s" % (n, name))
            c.evals += 1


def case_variable_method(c, r, n):
    w = World(c, r)
    v = w.variable(n)
    if r.random() < 0.3:
        v.apply_increment(w.vec(v.size(), -1, 1))
    sigs = [s for m in mro(n) for name, ss in S.classes[m].methods.items() if not name.startswith("__") for s in ss]
    s = r.choice([x for x in sigs if x.params] if r.random() < 0.8 else sigs)
    vals = w.values(n, s)
    if vals is None:
        raise pyvp.Skip()
    for name, ann, d in s.params:
        sh = shape_of(ann)
        if sh and not isinstance(sh[0], int):
            vals[name] = v.value() if r.random() < 0.3 and s.name == "set_value_from_vector" else w.vec(v.size(), -1, 1)
    names = [p[0] for p in s.params]
    mine, other = v.clone(), v.clone()
    c.check(type(mine) is type(v), "clone-class", lambda: "%s.clone() is a %s" % (n, type(mine).__name__))
    res, err = attempt(lambda: getattr(mine, s.name)(*[vals[x] for x in names]))
    if err is not None:
        c.check(not isinstance(err, TypeError), "call-refused", lambda: "%s.%s refused: %r" % (n, s, err))
        raise pyvp.Skip()
    bad = conforms(res, s.ret)
    c.check(bad is None, "result-type", lambda: "%s.%s returned %s" % (n, s, bad))
    box = [other]
    d = differs(n, c)

    def fn(*a, **kw):
        box[0] = v.clone()
        return getattr(box[0], s.name)(*a, **kw)

    def cmp(a, b):
        if isinstance(a, M.Variable):
            return d(a, b)
        return ("%r and %r" % (a, b) if not same(a, b) else "") or d(mine, box[0])
    call_forms(w, fn, s, vals, res, cmp, "%s.%s" % (n, s))
    refusals(w, getattr(other, s.name), s, vals, lambda: other.value(), "%s.%s" % (n, s), [s])
    c.count("method:%s" % s.name)


def small_graph(w):
    r = w.r
    g = M.FactorGraph()
    vs, fs = [], []
    for _ in range(r.randrange(1, 4)):
        k = r.choice(["PoseVariable", "LandmarkVariable", "GenericVariable", "Pose2DVariable", "RotationVariable"])
        v = w.variable(k)
        vs.append(v)
        if k == "PoseVariable":
            fs.append(M.PosePositionPriorFactor(w.id(), v, w.vec(3), w.pos()))
            fs.append(M.PoseOrientationPriorFactor(w.id(), v, w.rot(), w.pos()))
        elif k == "RotationVariable":
            fs.append(M.RotationPriorFactor(w.id(), v, w.rot(), w.pos()))
        elif k == "Pose2DVariable":
            fs.append(M.Pose2DPriorFactor(w.id(), v, w.vec(3), w.pos(), w.pos()))
        else:
            fs.append(M.GenericPriorFactor(w.id(), v, w.vec(v.size()), w.pos()))
    for v in vs:
        g.add_variable(v)
    for f in fs:
        g.add_factor(f)
    return g, vs, fs


def state(g):
    return [g.num_variables(), g.num_values(), g.num_residuals(), g.residual_valid(), g.jacobian_valid(), [v.id() for v in g.get_all_variables()],
            [f.id() for f in g.get_all_factors()], [v.value() for v in g.get_all_variables()]]


def twin(seed, w, final):
    """A graph built in the same way every time."""
    import random
    w2 = World(w.c, random.Random(seed))
    g, vs, fs = small_graph(w2)
    if final:
        g.finalize_structure()
    w.keep += w2.keep
    return g, vs, fs, w2


def case_graph_method(c, r):
    w = World(c, r)
    seed, final = r.random(), r.random() < 0.9
    C = S.classes["FactorGraph"]
    s = r.choice([x for n, ss in sorted(C.methods.items()) if not n.startswith("__") for x in ss])
    g, vs, fs, w2 = twin(seed, w, final)
    vals = w.values("FactorGraph", s)
    for name, ann, d in s.params:
        t, sh = ast.unparse(ann), shape_of(ann)
        if vals is None and t != "Factor":
            raise pyvp.Skip()
    if s.name == "add_factor":
        vals = {s.params[0][0]: M.GenericPriorFactor(1000, next((v for v in vs), None), vs[0].value(), 1.0)}
    for name, ann, d in s.params:
        sh = shape_of(ann)
        if sh:
            vals[name] = w.vec(g.num_values(), -1, 1)
        if ast.unparse(ann) == "typing.SupportsInt":
            vals[name] = vs[0].id() if r.random() < 0.7 else 100000 + r.randrange(9)
            if s.name == "get_variable":
                c.count("unknown-id" if vals[name] >= 100000 else "known-id")
    names = [p[0] for p in s.params]
    res, err = attempt(lambda: getattr(g, s.name)(*[vals[x] for x in names]))
    if err is not None:
        c.check(not isinstance(err, TypeError), "call-refused", lambda: "FactorGraph.%s refused: %r" % (s, err))
        c.count("graph-raised")
        raise pyvp.Skip()
    bad = conforms(res, s.ret)
    c.check(bad is None, "result-type", lambda: "FactorGraph.%s returned %s" % (s, bad))
    c.count("graph:" + s.name)
    box = [g]
    adding = s.name in ("add_factor",)

    def fn(*a, **kw):
        box[0] = twin(seed, w, final)[0]
        if adding:
            box[0] = M.FactorGraph()
            for v in vs:
                box[0].add_variable(v)
            for f in fs:
                box[0].add_factor(f)
            if final:
                box[0].finalize_structure()
        return getattr(box[0], s.name)(*a, **kw)

    def cmp(a, b):
        return "" if same(a, b) and same(state(g), state(box[0])) else "%r and %r" % (a, b)
    if names:
        call_forms(w, fn, s, vals, res, cmp, "FactorGraph.%s" % s)
        # defaults
        opt = [(p, ast.literal_eval(x)) for p, a, x in s.params if x is not None]
        if opt:
            full = dict(vals)
            full.update(opt)
            out = []
            for use in (full, {p: v for p, v in full.items() if p not in dict(opt)}):
                cap = Capture()
                v = fn(**use)
                out.append((v, cap.end()))
            c.check(out[0] == out[1], "default-differs", lambda: "FactorGraph.%s without %s differs: %s" % (s, opt, out))
            c.count("graph-defaults")
    g2, vs2, fs2, _ = twin(seed, w, final)
    refusals(w, getattr(g2, s.name), s, vals, lambda: state(g2), "FactorGraph.%s" % s, [s])
    c.evals += 1
    c.cover(hash(("graph", s.name, final)))


class Capture:
    def __init__(self):
        import tempfile
        libc.fflush(None)
        self.save = os.dup(1)
        self.f = tempfile.TemporaryFile()
        os.dup2(self.f.fileno(), 1)

    def end(self):
        libc.fflush(None)
        os.dup2(self.save, 1)
        os.close(self.save)
        self.f.seek(0)
        t = self.f.read().decode(errors="replace")
        self.f.close()
        return t


def case_optimizer(c, r):
    w = World(c, r)
    g, vs, fs = small_graph(w)
    g.finalize_structure()
    o, s = M.SparseOptimizer(), M.OptimizerSettings()
    if r.random() < 0.3:
        # before setup() everything answers, or refuses with an exception
        v = r.choice(vs)
        calls = [("optimize", ()), ("prepare_to_estimate_covariances", ()), ("estimate_covariance", (v,)), ("print_all_covariances", ()), ("settings", ())]
        r.shuffle(calls)
        for name, args in calls:
            try:
                res = getattr(o, name)(*args)
                bad = conforms(res, S.classes["SparseOptimizer"].methods[name][0].ret)
                c.check(bad is None, "result-type", lambda: "SparseOptimizer.%s before setup returned %s" % (name, bad))
                if name == "estimate_covariance":
                    c.check(not res[1], "covariance-from-nothing", lambda: repr(res))
            except RuntimeError:
                c.count("refused-before-setup")
            c.evals += 1
    s.max_num_iterations = r.randrange(1, 6)
    s.method = r.choice([M.OptimizerMethod.GaussNewton, M.OptimizerMethod.LevenbergMarquardt])
    C = S.classes["SparseOptimizer"]
    sg = C.methods["setup"][0]
    vals = dict(zip([p[0] for p in sg.params], [g, s]))
    refusals(w, o.setup, sg, vals, lambda: state(g), "SparseOptimizer.setup", [sg])
    done = set()
    for name in ("setup", "settings", "optimize", "prepare_to_estimate_covariances", "estimate_covariance", "print_all_covariances"):
        if name not in C.methods:
            continue
        q = C.methods[name][0]
        v = r.choice(vs)
        args = {"setup": [g, s], "estimate_covariance": [v]}.get(name, [])
        # keywords where the stub names them
        if args and not any(NAMED.match(p[0]) for p in q.params) and r.random() < 0.5:
            res = getattr(o, name)(**dict(zip([p[0] for p in q.params], args)))
            c.count("keyword-calls")
        else:
            res = getattr(o, name)(*args)
        bad = conforms(res, q.ret)
        c.check(bad is None, "result-type", lambda: "SparseOptimizer.%s returned %s" % (name, bad))
        c.count("optimizer:" + name)
        done.add(name)
        refusals(w, getattr(o, name), q, dict(zip([p[0] for p in q.params], args)), lambda: state(g), "SparseOptimizer." + name, [q])
        c.evals += 1
    for name in C.public() - done - set(C.attrs) - set(C.props):
        c.count("not-called:" + name)
    for n2 in ("OptimizerStats", "OptimizerSettings"):
        k = getattr(M, n2)
        observe(c, k(), n2)
        case_attributes(c, r, n2, k(), k())
    observe(c, o.current_stats, "OptimizerStats")
    observe(c, o.settings(), "OptimizerSettings")
    case_attributes(c, r, "SparseOptimizer", o, M.SparseOptimizer())
    c.cover(hash(("optimizer", str(s.method), s.max_num_iterations)))


def case_function(c, r, n):
    w = World(c, r)
    f, sig = getattr(M, n), S.functions[n][0]
    vals = w.values(None, sig)
    if vals is None:
        raise pyvp.Skip()
    names = [p[0] for p in sig.params]
    res, err = attempt(lambda: f(*[vals[x] for x in names]))
    if err is not None:
        c.check(not isinstance(err, TypeError), "call-refused", lambda: "%s refused: %r" % (sig, err))
        raise pyvp.Skip()
    bad = conforms(res, sig.ret)
    c.check(bad is None, "result-type", lambda: "%s returned %s" % (sig, bad))
    call_forms(w, f, sig, vals, res, lambda a, b: "" if same(a, b) else "%r and %r" % (a, b), str(sig))
    refusals(w, f, sig, vals, lambda: None, str(sig), [sig])
    c.count("function:" + n)


CTORS = sorted(n for n, C in S.classes.items() if "__init__" in C.methods and n not in ENUMS and hasattr(M, n))
VARS = sorted(n for n in CTORS if "Variable" in mro(n))
FUNCS = sorted(n for n in S.functions if hasattr(M, n))
PLAN = ([("ctor", n) for n in CTORS] * 2 + [("method", n) for n in VARS] * 3 + [("graph", None)] * 24 + [("optimizer", None)] * 8 +
        [("function", n) for n in FUNCS] * 2)


def case(c, r):
    i = c.idx
    if i == 0:
        return case_structure(c, r)
    if i <= len(ENUMS):
        return case_enum(c, r, ENUMS[i - 1])
    kind, n = PLAN[i % len(PLAN)]
    cap = Capture()
    try:
        if kind == "ctor":
            case_constructor(c, r, n)
        elif kind == "method":
            case_variable_method(c, r, n)
        elif kind == "graph":
            case_graph_method(c, r)
        elif kind == "optimizer":
            case_optimizer(c, r)
        else:
            case_function(c, r, n)
    finally:
        cap.end()
    if len(c.samples) < 3:
        c.samples.append("%s %s" % (kind, n))


sys.stdout.flush()
pyvp.loop("P30", n_cases, case)
