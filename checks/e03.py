"""E03: structure, constants, repeats and captures survive tracing."""

from __future__ import annotations

import random
from collections import OrderedDict, namedtuple

import jax
import numpy as np
from hypothesis import strategies as st

import mplang as mp
from checks.p01 import simulator
from mplang.dialects import func, simp, tensor
from mplang.edsl.object import Object
from mplang.runtime.interpreter import Interpreter
from vf.core import Sub, check, label
from vf.gen import same

PROPERTY = "E03"
ASSUMPTIONS = ["dictionaries are compared without regard to key order",
               "a trace given another structure, other constants or values of other types may refuse them instead of using them"]

Pt = namedtuple("Pt", ["x", "y"])
CONST = st.one_of(
    st.integers(-5, 5), st.floats(allow_nan=False, width=32), st.booleans(), st.none(), st.text(max_size=3), st.binary(max_size=3),
    st.sampled_from([(), [], {}, 2**70, 1e300, complex(1, -2), "ndarray0", "ndarray1", "callable"]),
)
KEY = st.sampled_from(["a", "b", "c", "", "Z", "é"])


def tree(leaf, depth=10):
    def grow(c):
        return st.one_of(
            st.lists(c, max_size=4).map(lambda x: ("list", x)),
            st.lists(c, max_size=4).map(lambda x: ("tuple", x)),
            st.dictionaries(KEY, c, max_size=4).map(lambda x: ("dict", list(x.items()))),
            st.dictionaries(st.integers(-3, 3), c, max_size=3).map(lambda x: ("dict", list(x.items()))),
            st.dictionaries(KEY, c, max_size=3).map(lambda x: ("odict", list(x.items()))),
            st.tuples(c, c).map(lambda x: ("pt", list(x))),
        )

    return st.recursive(leaf, grow, max_leaves=depth)


IN = tree(st.one_of(st.integers(0, 3).map(lambda i: ("v", i)), st.integers(0, 3).map(lambda i: ("v", i)), CONST.map(lambda c: ("c", c))))
OUT = tree(st.one_of(st.integers(0, 9).map(lambda i: ("in", i)), st.integers(0, 9).map(lambda i: ("op", i)), st.integers(0, 1).map(lambda i: ("cap", i)), st.integers(0, 1).map(lambda i: ("capop", i)), st.integers(0, 3).map(lambda i: ("new", i)), CONST.map(lambda c: ("c", c))))


def _const(c):
    if isinstance(c, str) and c.startswith("ndarray"):
        return np.arange(3.0) if c[-1] == "0" else np.array(7)
    return len if isinstance(c, str) and c == "callable" else c


def inst(spec, leaf):
    k, v = spec
    if k == "list":
        return [inst(x, leaf) for x in v]
    if k == "tuple":
        return tuple(inst(x, leaf) for x in v)
    if k == "dict":
        return {n: inst(x, leaf) for n, x in v}
    if k == "odict":
        return OrderedDict((n, inst(x, leaf)) for n, x in v)
    if k == "pt":
        return Pt(*(inst(x, leaf) for x in v))
    return _const(v) if k == "c" else leaf(k, v)


def objects(x):
    """Object leaves in the order the generator wrote them."""
    if isinstance(x, Object):
        return [x]
    if isinstance(x, dict):
        return [o for v in x.values() for o in objects(v)]
    if isinstance(x, (list, tuple)):
        return [o for v in x for o in objects(v)]
    return []


def differs(a, b, eq, path="it"):
    """First difference of two structures; eq compares object leaves."""
    if isinstance(a, Object) or isinstance(b, Object):
        return None if eq(a, b) else f"{path}: {a!r:.80} became {b!r:.80}"
    if type(a) is not type(b):
        return f"{path}: {type(a).__name__} {a!r:.100} became {type(b).__name__} {b!r:.100}"
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"{path}: keys {list(a)} became {list(b)}"
        for k in a:
            r = differs(a[k], b[k], eq, f"{path}[{k!r}]")
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} items became {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = differs(x, y, eq, f"{path}[{i}]")
            if r:
                return r
        return None
    return same(a, b, path) if not callable(a) else (None if a is b else f"{path}: another callable")


VALS = [np.array([[1, 2], [3, 4]], dtype=np.int64), np.array([5.5, -1.0, 2.0]), np.array(True), np.array([[[7]]], dtype=np.int32)]
VALS2 = [np.array([[-9, 0], [8, 2**40]], dtype=np.int64), np.array([0.25, 1e9, -3.0]), np.array(False), np.array([[[-4]]], dtype=np.int32)]
CAPS = [np.array([100, 200], dtype=np.int32), np.array([[0.5], [1.5]])]


def op(o):
    """A visible operation: reverse of the dimensions, doubled."""
    n = len(o.type.shape)
    return tensor.transpose(o, tuple(range(n))[::-1])


def npop(a):
    return np.transpose(a)


def calls():
    return st.tuples(st.lists(IN, max_size=3), st.dictionaries(st.sampled_from(["kw", "b", "a"]), IN, max_size=2), OUT)


def expected(out, leaves, caps):
    def leaf(k, i):
        if k in ("in", "op") and not leaves:
            return None
        if k == "new":
            return np.arange(i + 1)
        if k.startswith("cap"):
            return caps[i] if k == "cap" else npop(caps[i])
        return leaves[i % len(leaves)] if k == "in" else npop(leaves[i % len(leaves)])

    return inst(out, leaf)


def produce(out, leaves, caps):
    def leaf(k, i):
        if k in ("in", "op") and not leaves:
            return None
        if k == "new":
            return tensor.constant(np.arange(i + 1))
        if k.startswith("cap"):
            return caps[i] if k == "cap" else op(caps[i])
        return leaves[i % len(leaves)] if k == "in" else op(leaves[i % len(leaves)])

    return inst(out, leaf)


def var_specs(spec):
    k, v = spec
    if k in ("dict", "odict"):
        return [s for _, x in v for s in var_specs(x)]
    if k in ("list", "tuple", "pt"):
        return [s for x in v for s in var_specs(x)]
    return [v] if k == "v" else []


def run_calls(case):
    aspec, kspec, out = case
    ctx = Interpreter()
    seen = {}
    with ctx:
        pool = [tensor.constant(v) for v in VALS]
        caps = [tensor.constant(v) for v in CAPS]
        mk = lambda p: ([inst(s, lambda k, i: p[i]) for s in aspec], {n: inst(s, lambda k, i: p[i]) for n, s in kspec.items()})
        args, kwargs = mk(pool)

        def f(*a, **k):
            seen["a"], seen["k"] = a, k
            return produce(out, objects([*a]) + [o for n in kspec for o in objects(k[n])], caps)

        ids = [i for s in aspec for i in var_specs(s)] + [i for s in kspec.values() for i in var_specs(s)]
        # direct
        r = mp.fetch(mp.evaluate(f, *args, **kwargs))
        check(differs(tuple(args), seen["a"], lambda x, y: x is y) is None, "direct call changed the arguments")
        w = expected(out, [VALS[i] for i in ids], CAPS)
        d = differs(w, _np(r), None)
        check(d is None, lambda: f"direct call: {d}")
        # traced: what the function receives
        t = mp.compile(f, *args, **kwargs)
        ty = lambda x, y: isinstance(x, Object) and isinstance(y, Object) and x.type == y.type
        d = differs((tuple(args), kwargs), (seen["a"], seen["k"]), ty)
        check(d is None, lambda: f"the traced function received something else: {d}")
    # leaves as the traced function saw them: dict order may differ, so recompute on what it received
    got_ids = _ids(aspec, kspec, seen)
    for vals, label_ in ((VALS, "same values"), (VALS2, "new values")):
        with ctx:
            p = [tensor.constant(v) for v in vals]
            a2, k2 = mk(p)
            r = mp.fetch(mp.evaluate(t, *a2, **k2))
        w = expected(out, [vals[i] for i in got_ids], CAPS)
        d = differs(w, _np(r), None)
        check(d is None, lambda: f"traced, {label_}: {d}")
    label(f"vars {min(len(ids), 4)}")


def _ids(aspec, kspec, seen):
    """Pool index of each object leaf, in the order the traced function enumerated them."""
    def walk(spec, got):
        k, v = spec
        if k in ("dict", "odict"):
            m = dict(v)
            return [i for n in got for i in walk(m[n], got[n])]
        if k in ("list", "tuple", "pt"):
            return [i for s, g in zip(v, got) for i in walk(s, g)]
        return [v] if k == "v" else []

    return [i for s, g in zip(aspec, seen["a"]) for i in walk(s, g)] + [i for n in kspec for i in walk(kspec[n], seen["k"][n])]


def _np(x):
    if isinstance(x, dict):
        return type(x)((k, _np(v)) for k, v in x.items())
    if isinstance(x, Pt):
        return Pt(*(_np(v) for v in x))
    if isinstance(x, (list, tuple)):
        return type(x)(_np(v) for v in x)
    import jax

    return np.asarray(x) if isinstance(x, jax.Array) else x


# ---- reuse with something else ---------------------------------------------------


def paths(spec, at=()):
    k, v = spec
    yield at
    if k in ("dict", "odict", "list", "tuple", "pt"):
        for i, x in enumerate(v):
            yield from paths(x[1] if k.endswith("dict") else x, (*at, i))


def replaced(spec, path, f):
    if not path:
        return f(spec)
    k, v = spec
    v = list(v)
    i = path[0]
    v[i] = (v[i][0], replaced(v[i][1], path[1:], f)) if k.endswith("dict") else replaced(v[i], path[1:], f)
    return k, v


def other(r, spec):
    """Another argument in place of spec."""
    k, v = spec
    if k == "v":
        return r.choice([("v", (v + 1) % 4), ("v", (v + 2) % 4), ("v", v), ("list", [spec]), ("tuple", [])])
    if k == "c":
        return ("c", r.choice([c for c in (0, 1, 2.5, "a", "b", None, True, "ndarray0", "ndarray1", "callable") if c is not v])) if r.random() < 0.8 else ("v", r.randrange(4))
    v = list(v)
    how = r.choice(["drop", "more", "kind", "swap"])
    if how == "drop" and v and k != "pt":
        del v[r.randrange(len(v))]
    elif how == "more" and k != "pt":
        v.insert(r.randrange(len(v) + 1), (99 if v and isinstance(v[0][0], int) else "new", ("v", 0)) if k.endswith("dict") else ("v", 0))
    elif how == "swap" and len(v) > 1:
        if k.endswith("dict"):
            v[0], v[-1] = (v[0][0], v[-1][1]), (v[-1][0], v[0][1])
        else:
            v[0], v[-1] = v[-1], v[0]
    elif k.endswith("dict"):
        return ("list", [x for _, x in v])
    else:
        return ("tuple" if k == "list" else "list", v)
    return k, v


def reuses():
    return st.tuples(st.lists(IN, min_size=1, max_size=3), st.dictionaries(st.sampled_from(["kw", "b", "a"]), IN, max_size=2), OUT, st.integers(0, 2**40))


def run_reuse(case):
    aspec, kspec, out, seed = case
    r = random.Random(seed)
    a2, k2 = list(aspec), dict(kspec)
    how = r.choice(["arg", "arg", "arg", "kwarg", "named", "fewer", "more", "order"])
    if how in ("kwarg", "named") and not k2:
        how = "arg"
    if how in ("arg", "kwarg"):
        box, key = (a2, r.randrange(len(a2))) if how == "arg" else (k2, r.choice(sorted(k2)))
        box[key] = replaced(box[key], r.choice(list(paths(box[key]))), lambda s: other(r, s))
    elif how == "named":
        a2.append(k2.pop(r.choice(sorted(k2))))
    elif how == "fewer":
        a2.pop()
    elif how == "more":
        a2.append(r.choice(a2))
    else:
        r.shuffle(a2)
    label(how)

    def f(*a, **k):
        return produce(out, objects([*a]) + [o for n in sorted(k) for o in objects(k[n])], caps), a, k

    with Interpreter():
        pool = [tensor.constant(v) for v in VALS]
        caps = [tensor.constant(v) for v in CAPS]
        mk = lambda xs, ks: (tuple(inst(s, lambda k, i: pool[i]) for s in xs), {n: inst(s, lambda k, i: pool[i]) for n, s in ks.items()})
        args, kwargs = mk(aspec, kspec)
        t = mp.compile(f, *args, **kwargs)
        first = jax.tree_util.tree_leaves((args, kwargs))
        args, kwargs = mk(a2, k2)
        second = jax.tree_util.tree_leaves((args, kwargs))
        if any(isinstance(a, Object) and not isinstance(b, Object) for a, b in zip(first, second)):
            label("plain value for a traced one")  # taken as it is
            return
        # dictionaries are traced in their own order: what is expected goes by the function's own enumeration
        order = lambda x: type(x)((n, order(x[n])) for n in sorted(x, key=str)) if type(x) is dict else Pt(*map(order, x)) if isinstance(x, Pt) else type(x)(map(order, x)) if isinstance(x, (list, tuple)) else x
        w = _np(mp.fetch(mp.evaluate(f, *order(args), **order(kwargs))))
        try:
            got = mp.evaluate(t, *args, **kwargs)
        except Exception as e:
            label(f"refused: {type(e).__name__}")
            return
        got = _np(mp.fetch(got))
        # where only key orders differ, results may come in either enumeration
        w2 = _np(mp.fetch(mp.evaluate(f, *args, **kwargs)))
    d = differs(w, got, None)
    if d and differs(w2, got, None) is None:
        d = None
    check(d is None, lambda: f"a trace of {aspec!r}, {kspec!r} given {a2!r}, {k2!r} neither refused them nor used them: {d}")
    label("used")


# ---- func.func / func.call -----------------------------------------------------


def fcalls():
    return st.tuples(st.lists(st.integers(0, 3), min_size=0, max_size=4), st.lists(st.lists(st.integers(0, 3), max_size=4), max_size=0), OUT.filter(lambda o: not _has(o, "cap", "capop")), st.integers(1, 3))


def _has(spec, *ks):
    k, v = spec
    if k in ("dict", "odict"):
        return any(_has(x, *ks) for _, x in v)
    if k in ("list", "tuple", "pt"):
        return any(_has(x, *ks) for x in v)
    return k in ks


def run_fcalls(case):
    idx, _, out, times = case
    ctx = Interpreter()
    with ctx:
        pool = [tensor.constant(v) for v in VALS]
        alt = [tensor.constant(v) for v in VALS2]

        def whole(p, q):
            h = func.func(lambda *a: produce(out, list(a), []), *[p[i] for i in idx])
            r = []
            for n in range(times):
                r.append(func.call(h, *[(p, q)[n % 2][i] for i in idx]))
            return r

        t = mp.compile(whole, pool, alt)
        r = mp.fetch(mp.evaluate(t, pool, alt))
    w = [expected(out, [(VALS, VALS2)[n % 2][i] for i in idx], []) for n in range(times)]
    d = differs(w, _np(r), None)
    check(d is None, lambda: f"func.call: {d}")


# ---- run_jax -------------------------------------------------------------------

JIN = tree(st.one_of(st.integers(0, 3).map(lambda i: ("v", i)), st.integers(0, 3).map(lambda i: ("v", i)), st.one_of(st.integers(-5, 5), st.booleans(), st.none(), st.sampled_from(["s", "ndarray0", "ndarray1", "callable"])).map(lambda c: ("c", c))), 7)
JOUT = tree(st.one_of(st.integers(0, 9).map(lambda i: ("in", i)), st.integers(0, 9).map(lambda i: ("op", i)), st.integers(0, 3).map(lambda i: ("new", i))), 6)


def jcalls():
    return st.tuples(st.lists(JIN, max_size=3), st.dictionaries(st.sampled_from(["kw", "b", "a"]), JIN, max_size=2), JOUT, st.booleans())


def run_jcalls(case):
    import jax
    import jax.numpy as jnp

    aspec, kspec, out, traced = case
    ctx = Interpreter()
    seen = {}

    def leaves(x):
        if isinstance(x, dict):
            return [o for v in x.values() for o in leaves(v)]
        if isinstance(x, (list, tuple)):
            return [o for v in x for o in leaves(v)]
        return [x] if isinstance(x, jax.core.Tracer) else []

    def g(*a, **k):
        seen["a"], seen["k"] = a, k
        ls = leaves(list(a)) + [o for n in kspec for o in leaves(k[n])]

        def leaf(kind, i):
            if kind == "new":
                return jnp.arange(i + 1)
            if not ls:
                return jnp.zeros(1)
            return ls[i % len(ls)] if kind == "in" else jnp.transpose(ls[i % len(ls)])

        return inst(out, leaf)

    def f(pool):
        a = [inst(s, lambda k, i: pool[i]) for s in aspec]
        kw = {n: inst(s, lambda k, i: pool[i]) for n, s in kspec.items()}
        return tensor.run_jax(g, *a, **kw)

    with ctx:
        pool = [tensor.constant(v) for v in VALS]
        if traced:
            t = mp.compile(f, pool)
            r = mp.fetch(mp.evaluate(t, [tensor.constant(v) for v in VALS2]))
            vals = VALS2
        else:
            r, vals = mp.fetch(mp.evaluate(f, pool)), VALS
    ids = _ids(aspec, kspec, seen)

    def want(kind, i):
        if kind == "new":
            return np.arange(i + 1)
        if not ids:
            return np.zeros(1)
        v = vals[ids[i % len(ids)]]
        return v if kind == "in" else np.transpose(v)

    d = differs(inst(out, want), _np(r), None)
    check(d is None, lambda: f"run_jax: {d}")

    # constants and structure as received
    def rec(spec, got, path):
        k, v = spec
        if k in ("dict", "odict"):
            check(isinstance(got, dict) and (k == "dict" or isinstance(got, OrderedDict)) and set(got) == {n for n, _ in v}, f"{path}: {got!r:.100}")
            for n, x in v:
                rec(x, got[n], f"{path}[{n!r}]")
        elif k in ("list", "tuple", "pt"):
            check(type(got) is {"list": list, "tuple": tuple, "pt": Pt}[k] and len(got) == len(v), f"{path}: {got!r:.100}")
            for i, x in enumerate(v):
                rec(x, got[i], f"{path}[{i}]")
        elif k == "c":
            dd = differs(_const(v), got, None, path)
            check(dd is None, dd)
        else:
            check(got.shape == VALS[v].shape and got.dtype == VALS[v].dtype, f"{path} is {got}")

    for i, s in enumerate(aspec):
        rec(s, seen["a"][i], f"args[{i}]")
    for n, s in kspec.items():
        rec(s, seen["k"][n], f"kwargs[{n}]")


# ---- captures from several enclosing functions --------------------------------------

NEW, PICKS = st.integers(0, 4), st.lists(st.integers(0, 40), min_size=1, max_size=10)
LEAF = st.tuples(NEW, st.just([]), PICKS)
BODY = st.recursive(
    LEAF,
    lambda b: st.tuples(
        NEW,
        st.lists(
            st.one_of(
                st.tuples(st.just("cond"), st.booleans(), PICKS, b, b),
                st.tuples(st.just("while"), st.integers(0, 2), PICKS, b),
                st.tuples(st.just("pcall"), PICKS, LEAF),
            ),
            min_size=1,
            max_size=2,
        ),
        PICKS,
    ),
    max_leaves=8,
)


class World:
    """Numbers apart, of one type, so that any confusion of two of them shows."""

    def __init__(self, real):
        self.real, self.n = real, 0

    def new(self, local=False):
        self.n += 1
        v = np.array(self.n * 7 + 1)
        if not self.real:
            return v
        return tensor.constant(v) if local else simp.constant((0, 1), v)

    def body(self, b, scope, width=None, local=False):
        new, stmts, out = b
        scope = scope + [self.new(local) for _ in range(new)]
        scope = scope or [self.new(local)]
        pick = lambda ps: [scope[i % len(scope)] for i in ps]
        for s in stmts:
            scope = scope + (self.stmt(s, scope, pick) if self.real else self.plain(s, scope, pick))
        out = pick(out)
        return [out[i % len(out)] for i in range(width or len(out))]

    def stmt(self, s, scope, pick):
        A = (0, 1)
        if s[0] == "cond":
            w = len(s[3][2])
            t = simp.constant(A, np.array(s[1]))
            return simp.uniform_cond(t, lambda *a: self.body(s[3], [*scope, *a], w), lambda *a: self.body(s[4], [*a, *scope], w), *pick(s[2]))
        if s[0] == "while":
            less = lambda i, n: simp.pcall_static(A, lambda p, q: tensor.run_jax(lambda u, v: u < v, p, q), i, n)
            more = lambda i: simp.pcall_static(A, lambda p: tensor.run_jax(lambda u: u + 1, p), i)
            n = simp.constant(A, np.array(s[1]))
            init = (simp.constant(A, np.array(0)), pick(s[2]))
            return simp.while_loop(lambda c: less(c[0], n), lambda c: (more(c[0]), self.body(s[3], [*scope, *c[1]], len(c[1]))), init)[1]
        return simp.pcall_static(A, lambda *a: self.body(s[2], [*scope, *a], local=True), *pick(s[1]))

    def plain(self, s, scope, pick):
        if s[0] == "cond":
            w, a = len(s[3][2]), pick(s[2])
            n = self.n  # both branches are traced
            x = self.body(s[3], [*scope, *a], w)
            y = self.body(s[4], [*a, *scope], w)
            return x if s[1] else y
        if s[0] == "while":
            state, n = pick(s[2]), self.n
            self.body(s[3], [*scope, *state], len(state))
            after = self.n
            for _ in range(s[1]):
                self.n = n
                state = self.body(s[3], [*scope, *state], len(state))
            self.n = after
            return state
        return self.body(s[2], [*scope, *pick(s[1])], local=True)


def nests():
    return st.tuples(st.integers(0, 3), BODY)


def run_nests(case):
    params, b = case
    given = [np.array(1000 + i) for i in range(params)]
    want = World(False).body(b, given)
    with simulator(2) as sim, sim:
        f = lambda *a: World(True).body(b, list(a))
        args = [simp.constant((0, 1), v) for v in given]
        t = mp.compile(f, *args)
        got = mp.fetch(mp.evaluate(t, *args))
    got = [[int(v) for v in g] for g in got]
    check(got == [[int(w)] * 2 for w in want], lambda: f"{b!r} with {params} parameters returned {got}, expected {[int(w) for w in want]}")
    label(f"depth {_depth(b)}")


def _depth(b):
    return 1 + max([_depth(x) for s in b[1] for x in s[2:] if isinstance(x, tuple)], default=0)


def nt(c):
    return sum(len(var_specs(s)) for s in c[0]) + sum(len(var_specs(s)) for s in c[1].values()) > 1


SUBS = [
    Sub("calls", calls, run_calls, "nested arguments mixing values and constants, nested results mixing arguments, captures, operations and constants, run directly, traced, and reused with new values; non-trivial = at least two traced leaves", nt, quick=700, thorough=20000, shards_quick=3, shards_thorough=6),
    Sub("reuse", reuses, run_reuse, "a trace given an argument, constant, type or structure other than it was traced with refuses it or computes with it; non-trivial = all", lambda c: True, quick=400, thorough=10000, shards_quick=2, shards_thorough=4),
    Sub("func", fcalls, run_fcalls, "functions defined once and called up to three times inside a trace", lambda c: len(c[0]) > 1, quick=500, thorough=10000, shards_thorough=3),
    Sub("nested", nests, run_nests, "functions inside functions (branches, loop bodies, local computations) that use their own arguments and constants and those of every enclosing one; non-trivial = at least two levels", lambda c: _depth(c[1]) > 1, quick=200, thorough=4000, shards_quick=4, shards_thorough=6),
    Sub("run_jax", jcalls, run_jcalls, "the same structures through a compiled numeric function", nt, quick=250, thorough=6000, shards_quick=2, shards_thorough=6),
]
KNOWN = []
