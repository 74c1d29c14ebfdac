"""E06: code runs in the innermost context, and contexts are left as they were found."""

from __future__ import annotations

import contextlib
import itertools

import numpy as np
from hypothesis import strategies as st

import mplang as mp
from mplang.dialects import func, simp, tensor
from mplang.edsl import context as C
from mplang.edsl.object import Object
from mplang.edsl.tracer import Tracer
from mplang.libs.device import ClusterSpec
from mplang.runtime.interpreter import InterpObject, Interpreter
from vf.core import Sub, check, label

PROPERTY = "E06"
ASSUMPTIONS = ["contexts are entered and left by one thread", "a value of a finished or enclosing trace is not used at once in an interpreter"]
_n = itertools.count()


class Boom(Exception):
    pass


@contextlib.contextmanager
def empty_stack():
    """The check starts without any context and gives back what was there."""
    old, C._context_stack[:] = list(C._context_stack), []
    try:
        yield
    finally:
        C._context_stack[:] = old


def spec(P, shift):
    """Devices D0.. on the nodes, turned by shift."""
    return ClusterSpec.from_dict({
        "cluster_id": f"e06-{next(_n)}",
        "nodes": [{"name": f"n{i}", "endpoint": f"localhost:{7000 + i}"} for i in range(P)],
        "devices": {f"D{i}": {"kind": "PPU", "members": [f"n{(i + shift) % P}"]} for i in range(P)},
    })


# ---------------------------------------------------------------- nesting of contexts
IX = st.integers(0, 7)
CTX = st.integers(0, 3)
MAYBE = st.one_of(st.none(), CTX)
LEAF = st.one_of(
    st.tuples(st.just("new"), st.integers(-9, 9)),
    st.tuples(st.just("op"), IX, IX),
    st.tuples(st.just("op"), IX, IX),
    st.tuples(st.just("state"), CTX, st.sampled_from("ab"), st.integers(0, 9)),
    st.tuples(st.just("run"), IX, MAYBE),
    st.tuples(st.just("run"), IX, MAYBE),
    st.tuples(st.just("new"), st.integers(-9, 9)),
    st.tuples(st.just("op"), IX, IX),
    st.tuples(st.just("fetch"), IX, MAYBE),
    st.tuples(st.just("parties")),
    st.tuples(st.just("device"), st.integers(0, 2)),
    st.tuples(st.just("root"), CTX),
    st.tuples(st.just("inner"), st.sampled_from(["pcall", "func", "elementwise", "cond", "while", "jax"]), st.booleans()),
    st.tuples(st.just("raise")),
)


def _grow(c):
    body = st.lists(c, min_size=1, max_size=4)
    return st.one_of(
        st.tuples(st.just("with"), CTX, body),
        st.tuples(st.just("push"), CTX, body),
        st.tuples(st.just("trace"), MAYBE, st.lists(IX, max_size=2), body),
        st.tuples(st.just("trace"), MAYBE, st.lists(IX, max_size=2), body),
        st.tuples(st.just("eval"), MAYBE, body),
        st.tuples(st.just("try"), body),
    )


def nests():
    stmt = st.recursive(LEAF, _grow, max_leaves=14)
    return st.tuples(st.one_of(st.none(), st.none(), st.tuples(CTX, st.booleans())), st.lists(stmt, min_size=1, max_size=7))


class World:
    def __init__(self):
        specs = [None, None, spec(2, 1), spec(3, 1)]
        self.pool = [Interpreter(name="A"), Interpreter(name="B"), mp.make_compile_context(cluster_spec=specs[2]), mp.make_compile_context(3, cluster_spec=specs[3])]
        self.specs = {id(c): s for c, s in zip(self.pool, specs, strict=True) if s is not None}
        self.sizes = {id(self.pool[2]): 2, id(self.pool[3]): 3}
        self.states: dict = {}
        self.stack: list = []
        self.vars: list = []  # (object, array, owner)
        self.runs: list = []  # (traced, args, arrays, owners, made of)
        self.made = set()

    # ------------------------------------------------------------ looks
    def top(self):
        return self.stack[-1] if self.stack else None

    def interp(self):
        return next((c for c in reversed(self.stack) if not isinstance(c, Tracer)), None)

    def look(self, where):
        t = self.top()
        check(C.get_current_context() is t, lambda: f"{where}: the current context is {C.get_current_context()!r} instead of {t!r}")
        check(mp.is_tracing() is isinstance(t, Tracer), f"{where}: is_tracing() is wrong")
        check(mp.find_interpreter() is self.interp(), f"{where}: find_interpreter() is not the innermost interpreter")
        for key in "ab":
            want = next((c for c in reversed(self.stack) if (id(c), key) in self.states), None)
            got = mp.find_context_with_state(key)
            check(got is want, f"{where}: state {key!r} is found at {got!r} instead of {want!r}")
            for c in self.pool:
                check(c.has_state(key) is ((id(c), key) in self.states) and c.get_state(key, "none") == self.states.get((id(c), key), "none"), f"{where}: state {key!r} of {c!r}")
        seen = []
        mp.find_context(lambda c: seen.append(c))
        check(len(seen) == len(self.stack) and all(a is b for a, b in zip(seen, reversed(self.stack), strict=True)), f"{where}: the contexts are {seen} instead of {self.stack[::-1]}")

    @contextlib.contextmanager
    def entered(self, c):
        self.stack.append(c)
        try:
            yield
        finally:
            self.stack.pop()

    # ------------------------------------------------------------ values
    def add(self, obj, arr, where):
        """A fresh value of the current context."""
        owner = self.top() or C.get_default_context()
        check(isinstance(obj, Object) and obj._context is owner, lambda: f"{where}: made in {getattr(obj, '_context', obj)!r} instead of {owner!r}")
        if isinstance(owner, Tracer):
            check(not isinstance(obj, InterpObject), f"{where}: computed at once inside a trace")
        else:
            self.holds(obj, arr, where)
        self.vars.append((obj, arr, owner))
        return len(self.vars) - 1

    def holds(self, obj, arr, where):
        check(isinstance(obj, InterpObject), f"{where}: not computed at once")
        v = np.asarray(obj.runtime_obj.data)
        check(v.shape == arr.shape and (v == arr).all(), lambda: f"{where}: {v} instead of {arr}")

    def usable(self):
        """Values that may be named here: those of interpreters, and of the traces under way when in a trace."""
        t = self.top()
        return [i for i, (_, _, o) in enumerate(self.vars) if not isinstance(o, Tracer) or (isinstance(t, Tracer) and any(o is c for c in self.stack))]

    def pick(self, i):
        u = self.usable()
        return u[i % len(u)] if u else None

    # ------------------------------------------------------------ statements
    def block(self, body, where):
        last = []
        for i, s in enumerate(body):
            w = f"{where}/{i}:{s[0]}"
            r = getattr(self, "do_" + s[0])(w, *s[1:])
            if r is not None:
                last.append(r)
            self.look(w)
        return last

    def do_new(self, w, c):
        a = np.array([c, len(self.vars)], np.int64)
        return self.add(tensor.constant(a), a, w)

    def do_op(self, w, i, j):
        i, j = self.pick(i), self.pick(j)
        if i is None:
            return None
        (x, a, p), (y, b, q) = self.vars[i], self.vars[j]
        here = self.top() or C.get_default_context()
        want = np.concatenate([a, b])[-6:]
        if not isinstance(here, Tracer) and (p is not here or q is not here):
            label("refused")
            try:
                r = tensor.concat([x, y], axis=0)
            except ValueError as e:
                check("different Interpreter" in str(e), lambda: f"{w}: refused with {e}")
                return None
            check(False, lambda: f"{w}: {here!r} took a value of another interpreter and gave {r!r}")
        if p is not here or q is not here:
            label("captured")
        r = tensor.concat([x, y], axis=0)
        n = len(a) + len(b)
        r = tensor.slice_tensor(r, (max(0, n - 6),), (n,))
        return self.add(r, want, w)

    def do_state(self, w, c, key, v):
        self.pool[c].set_state(key, v)
        self.states[(id(self.pool[c]), key)] = v

    def do_raise(self, w):
        label("raise")
        raise Boom(w)

    def do_try(self, w, body):
        depth, before = len(self.stack), len(self.vars)
        try:
            return (self.block(body, w) or [None])[-1]
        except Boom:
            check(len(self.stack) == depth, "model")
            self.look(w + ", after an exception")
            return before if len(self.vars) > before and before in self.usable() else None

    def do_with(self, w, c, body):
        ctx = self.pool[c]
        with ctx as got, self.entered(ctx):
            check(got is ctx, f"{w}: `as` gives {got!r}")
            self.look(w)
            return (self.block(body, w) or [None])[-1] if not isinstance(self.top(), Tracer) else None

    def do_push(self, w, c, body):
        ctx = self.pool[c]
        mp.push_context(ctx)
        try:
            with self.entered(ctx):
                self.look(w)
                self.block(body, w)
        finally:
            got = mp.pop_context()
            check(got is ctx, f"{w}: popped {got!r} instead of {ctx!r}")

    def do_trace(self, w, c, picks, body):
        args = [x for x in (self.pick(i) for i in picks) if x is not None]
        vals = [self.vars[i] for i in args]
        ctx = None if c is None else self.pool[c]
        out: list = []
        first = len(self.vars)

        def fn(*params):
            t = C.get_current_context()
            check(isinstance(t, Tracer) and not any(t is s for s in self.stack), f"{w}: the function is traced in {t!r}")
            self.made.add(id(t))
            with contextlib.ExitStack() as s:
                if ctx is not None:
                    s.enter_context(self.entered(ctx))
                s.enter_context(self.entered(t))
                self.look(w)
                for p, (_, a, _) in zip(params, vals, strict=True):
                    check(isinstance(p, Object) and p._context is t, f"{w}: a parameter belongs to {getattr(p, '_context', None)!r}")
                    self.vars.append((p, a, t))
                last = self.block(body, w)
                own = [i for i in last if self.vars[i][2] is t][-2:]
                # what was made outside may be returned as well
                own += [i for i in self.usable()[:1] if self.vars[i][2] is not t]
                out[:] = own
                return [self.vars[i][0] for i in own]

        kw = {} if ctx is None else {"context": ctx}
        traced = mp.compile(fn, *(v[0] for v in vals), **kw)
        self.look(w + ", after the trace")
        used = [v[2] for v in vals] + [o._context for o in traced.captured]
        if any(isinstance(o, Tracer) for o in used):
            label("trace in trace")
            return None
        if any(o.opcode.startswith(("simp.", "func.")) for o in traced.graph.operations):
            return None  # the pool can only compute locally
        self.runs.append((traced, [v[0] for v in vals], [self.vars[i][1] for i in out], used))
        check(len(self.vars) >= first, "model")
        return None

    def do_run(self, w, i, c):
        if not self.runs:
            return
        traced, args, want, owners = self.runs[i % len(self.runs)]
        here = self.top() if c is None else self.pool[c]
        kw = {} if c is None else {"context": here}
        try:
            got = mp.evaluate(traced, *args, **kw)
        except Boom:
            raise
        except Exception as e:
            if not isinstance(here, Interpreter):
                check(isinstance(e, RuntimeError), lambda: f"{w}: {e!r}")
                return
            if any(o is not here for o in owners):
                label("foreign refused")
                return
            raise
        check(isinstance(here, Interpreter), f"{w}: evaluated without an interpreter")
        label("run")
        check(len(got) == len(want), f"{w}: {len(got)} results")
        for g, a in zip(got, want, strict=True):
            check(g._context is here, lambda: f"{w}: the result belongs to {g._context!r} instead of {here!r}")
            self.holds(g, a, w)
            if here is self.top():
                self.add(g, a, w)

    def do_eval(self, w, c, body):
        here = self.top() if c is None else self.pool[c]
        kw = {} if c is None else {"context": here}
        box: list = []

        def fn():
            check(isinstance(here, Interpreter), f"{w}: evaluated without an interpreter")
            with self.entered(here):
                self.look(w)
                last = self.block(body, w)
                box.append(1)
                return [self.vars[i][0] for i in last if self.vars[i][2] is here], last

        if not isinstance(here, Interpreter):
            try:
                mp.evaluate(fn, **kw)
            except RuntimeError as e:
                check("context" in str(e).lower(), lambda: f"{w}: {e}")
                return
            check(False, f"{w}: evaluated without an interpreter")
        objs, last = mp.evaluate(fn, **kw)
        check(box == [1], f"{w}: the function ran {len(box)} times")
        want = [self.vars[i] for i in last if self.vars[i][2] is here]
        check(len(objs) == len(want) and all(o is v[0] for o, v in zip(objs, want, strict=True)), f"{w}: other objects come back")

    def do_fetch(self, w, i, c):
        i = self.pick(i)
        if i is None:
            return
        obj, a, owner = self.vars[i]
        here = self.top()
        kw = {} if c is None else {"context": self.pool[c]}
        if isinstance(here, Tracer):
            check(mp.fetch(obj, **kw) is obj, f"{w}: fetch inside a trace is not the identity")
            return
        if c is None and here is None:
            try:
                mp.fetch(obj)
            except RuntimeError:
                return
            check(False, f"{w}: fetched without a context")
        v = np.asarray(mp.fetch([obj], **kw)[0])
        check(v.shape == a.shape and (v == a).all(), lambda: f"{w}: fetched {v} instead of {a}")

    def do_parties(self, w):
        if not isinstance(self.top(), Tracer):
            return
        size = next((self.sizes[id(c)] for c in reversed(self.stack) if id(c) in self.sizes), None)
        f = mp.function(lambda: tensor.constant(np.int64(1)))
        if size is None:
            try:
                f()
            except RuntimeError:
                return
            check(False, f"{w}: mp.function runs without a cluster")
        label("parties")
        t = f().type
        check(t.parties == tuple(range(size)), lambda: f"{w}: runs at {t.parties} of {size}")

    def do_device(self, w, d):
        if not isinstance(self.top(), Tracer):
            return
        s = next((self.specs[id(c)] for c in reversed(self.stack) if id(c) in self.specs), None)
        name = f"D{d}"
        if s is None or name not in s.devices:
            try:
                x = mp.put(name, np.arange(3))
            except Exception:
                return
            check(False, lambda: f"{w}: {name} of another cluster is used: {x.type}")
        label("device")
        x = mp.put(name, np.arange(3))
        want = (s.devices[name].members[0].rank,)
        check(x.type.parties == want and mp.get_dev_attr(x) == name and x._context is self.top(), lambda: f"{w}: {name} is at {x.type.parties} instead of {want}")

    def do_root(self, w, c):
        """Without force only an empty stack takes a root."""
        if not self.stack:
            return
        try:
            mp.set_root_context(self.pool[c])
        except RuntimeError:
            return
        check(False, f"{w}: a root was set below {self.stack}")

    def do_inner(self, w, kind, fail):
        """Functions traced by an operation run in a context of their own, and leave it in any case."""
        t = self.top()
        if not isinstance(t, Tracer):
            return
        outer = self.stack[:]

        def inside(*xs):
            cur = C.get_current_context()
            check(isinstance(cur, Tracer) and not any(cur is s for s in outer), f"{w} {kind}: traced in {cur!r}")
            check(mp.is_tracing() and mp.find_interpreter() is self.interp(), f"{w} {kind}: inside")
            if fail:
                raise Boom(w)

        one = np.int64(1)
        at = lambda v: simp.pcall_static((0,), lambda: tensor.constant(v))  # noqa: E731

        def go():
            if kind == "pcall":
                simp.pcall_static((0, 1), lambda: (inside(), tensor.constant(one))[1])
            elif kind == "func":
                func.func(lambda x: (inside(), tensor.concat([x, x], axis=0))[1], tensor.constant(np.arange(2)))
            elif kind == "elementwise":
                tensor.elementwise(lambda x: (inside(), x)[1], tensor.constant(np.arange(2)))
            elif kind == "cond":
                x, p = at(one), at(np.bool_(True))
                simp.uniform_cond(p, lambda v: (inside(), v)[1], lambda v: v, x)
            elif kind == "while":
                simp.while_loop(lambda v: simp.pcall_static((0,), lambda u: tensor.run_jax(lambda z: z > 3, u), v), lambda v: (inside(), v)[1], at(one))
            else:
                tensor.run_jax(lambda z: z + 1 if not fail else 1 / 0, tensor.constant(one))

        try:
            go()
        except (Boom, ZeroDivisionError):
            check(fail, "model")
            label("inner failed")
        else:
            check(not fail, lambda: f"{w} {kind}: the failure was lost")


def run_nest(case):
    root, body = case
    with empty_stack():
        W = World()
        if root is not None:
            c, force = W.pool[root[0]], root[1]
            if force:
                mp.push_context(W.pool[root[0] - 1])
                mp.push_context(W.pool[root[0] - 2])
            mp.set_root_context(c, force=force)
            W.stack.append(c)
            label("root")
        W.look("start")
        try:
            W.block(body, "")
        except Boom:
            W.look("end, after an exception")
        check(len(W.stack) == (root is not None), "model")
        W.look("end")
        d = C.get_default_context()
        check(d is C.get_default_context() and isinstance(d, Interpreter), "the default context changes")


def count(body):
    n = 0
    for s in body:
        n += s[0] in ("with", "push", "trace", "eval")
        for x in s[1:]:
            if isinstance(x, list) and x and isinstance(x[0], tuple):
                n += count(x)
    return n


# ---------------------------------------------------------------- nested clusters
def clusters():
    return st.tuples(
        st.lists(st.tuples(st.integers(1, 4), st.integers(0, 3)), min_size=2, max_size=3),
        st.lists(st.tuples(st.integers(0, 2), st.one_of(st.none(), st.integers(0, 2)), st.sampled_from(["eager", "traced", "foreign", "fail"]), st.integers(-50, 50)), min_size=2, max_size=6),
    )


def run_clusters(case):
    """Programs on several live simulators, by `with` and by `context=`."""
    specs = [spec(P, k) for P, k in case[0]]
    sims = [mp.make_simulator(s.world_size, cluster_spec=s) for s in specs]
    ok = False
    held: list = []  # values that stay at their simulators
    try:
        with empty_stack():
            for a, b, how, v in case[1]:
                a = a % len(sims)
                outer = sims[a]
                b = None if b is None else b % len(sims)
                i = a if b is None else b
                s, P = specs[i], specs[i].world_size
                kw = {} if b is None else {"context": sims[b]}
                label(f"{how} {'own' if b is None else 'other' if b != a else 'same'}")
                d = abs(v) % P
                rank = s.devices[f"D{d}"].members[0].rank

                def prog():
                    every = mp.function(lambda: tensor.constant(np.int64(v)))()
                    there = mp.put(f"D{d}", np.arange(3) + v)
                    return every, there

                with outer:
                    if how == "fail":
                        def bad():
                            prog()
                            raise Boom

                        for go in (lambda: mp.evaluate(bad, **kw), lambda: mp.compile(bad, **kw)):
                            try:
                                go()
                            except Boom:
                                pass
                            check(C.get_current_context() is outer and C._context_stack == [outer], lambda: f"after a failure the contexts are {C._context_stack}")
                        continue
                    if how == "foreign":
                        own = [h for h in held if h[0] != i]
                        if not own:
                            continue
                        j, obj, want, _ = own[-1]
                        try:
                            r = mp.evaluate(lambda: simp.pcall_static((0,), lambda x: tensor.concat([x, x], axis=0), obj), **kw)
                            r = mp.fetch(r, **kw)
                        except Exception:
                            label("foreign refused")
                        else:
                            check(False, lambda: f"a value of cluster {j} was used at cluster {i}: {r}")
                        continue
                    if how == "eager":
                        every, there = mp.evaluate(prog, **kw)
                    else:
                        t = mp.compile(prog, **kw)
                        every, there = mp.evaluate(t, **kw)
                    check(every.type.parties == tuple(range(P)), lambda: f"mp.function runs at {every.type.parties} of {P}")
                    check(there.type.parties == (rank,), lambda: f"D{d} is at {there.type.parties} instead of {rank}")
                    check(every._context is sims[i] and there._context is sims[i], "the results belong to another interpreter")
                    got = mp.fetch(every, **kw)
                    check(got == v if P == 1 else [int(x) for x in got] == [v] * P, lambda: f"fetched {got} instead of {v} by {P} parties")
                    got = mp.fetch(there, follow_device=False, **kw)
                    got = [got] if P == 1 else got
                    for r, x in enumerate(got):
                        if r == rank:
                            check(x is not None and (np.asarray(x) == np.arange(3) + v).all(), lambda: f"D{d} holds {x}")
                        else:
                            check(x is None, lambda: f"party {r} holds {x}")
                    held.append((i, there, np.arange(3) + v, d))
                    check(C._context_stack == [outer], lambda: f"the contexts are {C._context_stack}")
            # what was made stays where it was made
            for i, obj, want, d in held:
                with sims[i]:
                    got = mp.fetch(obj, follow_device=False)
                    got = got if specs[i].world_size == 1 else got[specs[i].devices[f"D{d}"].members[0].rank]
                    check((np.asarray(got) == want).all(), lambda: f"later, D{d} of cluster {i} holds {got}")
        ok = True
    finally:
        for sim in sims:
            if ok:
                sim.shutdown()
            else:
                sim._simp_cluster.shutdown(wait=False)


SUBS = [
    Sub("nest", nests, run_nest, "statements in any nesting of four interpreters (two with a cluster), traces, evaluations and exceptions; non-trivial = two nested contexts", lambda c: count(c[1]) + (c[0] is not None) >= 2,
        quick=260, thorough=6000, shards_quick=4, shards_thorough=8),
    Sub("clusters", clusters, run_clusters, "programs on two or three live simulators entered and named in any combination; non-trivial = another cluster than the entered one is named", lambda c: any(b is not None and b % len(c[0]) != a % len(c[0]) for a, b, _, _ in c[1]),
        quick=40, thorough=900, shards_quick=2, shards_thorough=6),
]
