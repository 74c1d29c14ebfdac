"""P02: secure control flow takes the right branch and the right number of turns."""

from __future__ import annotations

import random

import numpy as np
from hypothesis import strategies as st

import mplang as mp
from checks.p01 import execute, http, judge, simulator
from mplang.dialects import simp, tensor
from vf import mpprog
from vf.core import Sub, Violation, check, label

PROPERTY = "P02"
ASSUMPTIONS = ["a predicate is held by every party", "loop conditions agree on all parties (only conditionals are verified)"]


# ---------------------------------------------------------------- random nests
@st.composite
def nests(draw):
    return draw(st.integers(1, 5)), draw(st.integers(1, 7)), draw(st.integers(0, 2**40)), draw(st.sampled_from(["traced", "traced", "packed"])), draw(st.integers(0, 5)) == 0


def gen(c):
    P, size, seed, _, _ = c
    return mpprog.Gen(seed, P, dyn=seed % 3 == 0, control=3, invalid=False, size=size)


def walk(stmts, depth=0):
    for s in stmts:
        yield s, depth
        if s[0] == "cond":
            for b, _ in s[6]:
                yield from walk(b, depth + 1)
        if s[0] == "while":
            yield from walk(s[5], depth + 1)


def run_nest(c):
    P, _, _, how, over_http = c
    stmts, desc = gen(c).program()
    log = {}
    model = mpprog.ev(stmts, [], log)
    what = f"{how} program {stmts} on {P} parties"
    with (http if over_http else simulator)(P) as interp:
        outs, vals = execute(interp, how, lambda: mpprog.build(stmts, []), 20, what)
    judge(P, desc, model, outs, vals, what)
    for k in log:
        if k in ("cond", "while") or "=" in k:
            label(k)
    if any(d > 1 or (d == 1 and s[0] in ("cond", "while")) for s, d in walk(stmts)):
        label("nested")


def nt_nest(c):
    return c[0] > 1 and any(s[0] in ("cond", "while") for s, _ in walk(gen(c).program()[0]))


# ---------------------------------------------------------------- disagreement
@st.composite
def votes(draw):
    P = draw(st.integers(2, 5))
    base = draw(st.booleans())
    odd = draw(st.sampled_from(["none", "one", "any"]))
    v = [base] * P
    if odd == "one":
        v[draw(st.integers(0, P - 1))] ^= True
    if odd == "any":
        v = draw(st.lists(st.booleans(), min_size=P, max_size=P))
    return tuple(v), draw(st.booleans()), draw(st.sampled_from(["const", "computed", "int"])), draw(st.sampled_from(["plain", "after", "inner"])), draw(st.integers(0, 4)) == 0


def run_vote(c):
    v, verify, kind, where, over_http = c
    P = len(v)
    everyone = tuple(range(P))

    def program():
        x = simp.converge(*[simp.constant((p,), np.array([p, 10 * p])) for p in everyone])
        dt = np.int64 if kind == "int" else np.bool_
        b = simp.converge(*[simp.constant((p,), np.array(int(v[p]), dtype=dt)) for p in everyone])
        if kind == "computed":
            b = simp.pcall_static(everyone, lambda y: tensor.run_jax(lambda t: t != 0, y), b)
        yes = lambda a: simp.pcall_static(everyone, lambda y: tensor.run_jax(lambda t: t + 1, y), a)  # noqa: E731
        no = lambda a: simp.pcall_static(everyone, lambda y: tensor.run_jax(lambda t: -t, y), a)  # noqa: E731
        if where == "inner":
            t = simp.constant(everyone, np.array(True))
            return [simp.uniform_cond(t, lambda a: simp.uniform_cond(b, yes, no, a), no, x)]
        if where == "after":
            x = simp.shuffle_static(x, {p: (p + 1) % P for p in everyone})
        return [simp.uniform_cond(b, yes, no, x)]

    agreed = len(set(v)) == 1
    what = f"conditional ({where}, {kind} predicate) on votes {v}"
    old = simp.VERIFY_UNIFORM_DEFAULT
    simp.VERIFY_UNIFORM_DEFAULT = verify
    try:
        if verify and not agreed:
            failed = None
            try:
                with (http if over_http else simulator)(P) as interp:
                    _, vals = execute(interp, "traced", program, 20, what)
            except Exception as e:
                failed = e
                if isinstance(e, (AssertionError, Violation)):
                    raise
            check(failed is not None, lambda: f"{what} was not reported but gave {vals}")
            text = str(failed) + (failed.response.text if hasattr(failed, "response") else "")
            check("uniform" in text, lambda: f"{what} failed for another reason: {failed!r} {text}")
            label("reported")
            return
        with (http if over_http else simulator)(P) as interp:
            _, vals = execute(interp, "traced", program, 20, what)
    finally:
        simp.VERIFY_UNIFORM_DEFAULT = old
    for p in everyone:
        q = (p + 1) % P if where == "after" else p
        x = np.array([q, 10 * q])
        want = x + 1 if v[p] else -x
        check(np.array_equal(np.asarray(vals[0][p]), want), lambda: f"{what}: party {p} has {vals[0][p]} instead of {want}")
    label("agreed" if agreed else "unverified")


# ---------------------------------------------------------------- what branches and bodies may return
KINDS = "vs"


def leaf(r, kinds, kind=None):
    """("x", i, +n): the i-th value plus n; or an immediate."""
    if kind is None and r.random() < 0.15:
        return ("imm", r.choice([None, 3, "t", 2.5]))
    c = [i for i, k in enumerate(kinds) if kind is None or k == kind]
    return ("x", r.choice(c), r.choice([0, 0, 0, 1, 2]))


def tree(r, kinds, depth=2):
    k = r.choice(["leaf", "list", "tuple", "dict"]) if depth else "leaf"
    if k == "leaf":
        return leaf(r, kinds)
    n = r.randrange(0 if depth < 2 else 1, 4)
    subs = [tree(r, kinds, depth - 1) for _ in range(n)]
    return ("dict", tuple((f"k{r.randrange(9)}{i}", s) for i, s in enumerate(subs))) if k == "dict" else (k, tuple(subs))


def sibling(r, t, kinds, exact):
    """A tree with the same signature (exact) or one that differs somewhere."""
    k = t[0]
    if k == "x":
        if not exact and r.random() < 0.3:
            return leaf(r, kinds)
        return leaf(r, kinds, kinds[t[1]])
    if k == "imm":
        return t if exact or r.random() < 0.6 else leaf(r, kinds)
    sub = t[1]
    if k == "dict":
        out = [(n, sibling(r, s, kinds, exact)) for n, s in sub]
        if not exact and out and r.random() < 0.3:
            out[0] = ("other", out[0][1])
        return ("dict", tuple(out))
    out = [sibling(r, s, kinds, exact) for s in sub]
    if not exact and r.random() < 0.3:
        out = out[:-1] if out and r.random() < 0.5 else [*out, leaf(r, kinds)]
    if not exact and r.random() < 0.2:
        k = "tuple" if k == "list" else "list"
    return (k, tuple(out))


def make(t, vals, add):
    if t[0] == "x":
        return vals[t[1]] if not t[2] else add(vals[t[1]], t[2])
    if t[0] == "imm":
        return t[1]
    if t[0] == "dict":
        return {n: make(s, vals, add) for n, s in t[1]}
    return [make(s, vals, add) for s in t[1]] if t[0] == "list" else tuple(make(s, vals, add) for s in t[1])


def same_tree(want, got, fetch, P):
    if isinstance(want, (list, tuple)):
        return type(want) is type(got) and len(want) == len(got) and all(same_tree(a, b, fetch, P) for a, b in zip(want, got))
    if isinstance(want, dict):
        return isinstance(got, dict) and set(want) == set(got) and all(same_tree(want[k], got[k], fetch, P) for k in want)
    if isinstance(want, (np.ndarray, np.generic)):
        x = fetch(got)
        return len(x) == P and all(np.array_equal(np.asarray(y), want) for y in x)
    return type(want) is type(got) and want == got


def setup(P, seed):
    r = random.Random(seed)
    everyone = tuple(range(P))
    kinds = [r.choice(KINDS) for _ in range(r.randrange(1, 4))]
    arr = [np.array([r.randrange(50), r.randrange(50)]) if k == "v" else np.array(r.randrange(50)) for k in kinds]
    objs = lambda: [simp.constant(everyone, a) for a in arr]  # noqa: E731
    add = lambda o, n: simp.pcall_static(everyone, lambda y: tensor.run_jax(lambda t: t + n, y), o)  # noqa: E731
    return r, everyone, kinds, arr, objs, add


@st.composite
def branches(draw):
    return draw(st.integers(1, 3)), draw(st.integers(0, 2**40)), draw(st.booleans()), draw(st.sampled_from(["same", "same", "differ"]))


def branch_case(c):
    P, seed, _, mode = c
    r, everyone, kinds, arr, objs, add = setup(P, seed)
    a = tree(r, kinds)
    b = sibling(r, a, kinds, mode == "same")
    return r, everyone, kinds, arr, objs, add, a, b


def fetcher(interp):
    def f(o):
        with interp:
            x = mp.fetch(o)
        return x if isinstance(x, list) else [x]

    return f


def run_branches(c):
    P, seed, pred, mode = c
    r, everyone, kinds, arr, objs, add, a, b = branch_case(c)
    ncap = r.randrange(len(kinds) + 1)  # the rest by argument
    order = r.sample(range(ncap, len(kinds)), len(kinds) - ncap)

    def fn():
        xs = objs()
        t = simp.constant(everyone, np.array(pred))

        def br(tr):
            def f(*args):
                vals = xs[:ncap] + [None] * (len(kinds) - ncap)
                for i, o in zip(order, args):
                    vals[i] = o
                return make(tr, vals, add)

            return f

        return simp.uniform_cond(t, br(a), br(b), *[xs[i] for i in order])

    what = f"conditional on {pred} returning {a} or else {b} of {arr}"
    want = make(a if pred else b, arr, lambda x, n: x + n)
    with simulator(P) as interp:
        try:
            with interp:
                t = mp.compile(fn)
        except (TypeError, ValueError) as e:
            check(mode == "differ", lambda: f"{what} was refused: {e!r}")
            label("refused")
            return
        got = mp.evaluate(t, context=interp)
        check(same_tree(want, got, fetcher(interp), P), lambda: f"{what} gave {got} instead of {want}")
    label(mode)


def nt_branches(c):
    *_, a, b = branch_case(c)
    return a != b and a[0] not in ("x", "imm")


@st.composite
def bodies(draw):
    return draw(st.integers(1, 3)), draw(st.integers(0, 2**40)), draw(st.integers(0, 4)), draw(st.sampled_from(["same", "same", "differ"]))


def body_case(c):
    P, seed, turns, mode = c
    r, everyone, kinds, arr, objs, add = setup(P, seed)
    kinds, arr = [*kinds, "s"], [*arr, np.array(turns)]  # the last is the counter
    n = len(kinds)
    o2 = lambda: [simp.constant(everyone, a) for a in arr]  # noqa: E731

    def shape(idx, depth=2):
        if len(idx) == 1 and r.random() < 0.6:
            return ("x", idx[0], 0)
        if depth == 0 and len(idx) == 1:
            return ("x", idx[0], 0)
        k = r.choice(["list", "tuple", "dict"])
        cuts = sorted(r.sample(range(1, len(idx)), r.randrange(0, len(idx)))) if len(idx) > 1 else []
        if depth == 0:
            cuts = list(range(1, len(idx)))
        parts = [idx[i:j] for i, j in zip([0, *cuts], [*cuts, len(idx)])]
        subs = [shape(p, depth - 1 if depth else 0) for p in parts]
        return ("dict", tuple((f"k{r.randrange(9)}{i}", s) for i, s in enumerate(subs))) if k == "dict" else (k, tuple(subs))

    init = shape(r.sample(range(n), n))
    if init[0] == "x":
        init = ("list", (init,))

    def step(t):
        if t[0] == "x":
            if t[1] == n - 1:
                return ("x", n - 1, -1)
            return leaf(r, kinds[:-1], kinds[t[1]])
        if t[0] == "dict":
            return ("dict", tuple((k, step(s)) for k, s in t[1]))
        return (t[0], tuple(step(s) for s in t[1]))

    body = step(init)
    if mode == "differ":
        def warp(t):
            if t[0] == "x":
                return t if r.random() < 0.8 else leaf(r, kinds)
            sub = list(t[1])
            if t[0] == "dict":
                if r.random() < 0.5 and len(sub) > 1:  # the names move on
                    names = [k for k, _ in sub]
                    return ("dict", tuple(zip(names[1:] + ["later"], [warp(s) for _, s in sub])))
                return ("dict", tuple((k, warp(s)) for k, s in sub))
            return (r.choice(["list", "tuple"]), tuple(warp(s) for s in sub))

        body = warp(body)
    return r, everyone, kinds, arr, o2, add, init, body


def unmake(t, value, out):
    """Find the values of the leaves of t in a structure of that shape."""
    if t[0] == "x":
        out[t[1]] = value
    elif t[0] == "dict":
        if not isinstance(value, dict) or set(value) != {k for k, _ in t[1]}:
            raise KeyError("structure")
        for k, s in t[1]:
            unmake(s, value[k], out)
    else:
        if type(value) is not (list if t[0] == "list" else tuple) or len(value) != len(t[1]):
            raise KeyError("structure")
        for s, x in zip(t[1], value):
            unmake(s, x, out)
    return out


def run_bodies(c):
    P, seed, turns, mode = c
    r, everyone, kinds, arr, objs, add, init, body = body_case(c)
    n = len(kinds)

    def fn():
        def cond(s):
            return simp.pcall_static(everyone, lambda y: tensor.run_jax(lambda t: t > 0, y), unmake(init, s, {})[n - 1])

        def loop(s):
            return make(body, unmake(init, s, {}), add)

        return simp.while_loop(cond, loop, make(init, objs(), add))

    what = f"loop over {init} of {arr} with body {body}"
    state, bad = make(init, arr, None), False
    for _ in range(turns):
        if bad:
            break
        try:
            state = make(body, unmake(init, state, {}), lambda x, k: x + k)
            unmake(init, state, {})
        except KeyError:
            bad = True
    if not bad and turns:
        bad = unmake(init, state, {})[n - 1] is None or int(np.max(unmake(init, state, {})[n - 1])) > 0  # a warped counter
    if mode == "differ" and not bad and not turns:
        # never runs: judged by signature only
        label("zero turns")
    with simulator(P) as interp:
        try:
            with interp:
                t = mp.compile(fn)
        except (TypeError, ValueError) as e:
            check(mode == "differ", lambda: f"{what} was refused: {e!r}")
            label("refused")
            return
        if mode == "differ" and counter_lost(init, body, n):
            return  # would not end
        check(not bad, lambda: f"{what} was accepted though the body returns another structure than the state")
        got = mp.evaluate(t, context=interp)
        check(same_tree(state, got, fetcher(interp), P), lambda: f"{what} for {turns} turns gave {got} instead of {state}")
    label(mode)


def counter_lost(init, body, n):
    try:
        x = unmake(init, make(body, list(range(n)), lambda v, k: ("+", v, k)), {})
    except KeyError:
        return False
    return x.get(n - 1) != ("+", n - 1, -1)


def nt_bodies(c):
    return c[2] > 1


# ---------------------------------------------------------------- conditions that are not a scalar of the parties
@st.composite
def odd_preds(draw):
    return draw(st.integers(1, 3)), draw(st.sampled_from(["cond", "while"])), draw(st.sampled_from(["vector", "true", "false", "two", "none"])), draw(st.integers(0, 9))


def run_odd(c):
    P, form, what, x0 = c
    everyone = tuple(range(P))

    def pred(x):
        if what == "vector":
            return simp.pcall_static(everyone, lambda y: tensor.run_jax(lambda t: (t > 0).reshape(1), y), x)
        if what == "two":
            return (x, x)
        return {"true": True, "false": False, "none": None}[what]

    def fn():
        x = simp.constant(everyone, np.array(x0))
        add = lambda a: simp.pcall_static(everyone, lambda y: tensor.run_jax(lambda t: t + 1, y), a)  # noqa: E731
        if form == "cond":
            return simp.uniform_cond(pred(x), add, lambda a: a, x)
        return simp.while_loop(pred, add, x)

    with simulator(P) as interp:
        try:
            with interp:
                t = mp.compile(fn)
        except (TypeError, ValueError, AttributeError):
            label("refused")
            return
        # a constant False is a fair condition: it selects the other branch, or no turn
        check(what == "false", lambda: f"{form} on a predicate that is {what} was accepted")
        got = fetcher(interp)(mp.evaluate(t, context=interp))
        check(all(int(np.asarray(g)) == x0 for g in got), lambda: f"{form} on False gave {got} for {x0}")


SUBS = [
    Sub("programs", nests, run_nest, "random programs whose conditionals and loops nest, capture, pass arguments and communicate in their bodies; non-trivial = a conditional or loop on two parties or more",
        nt_nest, quick=160, thorough=6000, shards_quick=5, shards_thorough=8, hang_s=90),
    Sub("disagree", votes, run_vote, "predicates that differ at none, one or several of two to five parties, verified or not, in memory or over HTTP; non-trivial = parties disagree",
        lambda c: len(set(c[0])) > 1, quick=60, thorough=1500, shards_quick=2, shards_thorough=6, hang_s=90),
    Sub("branches", branches, run_branches, "branches returning nested structures of arguments, captures, computed values and plain values, of equal or of differing signature: the selected one's result, or refused; non-trivial = a container and two different branches",
        nt_branches, quick=200, thorough=6000, shards_quick=2, shards_thorough=8, hang_s=60),
    Sub("bodies", bodies, run_bodies, "loops over nested states that permute, repeat and advance their values, with bodies of the same or of a differing structure; non-trivial = two turns",
        nt_bodies, quick=200, thorough=6000, shards_quick=2, shards_thorough=8, hang_s=60),
    Sub("predicates", odd_preds, run_odd, "predicates that are no scalar; non-trivial = any", lambda c: True, quick=24, thorough=200, hang_s=60),
]
KNOWN = []
