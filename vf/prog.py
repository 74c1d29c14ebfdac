"""Random straight-line tensor programs: plain-data cases, a numpy reading, and the mplang function.

A case is (inputs, stmts, outs):
  inputs: list of arrays; stmts: list of (op, p, q, r, extra) with small integers that are
  resolved against the values available at that point; outs: nested structure of integers.
"""

from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from vf.gen import arrays

DTYPES = ["bool", "int32", "int64", "uint8", "uint64", "float32", "float64"]

# ---- named scalar/array functions: (jax, numpy) pairs, all total and wrap-around exact for integers ----


def _jnp():
    import jax.numpy as jnp

    return jnp


def _num(a):
    return a.dtype != np.bool_


JAX = {
    # name: (arity, applicable(values), jax fn(xs, k, c), numpy fn(xs, k, c))
    "add": (2, lambda x, y: _bc(x, y), lambda x, k, c: x[0] + x[1], None),
    "mul": (2, lambda x, y: _bc(x, y), lambda x, k, c: x[0] * x[1], None),
    "sub": (2, lambda x, y: _bc(x, y) and _num(x), lambda x, k, c: x[0] - x[1], None),
    "addk": (1, lambda x: _num(x), lambda x, k, c: x[0] + k, lambda x, k, c: x[0] + x[0].dtype.type(k)),
    "kw": (1, lambda x: _num(x), lambda x, k, c: x[0] * k, lambda x, k, c: x[0] * x[0].dtype.type(k)),
    "addc": (1, lambda x: _num(x), lambda x, k, c: x[0] + c.astype(x[0].dtype), lambda x, k, c: x[0] + c.astype(x[0].dtype)),
    "square": (1, lambda x: True, lambda x, k, c: x[0] * x[0], None),
    "gt": (2, lambda x, y: _bc(x, y), lambda x, k, c: x[0] > x[1], None),
    "where": (2, lambda x, y: _bc(x, y), lambda x, k, c: _jnp().where(x[0] > x[1], x[0], x[1]), lambda x, k, c: np.where(x[0] > x[1], x[0], x[1])),
    "sum": (1, lambda x: x.dtype.kind in "iu" and x.ndim > 0, lambda x, k, c: _jnp().sum(x[0], axis=k % len(x[0].shape), dtype=x[0].dtype), lambda x, k, c: np.sum(x[0], axis=k % x[0].ndim, dtype=x[0].dtype)),
    "minmax": (1, lambda x: _num(x), lambda x, k, c: {"lo": _jnp().min(x[0]), "hi": [_jnp().max(x[0]), x[0]]}, lambda x, k, c: {"lo": np.min(x[0]), "hi": [np.max(x[0]), x[0]]}),
    "second": (2, lambda x, y: True, lambda x, k, c: x[1], None),
    "swap": (2, lambda x, y: True, lambda x, k, c: (x[1], x[0]), None),
    "cast": (1, lambda x: x.dtype.kind in "biu", lambda x, k, c: x[0].astype(["int64", "float64", "int32", "uint8"][k % 4]), None),
    "flip": (1, lambda x: x.ndim > 0, lambda x, k, c: x[0][::-1], None),
    "ravel": (1, lambda x: True, lambda x, k, c: x[0].reshape(-1), None),
    "cumsum": (1, lambda x: x.dtype.kind in "iu", lambda x, k, c: _jnp().cumsum(x[0].reshape(-1), dtype=x[0].dtype), lambda x, k, c: np.cumsum(x[0].reshape(-1), dtype=x[0].dtype)),
    "dot": (2, lambda x, y: x.dtype.kind in "iu" and x.dtype == y.dtype and x.ndim == 2 and y.ndim == 2 and x.shape[1] == y.shape[0], lambda x, k, c: x[0] @ x[1], None),
    "dup": (1, lambda x: True, lambda x, k, c: [x[0], x[0]], None),
}
NAMES = sorted(JAX)


def _twin(c):
    """The same bytes under another element type."""
    t = {1: ["uint8", "bool"], 4: ["int32", "float32"], 8: ["int64", "uint64", "float64"]}[c.dtype.itemsize]
    t = [d for d in t if d != str(c.dtype)][0]
    if t == "bool" and not np.isin(c, [0, 1]).all():
        return np.zeros_like(c)
    v = c.view(t)
    return v if v.dtype.kind != "f" or np.isfinite(v).all() else np.zeros(c.shape, t)


def _bc(x, y):
    if x.dtype != y.dtype:
        return False
    try:
        np.broadcast_shapes(x.shape, y.shape)
        return True
    except ValueError:
        return False


EW = {
    "add": lambda a, b: a + b,
    "mul": lambda a, b: a * b,
    "pair": lambda a, b: (a * b, a + b),
    "gt": lambda a, b: a > b,
    "first": lambda a, b: a,
}
EWN = sorted(EW)

OPS = ["const", "transpose", "reshape", "concat", "gather", "slice", "jax", "jax", "jax", "jax", "ew", "func"]


def stmts(ops=OPS, max_size=8):
    one = st.tuples(st.sampled_from(ops), st.integers(0, 40), st.integers(0, 40), st.integers(-6, 60), st.one_of(st.none(), st.lists(st.integers(-4, 5), min_size=1, max_size=4), arrays(DTYPES, max_rank=2, max_side=3, min_side=1, allow_nan=False)))
    return st.lists(one, min_size=2, max_size=max_size)


def outs():
    i = st.integers(0, 60)
    return st.one_of(i, st.lists(i, min_size=1, max_size=4), st.recursive(i, lambda c: st.one_of(st.lists(c, max_size=3), st.lists(c, max_size=3).map(tuple), st.dictionaries(st.sampled_from(["a", "b", "z"]), c, max_size=3)), max_leaves=5))


def cases(ops=OPS, max_stmts=8, dtypes=DTYPES):
    return st.tuples(st.lists(arrays(dtypes, max_rank=3, max_side=3, min_side=1, allow_nan=False), min_size=1, max_size=3), stmts(ops, max_stmts), outs())


# ---- resolution: numpy reading -------------------------------------------------


def daz(a):
    """Subnormal numbers read as zero, as compiled code does."""
    a = np.asarray(a)
    if a.dtype not in (np.float32, np.float64):
        return a
    with np.errstate(all="ignore"):
        return np.where(np.abs(a) < np.finfo(a.dtype).tiny, np.copysign(np.zeros_like(a), a), a)


def _apply_np(name, xs, k, c):
    _, _, jf, nf = JAX[name]
    if name not in ("second", "swap", "flip", "ravel", "dup"):
        xs, c = [daz(x) for x in xs], c if c is None else daz(c)
    with np.errstate(all="ignore"):
        return (nf or jf)(xs, k, c)


def _leaves(v):
    if isinstance(v, dict):
        return [x for k in sorted(v) for x in _leaves(v[k])]
    if isinstance(v, (list, tuple)):
        return [x for u in v for x in _leaves(u)]
    return [np.asarray(v)]


def resolve(case):
    """-> (plan, values, outs): concrete statements, all numpy values in order, output structure of indices."""
    ins, sts, out = case
    vals = [np.asarray(a) for a in ins]
    plan = []
    for op, p, q, r, ex in sts:
        n = len(vals)
        i, j = p % n, q % n
        x, y = vals[i], vals[j]
        step, new = None, None
        if op == "const":
            c = np.asarray(ex) if ex is not None else np.float64(r)
            prev = [s_[1] for s_ in plan if s_[0] == "const"]
            if prev and q % 2:  # an earlier constant again, or its bytes under another type or shape
                c = np.asarray(prev[q % len(prev)])
                c = [c, c.reshape(-1), c.reshape(1, *c.shape), _twin(c)][p % 4]
            step, new = ("const", c), [c]
        elif op == "transpose":
            perm = list(range(x.ndim))
            rr = abs(r)
            for a in range(x.ndim - 1, 0, -1):
                b = rr % (a + 1)
                rr //= a + 1
                perm[a], perm[b] = perm[b], perm[a]
            step, new = ("transpose", i, tuple(perm)), [np.transpose(x, perm)]
        elif op == "reshape":
            size = x.size
            divs = [d for d in range(1, size + 1) if size % d == 0]
            d1 = divs[abs(r) % len(divs)]
            rest = size // d1
            divs2 = [d for d in range(1, rest + 1) if rest % d == 0]
            d2 = divs2[q % len(divs2)]
            opts = [(size,), (d1, rest), (d1, -1), (-1, rest), (d1, d2, rest // d2), (-1,), (1, size)] + ([()] if size == 1 else [])
            shp = opts[(q + abs(r)) % len(opts)]
            step, new = ("reshape", i, shp), [x.reshape(shp)]
        elif op == "concat":
            if x.ndim:
                ax = abs(r) % x.ndim
                group = [k for k in (i, j, i) if vals[k].dtype == x.dtype and vals[k].ndim == x.ndim and all(vals[k].shape[d] == x.shape[d] for d in range(x.ndim) if d != ax)]
                if sum(vals[k].size for k in group) < 200:
                    ax2 = ax if r >= 0 else ax - x.ndim
                    step, new = ("concat", tuple(group), ax2), [np.concatenate([vals[k] for k in group], axis=ax2)]
        elif op == "gather":
            if x.ndim and isinstance(ex, list):
                ax = abs(r) % x.ndim
                dim = x.shape[ax]
                idx = np.array([e % dim if e >= 0 else -(-e % dim) - (0 if -e % dim else dim) for e in ex], dtype=["int64", "int32"][q % 2])
                idx = idx.reshape(-1, 1) if q % 3 == 2 else idx[0] if q % 5 == 4 else idx
                if x.size * idx.size < 200:
                    ax2 = ax if r >= 0 else ax - x.ndim
                    step, new = ("gather", i, np.asarray(idx), ax2), [np.take(x, idx, axis=ax2)]
        elif op == "slice":
            if isinstance(ex, list):
                e = (ex * 6)[: 3 * max(1, x.ndim)]
                starts, ends, strides = [], [], []
                for d in range(x.ndim):
                    s, w, t = e[d], e[d + x.ndim] if d + x.ndim < len(e) else 1, 1 + abs(e[-1 - d]) % 2
                    en = (s + 1 + abs(w)) if s >= 0 else min(s + 1 + abs(w), 0)
                    if s < 0 and en == 0:
                        en = x.shape[d]
                    starts.append(s), ends.append(en), strides.append(t)
                sl = tuple(slice(a, b, c) for a, b, c in zip(starts, ends, strides))
                v = x[sl] if x.ndim else x
                if v.size and x.ndim:
                    step, new = ("slice", i, tuple(starts), tuple(ends), tuple(strides) if q % 2 else None), [v if q % 2 else x[tuple(slice(a, b) for a, b in zip(starts, ends))]]
        elif op == "jax":
            for off in range(len(NAMES)):
                name = NAMES[(abs(r) + off) % len(NAMES)]
                ar, ok, _, _ = JAX[name]
                xs = [x, y][:ar]
                if ok(*xs):
                    k = q % 5
                    c = np.asarray(k + 1)
                    v = _apply_np(name, xs, k, c)
                    new = _leaves(v)
                    step = ("jax", name, (i, j)[:ar], k)
                    if sum(a.size for a in new) > 200:
                        step = None
                    break
        elif op == "ew":
            fn = EWN[abs(r) % len(EWN)]
            cand = [k for k in range(n) if vals[k].dtype == x.dtype and (vals[k].shape == x.shape or vals[k].shape == ())]
            b = cand[q % len(cand)]
            if x.size <= 6:
                with np.errstate(all="ignore"):
                    v = EW[fn](daz(x), daz(vals[b])) if fn != "first" else x
                step, new = ("ew", fn, i, b), _leaves(v)
        elif op == "func":
            names = [m for m in NAMES if JAX[m][0] == 2 and JAX[m][1](x, y)]
            if names:
                name = names[abs(r) % len(names)]
                k = q % 5
                v1 = _apply_np(name, [x, y], k, np.asarray(k + 1))
                step, new = ("func", name, (i, j), k), _leaves(v1) + [x]
                if sum(a.size for a in new) > 200:
                    step = None
        if step is not None and new is not None:
            plan.append((*step, len(new)))
            vals.extend(np.asarray(v) for v in new)
    return plan, vals, out


def pick(out, vals):
    if isinstance(out, dict):
        return {k: pick(v, vals) for k, v in out.items()}
    if isinstance(out, (list, tuple)):
        return type(out)(pick(v, vals) for v in out)
    return vals[out % len(vals)]


# ---- the mplang function -------------------------------------------------------


def function(plan, out, all_values=False):
    import jax
    from mplang.dialects import func, tensor

    def leaves(v):
        return jax.tree_util.tree_leaves(v)

    def f(*ins):
        vals = list(ins)
        for s in plan:
            op, cnt = s[0], s[-1]
            if op == "const":
                new = [tensor.constant(s[1])]
            elif op == "transpose":
                new = [tensor.transpose(vals[s[1]], s[2])]
            elif op == "reshape":
                new = [tensor.reshape(vals[s[1]], s[2])]
            elif op == "concat":
                new = [tensor.concat([vals[k] for k in s[1]], axis=s[2])]
            elif op == "gather":
                new = [tensor.gather(vals[s[1]], tensor.constant(s[2]), axis=s[3])]
            elif op == "slice":
                new = [tensor.slice_tensor(vals[s[1]], s[2], s[3], s[4])]
            elif op == "jax":
                new = leaves(_jax_call(tensor.run_jax, s[1], [vals[k] for k in s[2]], s[3]))
            elif op == "ew":
                fn = EW[s[1]]
                new = leaves(tensor.elementwise(lambda a, b: tensor.run_jax(fn, a, b) if s[1] != "first" else a, vals[s[2]], vals[s[3]]))
            elif op == "func":
                h = func.func(lambda a, b: (_jax_call(tensor.run_jax, s[1], [a, b], s[3]), a), *[vals[k] for k in s[2]])
                new = leaves(func.call(h, *[vals[k] for k in s[2]]))
            else:
                raise AssertionError(op)
            assert len(new) == cnt, (s, len(new))
            vals.extend(new)
        return list(vals) if all_values else pick(out, vals)

    return f


def _jax_call(run_jax, name, xs, k):
    jf = JAX[name][2]
    c = np.asarray(k + 1)
    if name == "kw":
        return run_jax(lambda a, *, scale: jf([a], scale, None), xs[0], scale=k)
    if name == "addk":
        return run_jax(lambda a, kk: jf([a], kk, None), xs[0], k)
    if len(xs) == 2:
        return run_jax(lambda a, b: jf([a, b], k, c), *xs)
    return run_jax(lambda a: jf([a], k, c), *xs)


def has(plan, *ops):
    return any(s[0] in ops for s in plan)


def close(want, got, path="result"):
    """None if `got` (fetched structure) is `want` (numpy structure)."""
    if isinstance(want, dict):
        if not isinstance(got, dict) or set(got) != set(want):
            return f"{path}: {type(got).__name__} {got!r:.200} instead of a dict with {sorted(want)}"
        for k in want:
            r = close(want[k], got[k], f"{path}[{k!r}]")
            if r:
                return r
        return None
    if isinstance(want, (list, tuple)):
        if type(got) is not type(want) or len(got) != len(want):
            return f"{path}: {got!r:.200} instead of a {type(want).__name__} of {len(want)}"
        for i, (a, b) in enumerate(zip(want, got)):
            r = close(a, b, f"{path}[{i}]")
            if r:
                return r
        return None
    g = np.asarray(got)
    if g.dtype == object:
        return f"{path}: an object array {g!r:.200}"
    if g.shape != want.shape:
        return f"{path}: shape {g.shape} instead of {want.shape}"
    if g.dtype != want.dtype:
        return f"{path}: dtype {g.dtype} instead of {want.dtype}"
    if want.dtype.kind == "f":
        with np.errstate(all="ignore"):
            ok = np.allclose(g, want, rtol=1e-5 if want.dtype == np.float32 else 1e-12, atol=1e-30 if want.dtype == np.float32 else 1e-300, equal_nan=True)
    else:
        ok = np.array_equal(g, want)
    return None if ok else f"{path}: {g!r:.300} instead of {want!r:.300}"


def interesting(case, need=2):
    plan, vals, out = resolve(case)
    return len(plan) >= need


def _leaves_in_order(v):
    """Leaves as jax flattens them (dict keys sorted)."""
    if isinstance(v, dict):
        return [x for k in sorted(v) for x in _leaves_in_order(v[k])]
    if isinstance(v, (list, tuple)):
        return [x for u in v for x in _leaves_in_order(u)]
    return [v]


def resolve_like(plan, ins):
    """Values of an already concrete plan on other inputs of the same types."""
    vals = [np.asarray(a) for a in ins]
    for s in plan:
        op = s[0]
        with np.errstate(all="ignore"):
            if op == "const":
                new = [s[1]]
            elif op == "transpose":
                new = [np.transpose(vals[s[1]], s[2])]
            elif op == "reshape":
                new = [vals[s[1]].reshape(s[2])]
            elif op == "concat":
                new = [np.concatenate([vals[k] for k in s[1]], axis=s[2])]
            elif op == "gather":
                new = [np.take(vals[s[1]], s[2], axis=s[3])]
            elif op == "slice":
                st_ = s[4] or (1,) * len(s[2])
                new = [vals[s[1]][tuple(slice(a, b, c) for a, b, c in zip(s[2], s[3], st_))]]
            elif op == "jax":
                new = _leaves(_apply_np(s[1], [vals[k] for k in s[2]], s[3], np.asarray(s[3] + 1)))
            elif op == "ew":
                new = _leaves(EW[s[1]](daz(vals[s[2]]), daz(vals[s[3]])) if s[1] != "first" else vals[s[2]])
            elif op == "func":
                new = _leaves(_apply_np(s[1], [vals[k] for k in s[2]], s[3], np.asarray(s[3] + 1))) + [vals[s[2][0]]]
        vals.extend(np.asarray(v) for v in new)
    return plan, vals, None
