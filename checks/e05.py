"""E05: packed programs are the programs; altered artifacts are refused."""

from __future__ import annotations

import copy
import gzip
import io
import json
import os
import pickle
import shutil
import struct
import subprocess
import sys
import tarfile

import numpy as np
from hypothesis import strategies as st

from mplang.backends.tensor_impl import TensorValue
from mplang.dialects import dtypes, simp, tensor
from mplang.edsl import serde
from mplang.edsl import typing as elt
from mplang.edsl.program import compute_graph_digest
from mplang.edsl.tracer import trace
from mplang.runtime.interpreter import InterpObject, Interpreter
from mplang.tool import program as tool
from vf import prog
from vf.core import HarnessError, Sub, check, label
from vf.gen import arrays

PROPERTY = "E05"
ASSUMPTIONS = [
    "a digest that was removed from the artifact is not 'its own metadata'; name, creation time and version are not covered by any check value",
    "any exception counts as a refusal",
]

TOPS = [o for o in prog.OPS if o != "func"]

# ---- programs as plain data ------------------------------------------------------


def tensor_prog():
    return st.tuples(st.just("tensor"), prog.cases(TOPS, 6))


def party_prog():
    return st.tuples(st.just("party"), st.tuples(st.integers(1, 6), st.lists(arrays(["int64", "float32"], max_rank=2, max_side=2, min_side=1, allow_nan=False), min_size=1, max_size=2),
                                                 st.lists(st.tuples(st.sampled_from(["call", "call", "const", "shuffle", "cond", "loop"]), st.integers(0, 63), st.integers(0, 20), st.integers(0, 20), st.integers(0, 9)), min_size=1, max_size=5)))


def progs():
    return st.one_of(tensor_prog(), tensor_prog(), party_prog())


def subset(mask, n):
    s = [i for i in range(n) if mask >> i & 1]
    return tuple(s or [mask % n])


def party_fn(n, ins, sts, used):
    """The traced function and (in `used`) every party named by a call."""
    loc = lambda k: (lambda a: tensor.run_jax(lambda x: x * (k + 1) + k, a))
    world = tuple(range(n))

    def call(ps, fn, *xs):
        used.update(ps)
        return simp.pcall_static(ps, fn, *xs)

    def f(*xs):
        vals = list(xs)  # all over the whole world
        outs = []
        for kind, mask, i, j, k in sts:
            ps, x = subset(mask, n), vals[i % len(vals)]
            if kind == "call":
                r = call(ps, loc(k), x)
                (vals if ps == world else outs).append(r)
            elif kind == "const":
                r = call(ps, lambda: tensor.constant(np.full((2,), k)))
                outs.append(r)
            elif kind == "shuffle":
                outs.append(simp.shuffle_static(x, {t: (t + j) % n for t in ps}))
            elif kind == "cond":
                p = call(world, lambda a: tensor.run_jax(lambda v: v.reshape(-1)[0] > k, a), x)
                outs.append(simp.uniform_cond(p, lambda a: call(ps, loc(k), a), lambda a: call(ps, loc(k + 1), a), x))
            else:
                st0 = call(world, lambda a: tensor.run_jax(lambda v: v.reshape(-1)[0], a), x)
                vals.append(simp.while_loop(lambda c: call(world, lambda a: tensor.run_jax(lambda v: v < k, a), c), lambda c: call(world, lambda a: tensor.run_jax(lambda v: v + v.dtype.type(1), a), c), st0))
        return [*vals, *outs]

    return f


def make(spec):
    """-> (traced function, named parties)."""
    kind, c = spec
    used: set = set()
    if kind == "tensor":
        plan, vals, out = prog.resolve(c)
        f, objs = prog.function(plan, out), [InterpObject(TensorValue(a), _ty(a), None) for a in c[0]]
    else:
        n, ins, sts = c
        f = party_fn(n, ins, sts, used)
        objs = [InterpObject(None, elt.MPType(_ty(a), tuple(range(n))), None) for a in ins]
    return trace(f, *objs), used


def compiled(spec):
    """None when the program has no result (nothing to compile)."""
    t, used = make(spec)
    if not t.graph.outputs:
        return None, used
    return tool.compile_program(t, name="p"), used


def _ty(a):
    return elt.TensorType(dtypes.from_dtype(a.dtype), tuple(a.shape))


def walk(g):
    yield g
    for op in g.operations:
        for r in op.regions:
            yield from walk(r)


def canon(p):
    return json.dumps(serde.to_json(p.graph), sort_keys=True)


def what(p):
    return canon(p), p.signature, sorted(p.required_opcodes), p.graph_digest, p.required_world_size


# ---- packing ------------------------------------------------------------------


def run_pack(c):
    spec, comp, path = c
    p, used = compiled(spec)
    if p is None:
        return
    ops = {op.opcode for g in walk(p.graph) for op in g.operations}
    check(set(p.required_opcodes) == ops and len(p.required_opcodes) == len(ops), lambda: f"required operations {p.required_opcodes}, the program uses {sorted(ops)}")
    check(p.required_world_size == (max(used) + 1 if used else 0), lambda: f"world size {p.required_world_size} for parties {sorted(used)}")
    check((p.signature.input_arity, p.signature.output_arity) == (len(p.graph.inputs), len(p.graph.outputs)), "signature arity")
    if path:
        f = tool.pack_to_path(p, os.path.join(os.getcwd(), "prog.tar.gz"), compress=comp)
        q = tool.unpack_path(f)
    else:
        q = tool.unpack(tool.pack(p, compress=comp))
    check(what(q) == what(p), lambda: f"unpacked program differs: {what(p)!r:.600} -> {what(q)!r:.600}")
    check((q.name, q.created_at, q.mplang_version, q.schema_version) == (p.name, p.created_at, p.mplang_version, p.schema_version), "metadata changed")
    check(compute_graph_digest(q.graph) == q.graph_digest, "digest does not describe the unpacked graph")
    check(what(tool.unpack(tool.pack(q))) == what(p), "packed twice differs")
    rep = tool.inspect_artifact(tool.pack(p, compress=comp))
    check((rep["graph_digest"], rep["required_world_size"], rep["required_opcodes"], rep["graph"]["inputs"], rep["graph"]["outputs"], rep["graph"]["ops"]) == (p.graph_digest, p.required_world_size, p.required_opcodes, len(p.graph.inputs), len(p.graph.outputs), len(p.graph.operations)), lambda: f"inspection report {rep}")
    # the same source traced again is the same program
    p2, _ = compiled(spec)
    check(p2.graph_digest == p.graph_digest, "the same program traced twice has two digests")
    if spec[0] == "tensor":
        plan, vals, out = prog.resolve(spec[1])
        got = Interpreter().evaluate_graph(q.graph, [TensorValue(a) for a in spec[1][0]])
        want = prog._leaves_in_order(prog.pick(out, vals))
        r = prog.close(want, [v.unwrap() for v in got])
        check(r is None, lambda: f"unpacked program run: {r}")
    label(spec[0])


# ---- what can be compiled -----------------------------------------------------------


def signatures():
    leaf = st.one_of(st.tuples(st.just("obj"), st.lists(st.integers(-9, 9), min_size=1, max_size=3)), st.tuples(st.just("imm"), st.integers(-3, 3)), st.tuples(st.just("again"), st.integers(0, 3)))
    tree = st.recursive(leaf, lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(st.sampled_from("zab"), x, max_size=3)), max_leaves=5)
    out = st.recursive(st.one_of(*[st.tuples(st.just("lin"), st.integers(0, 9), st.integers(0, 9), st.integers(-3, 3))] * 6, st.tuples(st.just("arg"), st.integers(0, 9)), st.tuples(st.just("imm"), st.integers(0, 3)), st.tuples(st.just("cap"), st.integers(0, 3))),
                       lambda x: st.one_of(st.lists(x, min_size=1, max_size=3), st.dictionaries(st.sampled_from("zab"), x, min_size=1, max_size=3)), max_leaves=4)
    return st.tuples(st.lists(tree, max_size=3), st.dictionaries(st.sampled_from(["q", "k", "m"]), tree, max_size=2), out, st.sampled_from(["direct", "traced", "packed"]), st.sampled_from([None, None, None, "few", "many", "kw", "type", "shape"]))


def run_signature(c):
    import jax

    import mplang as mp

    pos, kw, out, how, wrong = c
    vec = lambda v: InterpObject(TensorValue(np.array(v)), elt.TensorType(elt.i64, (len(v),)), None)
    made, flat = [], []

    def build(t):
        if isinstance(t, tuple):
            if t[0] == "imm":
                return t[1]
            if t[0] == "again" and made:
                o = made[t[1] % len(made)]
            else:
                o = (vec(t[1] if t[0] == "obj" else [t[1]]), np.array(t[1] if t[0] == "obj" else [t[1]]))
                made.append(o)
            return o[0]
        return [build(x) for x in t] if isinstance(t, list) else {k: build(x) for k, x in t.items()}

    a, k = [build(t) for t in pos], {n: build(t) for n, t in kw.items()}
    isobj = lambda x: hasattr(x, "type")
    leaves = [x for x in jax.tree_util.tree_leaves((tuple(a), k), is_leaf=isobj) if isobj(x)]
    flat = [next(v for o, v in made if o is x) for x in leaves]
    caps = [vec([i, i + 1]) for i in range(4)]
    imms = any(isinstance(x, int) for x in jax.tree_util.tree_leaves((tuple(a), k), is_leaf=isobj))
    want, refuse = [], set()

    def value(t, xs):
        """(the result, given the argument leaves)"""
        if isinstance(t, tuple):
            if t[0] == "imm":
                refuse.add("constant")
                return t[1]
            if t[0] == "cap":
                refuse.add("captured")
                return tensor.run_jax(lambda v: v + 1, caps[t[1]])
            if not xs:
                want.append(np.array([t[1]]))
                return tensor.constant(np.array([t[1]]))
            x, v = xs[t[1] % len(xs)], flat[t[1] % len(xs)]
            if t[0] == "arg":
                want.append(v)
                return x
            y, w = xs[t[2] % len(xs)], flat[t[2] % len(xs)]
            want.append(v * t[3] + w.sum())
            return tensor.run_jax(lambda p, q: p * t[3] + q.sum(), x, y)
        return [value(x, xs) for x in t] if isinstance(t, list) else {n: value(t[n], xs) for n in sorted(t)}

    def fn(*args, **kwargs):
        want.clear()
        refuse.clear()
        return value(out, [x for x in jax.tree_util.tree_leaves((args, kwargs), is_leaf=isobj) if isobj(x)])

    try:
        p = tool.compile_program(trace(fn, *a, **k) if how == "traced" else fn, *(() if how == "traced" else a), **({} if how == "traced" else k))
    except ValueError as e:
        again = len({id(x) for x in leaves}) < len(leaves)
        check(refuse or again, lambda: f"a flat program is refused: {e}")
        label("refused: " + ", ".join(sorted(refuse) or ["one object twice"]))
        return
    check(not refuse, lambda: f"a program with a {' and a '.join(sorted(refuse))} value was compiled")
    if how == "packed":
        p = tool.unpack(tool.pack(p))
    args = [vec(v.tolist()) for v in flat]
    it = Interpreter()
    if wrong and (args or wrong in ("many", "kw")):
        bad, kws = list(args), {}
        if wrong == "few":
            bad.pop()
        elif wrong == "many":
            bad.append(vec([1]))
        elif wrong == "kw":
            kws = {"q": vec([1])}
        elif wrong == "type":
            bad[0] = InterpObject(TensorValue(np.array(flat[0], np.float32)), elt.TensorType(elt.f32, flat[0].shape), None)
        else:
            bad[-1] = vec([*flat[-1].tolist(), 1])
        try:
            mp.evaluate(p, *bad, context=it, **kws)
        except (TypeError, ValueError):
            label(f"refused inputs: {wrong}")
        else:
            check(False, f"inputs that do not fit ({wrong}) were accepted")
    got = mp.evaluate(p, *args, context=it)
    check(isinstance(got, list) and len(got) == len(want), lambda: f"{len(got)} results instead of {len(want)}")
    for g, w in zip(got, want):
        x = np.asarray(g.runtime_obj.unwrap())
        check(x.dtype == w.dtype and x.shape == w.shape and np.array_equal(x, w), lambda: f"result {x} instead of {w} of {pos} {kw} -> {out}")
    label("immediates" if imms else "run")


# ---- digests across processes -----------------------------------------------------

_child = None


def child():
    global _child
    if _child is None or _child.poll() is not None:
        import mplang

        here = os.path.join(os.getcwd(), "elsewhere")  # the same sources installed at another path
        if not os.path.isdir(here):
            shutil.copytree(os.path.dirname(mplang.__file__), os.path.join(here, "mplang"), ignore=shutil.ignore_patterns("__pycache__"))
        env = dict(os.environ, PYTHONPATH=here + os.pathsep + os.environ.get("PYTHONPATH", ""), PYTHONHASHSEED=str(int.from_bytes(os.urandom(2), "big")), VF_E05_CHILD="1")
        _child = subprocess.Popen([sys.executable, "-c", "import sys; from checks import e05; e05.serve()"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
    return _child


def serve():
    import jax

    jax.config.update("jax_enable_x64", True)
    import mplang.backends

    mplang.backends.load_builtins()
    assert "elsewhere" in mplang.__file__
    fin, fout = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    # other programs first, so that nothing depends on being first in the process
    for i in range(3):
        trace(lambda x: tensor.run_jax(lambda v: v + i, x), InterpObject(None, elt.TensorType(elt.f32, (i + 1,)), None))
    while True:
        h = fin.read(8)
        if len(h) < 8:
            os._exit(0)
        spec = pickle.loads(fin.read(struct.unpack("<q", h)[0]))
        try:
            p, _ = compiled(spec)
            r = ("ok", p and what(p))
        except Exception as e:
            r = ("err", repr(e))
        b = pickle.dumps(r)
        fout.write(struct.pack("<q", len(b)) + b)
        fout.flush()


def ask(spec):
    c = child()
    b = pickle.dumps(spec)
    c.stdin.write(struct.pack("<q", len(b)) + b)
    c.stdin.flush()
    h = c.stdout.read(8)
    if len(h) < 8:
        raise HarnessError("helper process died")
    return pickle.loads(c.stdout.read(struct.unpack("<q", h)[0]))


def run_process(spec):
    p, _ = compiled(spec)
    st_, w = ask(spec)
    check(st_ == "ok", lambda: f"fails in another process: {w}")
    if p is None:
        check(w is None)
        return
    a, b = what(p), w
    check(a[3] == b[3], lambda: f"digest {a[3][:12]} here and {b[3][:12]} in another process; graphs\n{_diff(a[0], b[0])}")
    check(a == b, "program metadata differs between processes")
    label(spec[0])


def _diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"...{a[max(0, i - 80): i + 80]}\n...{b[max(0, i - 80): i + 80]}"


# ---- programs that differ -----------------------------------------------------------


def different():
    return st.tuples(progs(), st.integers(0, 1000), st.integers(0, 1000))


def mutate(spec, a, b):
    """A program that differs in one place, or None."""
    kind, c = spec
    if kind == "party":
        n, ins, sts = c
        ways = ["world", "k", "kind", "drop", "ps", "in"]
        w = ways[a % len(ways)]
        i = b % len(sts)
        op, mask, x, j, k = sts[i]
        if w == "world":
            return kind, (n + 1, ins, [(o, subset_mask(m, n), x_, j_, k_) for o, m, x_, j_, k_ in sts]), True
        if w == "k" and op not in ("shuffle",):
            return kind, (n, ins, [*sts[:i], (op, mask, x, j, k + 1), *sts[i + 1:]]), True
        if w == "drop" and len(sts) > 1 and sts[-1][0] != "call":
            return kind, (n, ins, sts[:-1]), True
        if w == "ps" and op in ("call", "const", "cond", "shuffle") and n > 1:
            m2 = (mask + 1 + b % 7) % 64
            if subset(m2, n) != subset(mask, n):
                return kind, (n, ins, [*sts[:i], (op, m2, x, j, k), *sts[i + 1:]]), True
        if w == "in":
            return kind, (n, [ins[0].astype("int32" if ins[0].dtype != np.int32 else "int64"), *ins[1:]], sts), True
        return None
    ins, sts, out = c
    plan, vals, _ = prog.resolve(c)
    if a % 3 == 0:
        x = ins[b % len(ins)]
        y = x[..., None]
        ins2 = [*ins]
        ins2[b % len(ins)] = y
        return kind, (ins2, sts, out), True
    if a % 3 == 1 and isinstance(out, list) and len(out) > 1 and all(isinstance(i, int) for i in out):
        o2 = [*out[1:], out[0]]
        # (equal constants may be one value)
        if any(vals[i % len(vals)].dtype != vals[j % len(vals)].dtype or not np.array_equal(vals[i % len(vals)], vals[j % len(vals)]) for i, j in zip(o2, out)):
            return kind, (ins, sts, o2), True
        return None
    i = b % len(sts)
    op, p, q, r, ex = sts[i]
    if op == "const" and isinstance(ex, np.ndarray) and ex.size and ex.dtype.kind in "iu":
        e2 = ex.copy()
        e2.flat[b % ex.size] ^= 1
        return kind, (ins, [*sts[:i], (op, p, q, r, e2), *sts[i + 1:]], out), True
    new = (op, p, q, r + 1, ex)
    c2 = (ins, [*sts[:i], new, *sts[i + 1:]], out)
    plan2, vals2, _ = prog.resolve(c2)
    # only a difference that reaches a result is certainly another program
    w1, w2 = prog._leaves_in_order(prog.pick(out, vals)), prog._leaves_in_order(prog.pick(out, vals2))
    if len(w1) != len(w2) or any(x.dtype != y.dtype or x.shape != y.shape or not np.array_equal(x, y, equal_nan=x.dtype.kind == "f") for x, y in zip(w1, w2)):
        return kind, c2, True
    return None


def subset_mask(m, n):
    return sum(1 << i for i in subset(m, n))


def run_different(c):
    spec, a, b = c
    m = mutate(spec, a, b)
    if m is None:
        return
    p, _ = compiled(spec)
    q, _ = compiled(m[:2])
    if p is None or q is None:
        return
    check(p.graph_digest != q.graph_digest, lambda: f"two programs, one digest {p.graph_digest[:12]}:\n{p.graph}\n--\n{q.graph}")
    # the digest of one is refused for the other
    bad = copy.copy(p)
    bad.graph_digest = q.graph_digest
    refused(tool.pack(bad), None, "digest of another program")
    bad = copy.copy(p)
    bad.graph = q.graph
    refused(tool.pack(bad), None, "graph of another program")
    label(spec[0])


# ---- altered artifacts ----------------------------------------------------------------


def refused(data, same_as, how):
    try:
        q = tool.unpack(data)
    except Exception:
        return True
    if same_as is not None and what(q) == same_as:
        return False
    check(False, lambda: f"{how}: accepted")


def repack(j, compress):
    b = json.dumps(j).encode()
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w:gz" if compress else "w") as tf:
        info = tarfile.TarInfo("artifact.json")
        info.size = len(b)
        tf.addfile(info, io.BytesIO(b))
    return buf.getvalue()


def payload(data):
    with tarfile.open(fileobj=io.BytesIO(data)) as tf:
        return json.loads(tf.extractfile("artifact.json").read())


def tampers():
    return st.tuples(progs(), st.lists(st.tuples(st.sampled_from(["leaf", "leaf", "leaf", "leaf", "drop", "swap", "opcodes", "opcode+", "arity", "world", "digest", "schema", "kind", "missing", "dupop"]), st.integers(0, 10**6), st.integers(0, 10**6)), min_size=3, max_size=8), st.booleans())


def nodes(j, path=()):
    if isinstance(j, dict):
        for k in sorted(j):
            yield from nodes(j[k], (*path, k))
    elif isinstance(j, list):
        for i, v in enumerate(j):
            yield from nodes(v, (*path, i))
    else:
        yield path, j


def body(j):
    """The artifact's own fields, wherever serde put them."""
    while "graph" not in j:
        j = next(v for v in j.values() if isinstance(v, dict))
    return j


def set_at(j, path, v):
    for k in path[:-1]:
        j = j[k]
    j[path[-1]] = v


def alter(v, b):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1 + b % 3
    if isinstance(v, float):
        return v + 1.0
    if isinstance(v, str):
        if not v:
            return "x"
        i = b % len(v)
        ch = "A" if v[i] != "A" else "B"
        return v[:i] + ch + v[i + 1:]
    return "x"


def run_tamper(c):
    spec, edits, comp = c
    p, _ = compiled(spec)
    if p is None:
        return
    base = payload(tool.pack(p))
    ok = what(p)
    for kind, a, b in edits:
        j = copy.deepcopy(base)
        d = body(j)
        same = None
        if kind == "leaf":
            leaves = [x for x in nodes(d["graph"])]
            path, v = leaves[a % len(leaves)]
            set_at(d["graph"], path, alter(v, b))
            same, how = ok, f"graph field {path} {v!r:.60} -> {alter(v, b)!r:.60}"
        elif kind in ("drop", "swap", "dupop"):
            lists = []

            def find(x):
                if isinstance(x, dict):
                    for k, v in x.items():
                        if k in ("operations", "outputs", "inputs", "regions") and isinstance(v, list) and v:
                            lists.append((k, v))
                        find(v)
                elif isinstance(x, list):
                    for v in x:
                        find(v)

            find(d["graph"])
            if not lists:
                continue
            k, li = lists[a % len(lists)]
            i = b % len(li)
            if kind == "drop":
                del li[i]
            elif kind == "dupop":
                li.append(copy.deepcopy(li[i]))
            else:
                li[i], li[0] = li[0], li[i]
            if payload_same(j, base):
                continue
            how = f"{kind} in {k}"
        elif kind == "opcodes":
            d["required_opcodes"] = d["required_opcodes"][1:] if d["required_opcodes"] else ["x.y"]
            how = "an operation missing from required_opcodes"
        elif kind == "opcode+":
            d["required_opcodes"] = [*d["required_opcodes"], ["x.y", *d["required_opcodes"]][a % (1 + len(d["required_opcodes"]))]]
            how = "an operation too many in required_opcodes"
        elif kind == "arity":
            f = ["input_arity", "output_arity"][a % 2]
            d["signature"][f] += [1, -1, 5][b % 3]
            how = f"{f} changed"
        elif kind == "world":
            d["required_world_size"] += [1, -1, 7][b % 3]
            how = "world size changed"
        elif kind == "digest":
            g = d["graph_digest"]
            i = b % len(g)
            d["graph_digest"] = g[:i] + ("0" if g[i] != "0" else "1") + g[i + 1:]
            how = "digest changed"
        elif kind == "schema":
            d["schema_version"] = [0, 2, -1, 10][b % 4]
            how = "schema version"
        elif kind == "kind":
            d["signature"]["kind"] = ["", "flat_list_v1", "FLAT_LIST_V0"][b % 3]
            how = "signature kind"
        else:
            f = ["graph", "signature", "graph_digest", "schema_version"][b % 4]
            del d[f]
            how = f"{f} missing"
        r = refused(repack(j, comp), same, how)
        label(kind if r else "harmless")


def payload_same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


# ---- damaged containers -----------------------------------------------------------------


def damages():
    f = st.floats(0, 1, exclude_max=True)
    return st.tuples(progs(), st.booleans(), st.lists(st.tuples(st.sampled_from(["flip", "flip", "cut", "zero", "member"]), f, st.integers(1, 255)), min_size=2, max_size=10))


def run_damage(c):
    spec, comp, edits = c
    p, _ = compiled(spec)
    if p is None:
        return
    data = tool.pack(p, compress=comp)
    ok = what(p)
    for kind, f, x in edits:
        i = int(f * len(data))
        b = bytearray(data)
        if kind == "flip":
            b[i] ^= x
        elif kind == "cut":
            del b[i:]
        elif kind == "zero":
            b[i: i + x] = bytes(len(b[i: i + x]))
        else:
            buf = io.BytesIO()
            with tarfile.open(fileobj=buf, mode="w") as tf:
                info = tarfile.TarInfo(["artifact.txt", "artifact.json", "./artifact.json"][x % 3])
                info.type = [tarfile.REGTYPE, tarfile.SYMTYPE, tarfile.DIRTYPE][i % 3]
                info.linkname = "/etc/hostname"
                tf.addfile(info, io.BytesIO(b""))
            b = buf.getvalue()
        r = refused(bytes(b), None if kind == "member" else ok, f"{kind} at {i}")
        label(f"{kind} {'refused' if r else 'harmless'}")


def busy(spec):
    return len(spec[1][2]) >= 2 if spec[0] == "party" else prog.interesting(spec[1])


SUBS = [
    Sub("pack", lambda: st.tuples(progs(), st.booleans(), st.booleans()), run_pack, "tensor programs and party programs (calls on party subsets, routing, conditionals, loops), packed compressed or not, in memory or on disk; non-trivial = at least two operations", lambda c: busy(c[0]), quick=150, thorough=3000, shards_quick=3, shards_thorough=8),
    Sub("signature", signatures, run_signature, "functions of nested arguments, immediates, repeated and captured objects: compiled and run on flat inputs they compute the function, in order; captured objects, constant results and inputs that do not fit are refused; non-trivial = two arguments or more", lambda c: len(c[0]) + len(c[1]) > 1, quick=200, thorough=4000, shards_quick=2),
    Sub("process", progs, run_process, "the same programs compiled here and in a helper process with another hash seed, history and install path", busy, quick=120, thorough=2500, shards_quick=2, shards_thorough=4),
    Sub("different", different, run_different, "pairs of programs with one difference (constant, parameter, input type, output order, party set, dropped result)", lambda c: mutate(*c) is not None, quick=150, thorough=3000, shards_quick=2, shards_thorough=6),
    Sub("tamper", tampers, run_tamper, "single-field alterations of the artifact's JSON: any graph field, operation lists, opcodes, arities, world size, digest, schema", lambda c: busy(c[0]), quick=120, thorough=3000, shards_quick=2, shards_thorough=6),
    Sub("damage", damages, run_damage, "changed, cut or zeroed bytes of the archive, and archives with another member", lambda c: busy(c[0]), quick=120, thorough=3000, shards_quick=2, shards_thorough=6),
]
KNOWN = []
