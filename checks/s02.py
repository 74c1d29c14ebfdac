"""S02: malformed wire data is refused."""

from __future__ import annotations

import copy
import json
import struct
import sys

from hypothesis import strategies as st

from mplang.edsl import serde
from vf.core import Sub, check, label
from vf.gen import same

from . import s01

PROPERTY = "S02"
ASSUMPTIONS = [
    "only truncation, gzip-covered corruption, wrong kinds, and payloads that cannot fill their shape are promised to be noticed; the uncompressed containers carry no checksum",
    "any exception counts as a rejection",
]

READERS = {
    "dumps": (lambda o: serde.dumps(o), lambda b: serde.loads(b)),
    "dumps-raw": (lambda o: serde.dumps(o, compress=False), lambda b: serde.loads(b, compressed=False)),
    "b64": (lambda o: serde.dumps_b64(o).encode(), lambda b: serde.loads_b64(b.decode())),
    "b64-raw": (lambda o: serde.dumps_b64(o, compress=False).encode(), lambda b: serde.loads_b64(b.decode(), compressed=False)),
    "binary": (lambda o: serde.dumps_binary(o), lambda b: serde.loads_binary(b)),
}

# ---- nothing is executed or imported while reading -----------------------------

_watch: list | None = None
BAD_EVENTS = {"pickle.find_class", "marshal.loads", "subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "socket.connect", "os.remove", "os.rename", "os.mkdir", "ctypes.dlopen"}
HOSTILE = ["os", "antigravity", "this", "vf_hostile_module"]


def _hook(ev, args):
    if _watch is None:
        return
    if ev in BAD_EVENTS or (ev == "import" and str(args[0]).split(".")[0] in HOSTILE) or (ev == "open" and len(args) > 1 and isinstance(args[1], str) and set(args[1]) & set("wax+")):
        _watch.append((ev, repr(args)[:200]))


_installed = False


def guarded(f, *a):
    """f(*a) with its exception returned, failing if reading did anything but build values."""
    global _watch, _installed
    if not _installed:
        sys.addaudithook(_hook)
        _installed = True
    _watch = []
    try:
        try:
            return f(*a), None
        except Exception as e:
            return None, e
        finally:
            seen, _watch = _watch, None
    finally:
        check(not seen, lambda: f"reading data caused {seen}")


# ---- truncation ----------------------------------------------------------------


def trunc():
    return st.tuples(s01.tree(), st.sampled_from(sorted(READERS)), st.lists(st.floats(0, 1, exclude_max=True), min_size=1, max_size=8), st.lists(st.integers(1, 9), max_size=4))


def run_trunc(case):
    spec, fmt, fracs, tail = case
    w, r = READERS[fmt]
    blob = w(s01.build(spec))
    cuts = {int(f * len(blob)) for f in fracs} | {len(blob) - t for t in tail if t <= len(blob)} | {0}
    for c in sorted(cuts):
        v, e = guarded(r, blob[:c])
        check(e is not None, lambda: f"{fmt}: {c} of {len(blob)} bytes were read as {v!r:.200}")
    label(fmt)


# ---- corrupted compressed data ---------------------------------------------------


def flips():
    return st.tuples(s01.tree(), st.booleans(), st.lists(st.tuples(st.floats(0, 1, exclude_max=True), st.integers(1, 255)), min_size=1, max_size=6))


def run_flips(case):
    spec, b64, edits = case
    import base64

    obj = s01.build(spec)
    blob = serde.dumps(obj)
    want = s01.expect(s01.build(spec))
    for f, x in edits:
        i = int(f * len(blob))
        bad = bytearray(blob)
        bad[i] ^= x
        v, e = guarded(serde.loads_b64, base64.b64encode(bytes(bad)).decode()) if b64 else guarded(serde.loads, bytes(bad))
        if e is None:
            r = same(want, v)
            check(r is None, lambda: f"byte {i} changed and read as another value: {r}")
            label("harmless")
        else:
            label("rejected")


# ---- wrong kinds and payloads -----------------------------------------------------


def kinds():
    bad = st.one_of(st.none(), st.sampled_from(["", "object", "numpy.ndarray", "os.system", "_Int", "_ndarray_bre", "builtins.eval", "this", "mplang.Tensor", "antigravity", "_dict "]), st.text(max_size=8))
    return st.tuples(s01.tree(), st.integers(0, 1000), bad, st.booleans())


def nodes(j, out=None):
    out = [] if out is None else out
    if isinstance(j, dict):
        if isinstance(j.get("_kind"), str):
            out.append(j)
        for v in j.values():
            nodes(v, out)
    elif isinstance(j, list):
        for v in j:
            nodes(v, out)
    return out


BUILTIN = {"_null", "_bool", "_int", "_float", "_str", "_list", "_tuple", "_dict", "_dict_pairs", "_bytes", "_ndarray", "_ndarray_object", "_pa_table", "_bytes_bref", "_ndarray_bref", "_pa_table_bref"}


def run_kinds(case):
    spec, pick, bad, drop = case
    if bad is not None and (bad in BUILTIN or bad in serde.list_registered_kinds()):
        return
    j = json.loads(json.dumps(serde.to_json(s01.build(spec))))
    ns = nodes(j)
    n = ns[pick % len(ns)]
    if drop:
        del n["_kind"]
    else:
        n["_kind"] = bad
    v, e = guarded(serde.from_json, copy.deepcopy(j))
    check(e is not None, lambda: f"unknown kind {bad!r} read as {v!r:.200}")
    raw = json.dumps(j).encode()
    for name, f in [("raw", lambda: serde.loads(raw, compressed=False)), ("binary", lambda: serde.loads_binary(struct.pack("<I", len(raw)) + raw))]:
        v, e = guarded(f)
        check(e is not None, lambda: f"{name}: unknown kind {bad!r} read as {v!r:.200}")
    label("drop" if drop else "replace")


def payloads():
    return st.tuples(s01.ndarrays(), st.sampled_from(["np", "tv"]), st.sampled_from(["json", "binary"]), st.sampled_from(["longer", "shorter", "shape", "seglen", "metalen", "segmissing"]), st.integers(1, 3))


def run_payloads(case):
    a, wrap, fmt, how, k = case
    import base64

    arr = a[1]
    obj = s01.build(a) if wrap == "np" else s01.build(("tv", a))
    if fmt == "json":
        j = json.loads(json.dumps(serde.to_json(obj)))
        raw = base64.b64decode(j["data"])
        if how == "longer":
            raw += b"\x00" * (k * arr.dtype.itemsize)
        elif how == "shorter":
            if len(raw) == 0:
                return
            raw = raw[:-k] if k < len(raw) else raw[:-1]
        elif how == "shape":
            j["shape"] = [*j["shape"], k + 1]
            if arr.size == 0:
                return
        else:
            return
        j["data"] = base64.b64encode(raw).decode()
        v, e = guarded(serde.from_json, j)
    else:
        blob = serde.dumps_binary(obj)
        (m,) = struct.unpack_from("<I", blob)
        meta, seg = json.loads(blob[4 : 4 + m]), blob[4 + m + 4 :]
        n = len(seg)
        if how == "longer":
            seg += b"\x00" * (k * arr.dtype.itemsize)
            n = len(seg)
        elif how == "shorter":
            if not seg:
                return
            seg = seg[:-k] if k < len(seg) else seg[:-1]
            n = len(seg)
        elif how == "shape":
            if arr.size == 0:
                return
            meta["shape"] = [*meta["shape"], k + 1]
        elif how == "seglen":
            n += k
        mb = json.dumps(meta).encode()
        ml = len(mb) + (len(seg) + 4 + k if how == "metalen" else 0)
        bad = struct.pack("<I", ml) + mb + (b"" if how == "segmissing" else struct.pack("<I", n) + seg)
        v, e = guarded(serde.loads_binary, bad)
    check(e is not None, lambda: f"{how} {fmt} read as {v!r:.200}")
    label(f"{fmt}-{how}")


# ---- arbitrary data ----------------------------------------------------------------


def junk():
    from mplang.backends import load_builtins

    load_builtins()
    ks = sorted(BUILTIN) + sorted(serde.list_registered_kinds())
    leaf = st.one_of(st.none(), st.booleans(), st.integers(-3, 40), st.floats(), st.text(max_size=5), st.sampled_from(["AAAA", "gASVHAAAAAAAAACMBXBvc2l4lIwGc3lzdGVtlJOUjARleGl0lIWUUpQu", "object", "float64", "<i4", "numeric", "O", *HOSTILE]))
    key = st.sampled_from(["v", "items", "data", "shape", "dtype", "pairs", "bref", "kind", "schema", "element_type", "graph", "operations", "values", "type", "x"])

    def grow(c):
        return st.one_of(st.lists(c, max_size=4), st.dictionaries(key, c, max_size=4),
                         st.tuples(st.sampled_from(ks), st.dictionaries(key, c, max_size=5)).map(lambda p: {"_kind": p[0], **p[1]}))

    tree = st.recursive(leaf, grow, max_leaves=12)
    return st.one_of(
        st.tuples(st.just("json"), st.tuples(st.sampled_from(ks), st.dictionaries(key, tree, max_size=6)).map(lambda p: {"_kind": p[0], **p[1]}), st.lists(st.binary(max_size=9), max_size=3)),
        st.tuples(st.just("bytes"), st.binary(max_size=60), st.just(None)),
    )


def run_junk(case):
    mode, j, segs = case
    if mode == "bytes":
        outs = [guarded(serde.loads, j), guarded(serde.loads, j, ), guarded(lambda b: serde.loads(b, compressed=False), j), guarded(serde.loads_binary, j)]
    else:
        raw = json.dumps(j).encode()
        blob = struct.pack("<I", len(raw)) + raw + b"".join(struct.pack("<I", len(s)) + s for s in segs)
        outs = [guarded(serde.from_json, copy.deepcopy(j)), guarded(lambda b: serde.loads(b, compressed=False), raw), guarded(serde.loads_binary, blob)]
    for v, e in outs:
        label("rejected" if e is not None else f"value:{type(v).__name__}")


SUBS = [
    Sub("truncation", trunc, run_trunc, "every generated value cut at several proper prefixes of each encoding; non-trivial = nested or array valued", lambda c: s01.nt_tree(c[0]), quick=500, thorough=12000, shards_quick=2, shards_thorough=6),
    Sub("corruption", flips, run_flips, "one byte of a compressed blob changed", lambda c: s01.nt_tree(c[0]), quick=400, thorough=10000, shards_thorough=4),
    Sub("kinds", kinds, run_kinds, "one tag anywhere in the tree removed or replaced by an unknown one", lambda c: s01.nt_tree(c[0]), quick=500, thorough=10000, shards_thorough=4),
    Sub("payloads", payloads, run_payloads, "array payload, shape or segment table inconsistent by a few bytes or elements", lambda c: c[0][1].size > 0, quick=500, thorough=8000, shards_thorough=2),
    Sub("junk", junk, run_junk, "random JSON trees over the known tags and random bytes: no code runs, nothing is imported or written while reading", lambda c: c[0] == "json", quick=1500, thorough=40000, shards_thorough=6),
]
KNOWN = []
