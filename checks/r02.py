"""R02: the object store behaves like a dictionary, in memory and on the file system."""

from __future__ import annotations

import dataclasses
import itertools
import os
import pickle
import posixpath
import shutil
import tempfile
import threading

import numpy as np
from hypothesis import strategies as st

import mplang as mp
from mplang.backends.tensor_impl import TensorValue
from mplang.runtime.object_store import FileSystemBackend, MemoryBackend, ObjectStore
from vf.core import Sub, check, label

PROPERTY = "R02"
ASSUMPTIONS = ["two keys that differ only in redundant slashes and dot segments are the same key (keys are documented to be sanitised)",
               "a name cannot be a key and a directory of other keys at once on a file system: such a write may be refused, changing nothing",
               "in memory, values are not modified after they were stored"]
_n = itertools.count()

WORDS = ["a", "b", "ab", "A", "ckpt", "a.b", "x y", "é", "名前", "%41", "a%2Fb", "~", "-", "con", "a\\b", "'", "*", "#?", "..a", "a..", "...", "0", "key=1", "a:b", "\n", ".hidden"]


@st.composite
def keys(draw):
    parts = draw(st.lists(st.sampled_from(WORDS + ["a", "b", "a"]), min_size=1, max_size=3))
    return "/".join(parts)


def spell(key, how):
    return {0: key, 1: "/" + key, 2: "./" + key, 3: key.replace("/", "//"), 4: "zz/../" + key, 5: "//./" + key}[how]


def norm(key):
    return posixpath.normpath(key.lstrip("/"))


VALUES = {
    "none": lambda s: None, "int": lambda s: s * 7, "str": lambda s: f"v{s}", "bytes": lambda s: bytes([s % 256]) * (s % 50),
    "big": lambda s: bytes(range(256)) * (400 + s % 7), "list": lambda s: [s, [s + 1, None], {"k": (s,)}],
    "array": lambda s: np.arange(s % 12, dtype=[np.int64, np.float32, np.uint8][s % 3]) + 1,
    "tensor": lambda s: TensorValue(np.full((2, 3), s, np.int32)), "bool": lambda s: bool(s % 2), "nan": lambda s: float("nan"),
}


def eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, TensorValue):
        return eq(a.unwrap(), b.unwrap())
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b)
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(eq, a, b))
    return a == b


def spoil(v):
    """Changes a value in place, as far as it can be."""
    if isinstance(v, TensorValue):
        v = v.unwrap()
    if isinstance(v, np.ndarray) and v.flags.writeable:
        v += 1
    elif isinstance(v, list):
        v[1].append(0)
        v[2]["x"] = v
        v[0] = "spoilt"


@st.composite
def histories(draw):
    pool = draw(st.lists(keys(), min_size=2, max_size=5, unique=True))
    k = st.integers(0, len(pool) - 1)
    sp = st.sampled_from([0, 0, 0, 0, 1, 2, 3, 4, 5])
    val = st.tuples(st.sampled_from(sorted(VALUES)), st.integers(0, 999))
    how = st.sampled_from(["fs", "fs", "fs", "bare", "mem"])
    op = st.one_of(
        st.tuples(st.just("put"), k, sp, how, val), st.tuples(st.just("put"), k, sp, how, val), st.tuples(st.just("put"), k, sp, how, val),
        st.tuples(st.just("get"), k, sp, how), st.tuples(st.just("delete"), k, sp, how), st.tuples(st.just("exists"), k, sp, how),
        st.tuples(st.just("auto"), val), st.just(("list",)), st.just(("reopen",)),
        st.tuples(st.just("putbad"), k),
        st.tuples(st.just("download"), k, sp, st.integers(0, 2)), st.tuples(st.just("download"), k, sp, st.integers(0, 2)),
        st.tuples(st.just("upload"), k, sp, st.integers(0, 2)), st.tuples(st.just("upload"), k, sp, st.integers(0, 2)),
        st.tuples(st.just("file"), st.integers(0, 2), val), st.tuples(st.just("rmfile"), st.integers(0, 2)),
    )
    ops = []
    for o in draw(st.lists(st.one_of(op, op, op, st.tuples(st.just("copy"), k, k, st.integers(0, 2))), min_size=3, max_size=22)):
        # a copy of one key to another by way of a file
        ops += [("download", o[1], 0, o[3]), ("upload", o[2], 0, o[3])] if o[0] == "copy" else [o]
    return pool, ops, draw(st.booleans())


class Bad:
    def __reduce__(self):
        raise ValueError("cannot be stored")


def run_history(c):
    pool, ops, rel = c
    base = tempfile.mkdtemp(dir=os.getcwd())
    root, files = os.path.join(base, "store"), os.path.join(base, "files")
    os.makedirs(files)
    store = ObjectStore(FileSystemBackend(os.path.relpath(root) if rel else root))
    fs, mem, dirs = {}, {}, set()  # contents of the two layers; every directory ever needed on disk
    local = {}  # scratch files: value, held as pickle

    def parents(key):
        p = key
        while "/" in p:
            p = p.rsplit("/", 1)[0]
            yield p

    def conflict(key):
        return key in dirs or any(p in fs for p in parents(key))

    def fpath(i):
        return os.path.join(files, f"f{i}")

    def expect_file(i, how):
        p = fpath(i)
        if i in local:
            check(os.path.isfile(p), f"{how}: no file")
            with open(p, "rb") as f:
                check(eq(pickle.load(f), local[i]), f"{how}: other content")
        else:
            check(not os.path.exists(p), f"{how}: a file is there")

    def uri(key, sp, how):
        return ("mem://" if how == "mem" else "fs://") + (key if how == "mem" else spell(key, sp))

    def everything(when):
        for k in pool:
            for how, model in (("fs", fs), ("mem", mem)):
                u = uri(k, 0, how)
                mk = k if how == "mem" else norm(k)
                check(store.exists(u) is (mk in model), lambda: f"{when}: exists({u!r}) = {store.exists(u)}")
                if mk in model:
                    got = store.get(u)
                    check(eq(got, model[mk]), lambda: f"{when}: {u!r} holds {got!r} instead of {model[mk]!r}")
                    if how == "fs":
                        spoil(got)  # what the caller does with its copy is nothing to the store
                else:
                    try:
                        got = store.get(u)
                    except KeyError:
                        pass
                    else:
                        check(False, lambda: f"{when}: {u!r} was never written or was deleted, yet holds {got!r}")
        listed = store.list_keys()
        want = sorted(["fs://" + k for k in fs] + ["mem://" + k for k in mem])
        check(sorted(listed) == want, lambda: f"{when}: keys {sorted(listed)} instead of {want}")
        for i in list(local):
            expect_file(i, f"{when}: file {i}")

    try:
        for n, op in enumerate(ops):
            when = f"after {ops[: n + 1]} on {pool}"
            kind = op[0]
            if kind in ("put", "get", "delete", "exists"):
                key, sp, how = pool[op[1]], op[2], op[3]
                model = mem if how == "mem" else fs
                mk = key if how == "mem" else norm(key)
                u = uri(key, sp, how)
            if kind == "put":
                v = VALUES[op[4][0]](op[4][1])
                target = spell(key, sp) if how == "bare" else u
                if how != "mem" and conflict(mk):
                    try:
                        store.put(v, target)
                    except OSError:
                        label("refused: name is a directory or below a key")
                        everything(when)
                        continue
                    check(False, f"{when}: stored below a key or over a directory")
                got = store.put(v, target)
                check(got == ("fs://" + target if how == "bare" else target), f"{when}: put returned {got!r}")
                model[mk] = v
                if how != "mem":
                    model[mk] = VALUES[op[4][0]](op[4][1])
                    spoil(v)
                if how != "mem":
                    dirs.update(parents(mk))
            elif kind == "get":
                try:
                    got = store.get(u)
                except KeyError:
                    check(mk not in model, f"{when}: {u!r} is missing")
                else:
                    check(mk in model, f"{when}: {u!r} was never written, yet holds {got!r}")
                    check(eq(got, model[mk]), f"{when}: {u!r} holds {got!r} instead of {model[mk]!r}")
            elif kind == "delete":
                try:
                    store.delete(u)
                except (KeyError, OSError):
                    check(mk not in model, f"{when}: cannot delete")
                model.pop(mk, None)
            elif kind == "exists":
                check(store.exists(u) is (mk in model), f"{when}: exists is wrong")
            elif kind == "auto":
                v = VALUES[op[1][0]](op[1][1])
                u = store.put(v)
                check(u.startswith("mem://") and u[6:] not in mem, f"{when}: put returned {u!r}")
                mem[u[6:]] = v
            elif kind == "putbad":
                try:
                    store.put(Bad(), "fs://" + pool[op[1]])
                except (ValueError, OSError):
                    dirs.update(parents(norm(pool[op[1]])))
                else:
                    check(False, f"{when}: stored what cannot be stored")
                # a refused write may or may not have made the directories
                for d in list(dirs):
                    if not os.path.isdir(os.path.join(root, d)):
                        dirs.discard(d)
            elif kind == "reopen":
                store = ObjectStore(FileSystemBackend(root))
                mem.clear()
            elif kind == "list":
                pass
            elif kind == "file":
                if os.path.lexists(fpath(op[1])):
                    os.remove(fpath(op[1]))
                local[op[1]] = VALUES[op[2][0]](op[2][1])
                with open(fpath(op[1]), "wb") as f:
                    pickle.dump(local[op[1]], f)
            elif kind == "rmfile":
                if os.path.lexists(fpath(op[1])):
                    os.remove(fpath(op[1]))
                local.pop(op[1], None)
            elif kind == "download":
                key, sp, i = pool[op[1]], op[2], op[3]
                if spell(key, sp).startswith("/"):
                    continue  # an absolute data path is taken as such
                try:
                    store.download(spell(key, sp), fpath(i))
                except (FileNotFoundError, NotADirectoryError):
                    check(norm(key) not in fs, f"{when}: download does not find the key")
                else:
                    if norm(key) in dirs:
                        label("downloads a directory")
                        os.remove(fpath(i))
                        local.pop(i, None)
                        continue
                    check(norm(key) in fs, f"{when}: downloaded a key that was never written")
                    local[i] = fs[norm(key)]
                    expect_file(i, when)
            elif kind == "upload":
                key, sp, i = pool[op[1]], op[2], op[3]
                if spell(key, sp).startswith("/"):
                    continue
                mk = norm(key)
                try:
                    store.upload(fpath(i), spell(key, sp))
                except FileNotFoundError:
                    check(i not in local, f"{when}: upload does not find the file")
                except OSError as e:
                    check(conflict(mk) or (mk in fs and not same_bytes(fs[mk], local[i])), f"{when}: upload failed: {e!r}")
                    label("upload refused")
                else:
                    check(i in local and not conflict(mk), f"{when}: upload of nothing, or over a directory")
                    check(mk not in fs or same_bytes(fs[mk], local[i]), f"{when}: upload overwrote other content")
                    fs[mk] = local.pop(i)
                    dirs.update(parents(mk))
                    check(not os.path.lexists(fpath(i)), f"{when}: the uploaded file is still there")
            # a downloaded file is a view of its key until the key changes: forget views of changed keys
            if kind in ("put", "delete", "upload"):
                for i in list(local):
                    if os.path.islink(fpath(i)):
                        if not os.path.exists(fpath(i)):
                            os.remove(fpath(i))
                            del local[i]
                        else:
                            with open(fpath(i), "rb") as f:
                                local[i] = pickle.load(f)
            everything(when)
            label(kind)
    finally:
        shutil.rmtree(base)


def same_bytes(a, b):
    return pickle.dumps(a) == pickle.dumps(b) or eq(a, b)


# ---------------------------------------------------------------- keys of any text


@st.composite
def odd(draw):
    ch = st.one_of(st.characters(codec="utf-8", exclude_characters="\0"), st.sampled_from(list("/.:%~\\ ")))
    ks = draw(st.lists(st.text(ch, min_size=1, max_size=12), min_size=1, max_size=6))
    return [k for k in ks], draw(st.booleans())


def run_odd(c):
    ks, reopen = c
    base = tempfile.mkdtemp(dir=os.getcwd())
    root = os.path.join(base, "a", "b", "root")
    try:
        store = ObjectStore(FileSystemBackend(root))
        m = {}
        for k in ks:
            p = norm(k)
            if p == "." or p == ".." or p.startswith("../"):
                for f in (store.get, store.exists, store.delete):
                    try:
                        r = f("fs://" + k)
                    except (ValueError, KeyError):
                        r = None
                    check(not r, f"{k!r} is no key, yet {f.__name__} gave {r!r}")
                continue
            try:
                store.put(k, "fs://" + k)
            except OSError:
                check(any(q.startswith(p + "/") or p.startswith(q + "/") for q in m), f"{k!r} was refused")
                continue
            m[p] = k
            mem = store.put(k + "!", "mem://" + k)
            check(store.get(mem) == k + "!", f"{k!r} in memory")
        if reopen:
            store = ObjectStore(FileSystemBackend(root))
        for p, k in m.items():
            check(store.get("fs://" + p) == k, f"{p!r} holds {store.get('fs://' + p)!r} instead of {k!r}")
            check(store.exists("fs://" + k), f"{k!r} is missing")
        got = sorted(u[5:] for u in store.list_keys() if u.startswith("fs://"))
        check(got == sorted(m), f"keys {got} instead of {sorted(m)}")
        check(sorted(os.listdir(base)) == ["a"] and os.listdir(os.path.join(base, "a")) == ["b"] and os.listdir(os.path.join(base, "a", "b")) == ["root"], "files outside the root")
        for p in m:
            store.delete("fs://" + p)
        check(os.path.isdir(os.path.join(base, "a", "b")), "deleting removed directories above the root")
        check(not [u for u in store.list_keys() if u.startswith("fs://")], "keys left after deleting all")
    finally:
        shutil.rmtree(base)


# ---------------------------------------------------------------- several threads


@st.composite
def crowds(draw):
    return draw(st.integers(2, 5)), draw(st.integers(5, 40)), draw(st.integers(0, 2**31)), draw(st.sampled_from(["mem", "fs"]))


def run_crowd(c):
    T, n, seed, scheme = c
    base = tempfile.mkdtemp(dir=os.getcwd())
    store = ObjectStore(FileSystemBackend(base))
    errs = []

    def work(t):
        r = np.random.default_rng(seed + t)
        m = {}
        try:
            for i in range(n):
                k = f"{scheme}://t{t}/k{r.integers(4)}"
                what = r.integers(5)
                if what <= 1:
                    m[k] = (t, i, bytes(int(r.integers(5000))))
                    store.put(m[k], k)
                    u = store.put((t, i))
                    if store.get(u) != (t, i):
                        errs.append("auto key shared")
                elif what == 2 and k in m:
                    store.delete(k)
                    del m[k]
                elif what == 3:
                    if store.exists(k) != (k in m):
                        errs.append(f"exists {k}")
                    # everybody writes the shared key: any read is one of the values written, whole
                    store.put((b"s%d" % t) * 20000, scheme + "://shared")
                    v = store.get(scheme + "://shared")
                    if len(v) != 40000 or v != v[:2] * 20000:
                        errs.append("torn value")
                    store.list_keys()
                elif k in m and store.get(k) != m[k]:
                    errs.append(f"{k} holds another value")
            for k in m:
                if store.get(k) != m[k]:
                    errs.append(f"{k} holds another value")
        except Exception as e:  # noqa: BLE001
            errs.append(repr(e))

    ts = [threading.Thread(target=work, args=(t,)) for t in range(T)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    shutil.rmtree(base)
    check(not errs, lambda: str(errs[:5]))
    label(scheme)


# ---------------------------------------------------------------- the store dialect on a cluster


@st.composite
def saves(draw):
    k = st.sampled_from(["m", "m/w", "ckpt/1", "ckpt/10", "x.y", "深"])
    part = st.sampled_from([(0,), (1,), (0, 1), (0, 1, 2), (2, 0)])
    op = st.one_of(st.tuples(st.just("save"), k, part, st.integers(-99, 99), st.integers(1, 4)), st.tuples(st.just("save"), k, part, st.integers(-99, 99), st.integers(1, 4)),
                   st.tuples(st.just("load"), k, part), st.tuples(st.just("restart")))
    return draw(st.lists(op, min_size=2, max_size=7))


def run_saves(ops):
    from mplang.dialects import simp, store, tensor
    from mplang.edsl import typing as elt
    from mplang.libs.device import ClusterSpec

    cid = f"vf{os.getpid()}_{next(_n)}"
    model = {}
    spec = dataclasses.replace(ClusterSpec.simple(3), cluster_id=cid)

    def start():
        return mp.make_simulator(3, cluster_spec=spec)

    sim = start()
    try:
        for n, op in enumerate(ops):
            when = f"after {ops[: n + 1]}"
            if op[0] == "restart":
                sim.shutdown()
                sim = start()
                continue
            if op[0] == "save":
                _, key, parties, v, size = op
                if any(k != key and (k.startswith(key + "/") or key.startswith(k + "/")) for r in parties for (q, k) in model if q == r):
                    continue
                with sim:
                    for p in parties:
                        x = simp.constant((p,), np.arange(size) + v + 100 * p)
                        y = simp.pcall_static((p,), lambda a: store.save(a, key), x)
                        got = mp.fetch(y)
                        check(np.array_equal(np.asarray(got[p]), np.arange(size) + v + 100 * p), f"{when}: saving returned {got}")
                        model[p, key] = np.arange(size) + v + 100 * p
            else:
                _, key, parties = op
                for p in parties:
                    if (p, key) in model:
                        a = model[p, key]
                        with sim:
                            got = mp.fetch(simp.pcall_static((p,), lambda: store.load(key, elt.TensorType(elt.i64, a.shape))))
                        check(np.array_equal(np.asarray(got[p]), a), f"{when}: party {p} loaded {got[p]} instead of {a}")
                    else:
                        try:
                            with sim:
                                got = mp.fetch(simp.pcall_static((p,), lambda: store.load(key, elt.TensorType(elt.i64, (1,)))))
                        except Exception as e:  # noqa: BLE001
                            check("not found" in str(e) or isinstance(e, KeyError), f"{when}: {e!r}")
                            sim.shutdown()
                            sim = start()
                        else:
                            check(False, f"{when}: party {p} loaded {got} which it never saved")
    finally:
        sim.shutdown()
        label("restarts" if any(o[0] == "restart" for o in ops) else "one cluster")


# ---------------------------------------------------------------- files of any size

SIZES = [0, 1, 255, 4095, 4096, 8192, 65535, 65536, 65537, 262144, 1048575, 1048576, 1048577, 2097152, 3000001, 4194304, 8388609, 16777217]


@st.composite
def bulks(draw):
    size = draw(st.one_of(st.sampled_from(SIZES), st.integers(0, 5_000_000)))
    # contents: one base, and variations of it by one byte, or by what follows
    var = st.tuples(st.sampled_from(["same", "same", "flip", "flip", "longer", "shorter"]), st.one_of(st.sampled_from([0, -1, 4096, 65536, 1048576, 2097152]), st.integers(0, max(0, size - 1))))
    op = st.one_of(
        st.tuples(st.just("file"), st.integers(0, 1), var, st.booleans()), st.tuples(st.just("file"), st.integers(0, 1), var, st.booleans()),
        st.tuples(st.just("upload"), st.integers(0, 1), st.integers(0, 1)), st.tuples(st.just("upload"), st.integers(0, 1), st.integers(0, 1)),
        st.tuples(st.just("download"), st.integers(0, 1), st.integers(0, 1)), st.tuples(st.just("put"), st.integers(0, 1), var),
    )
    ops = draw(st.lists(op, min_size=2, max_size=9))
    if draw(st.booleans()):
        # the same key twice: files of one size, the second perhaps with another byte anywhere
        a, b = draw(st.tuples(var, var))
        i, j = draw(st.tuples(st.integers(0, 1), st.integers(0, 1)))
        ops = [("file", i, a, draw(st.booleans())), ("upload", 0, i), ("file", j, b, draw(st.booleans())), ("upload", 0, j), *ops[:4]]
    return size, draw(st.integers(0, 2**31)), ops


def run_bulk(c):
    size, seed, ops = c
    base_data = np.random.default_rng(seed).bytes(size)
    base = tempfile.mkdtemp(dir=os.getcwd())
    store = ObjectStore(FileSystemBackend(os.path.join(base, "root")))
    files = os.path.join(base, "files")
    os.makedirs(files)
    keys_, local = {}, {}

    def content(v):
        kind, at = v
        if kind == "flip" and size:
            b = bytearray(base_data)
            b[at if -size <= at < size else -1] ^= 1
            return bytes(b)
        return base_data + b"x" if kind == "longer" else base_data[:-1] if kind == "shorter" else base_data

    def fpath(i):
        return os.path.join(files, str(i))

    def read(path):
        with open(path, "rb") as f:
            return f.read()

    def agrees(when):
        for k in (0, 1):
            p = os.path.join(base, "root", f"k{k}")
            check(os.path.exists(p) == (k in keys_), f"{when}: key {k} is {'missing' if k in keys_ else 'there'}")
            if k in keys_:
                check(read(p) == keys_[k], lambda: f"{when}: key {k} holds other bytes")
        for i in (0, 1):
            check(os.path.lexists(fpath(i)) == (i in local), f"{when}: file {i} is {'missing' if i in local else 'there'}")
            if i in local:
                check(read(fpath(i)) == local[i], lambda: f"{when}: file {i} holds other bytes")

    try:
        for n, op in enumerate(ops):
            when = f"{size} bytes, after {ops[: n + 1]}"
            if op[0] == "file":
                if os.path.lexists(fpath(op[1])):
                    os.remove(fpath(op[1]))
                local[op[1]] = content(op[2])
                with open(fpath(op[1]), "wb") as f:
                    f.write(local[op[1]])
                if op[3]:
                    os.utime(fpath(op[1]), (1e9, 1e9))
            elif op[0] == "put":
                k, v = op[1], content(op[2])
                store.put(v, f"fs://k{k}")
                check(store.get(f"fs://k{k}") == v, lambda: f"{when}: key {k} returns other bytes")
                keys_[k] = pickle.dumps(v)
                keys_[k] = read(os.path.join(base, "root", f"k{k}"))
                for i in (0, 1):
                    if os.path.islink(fpath(i)):
                        local[i] = read(fpath(i))
            elif op[0] == "upload":
                k, i = op[1], op[2]
                own = os.path.islink(fpath(i)) and os.path.realpath(fpath(i)) == os.path.join(os.path.realpath(base), "root", f"k{k}")
                try:
                    store.upload(fpath(i), f"k{k}")
                except FileNotFoundError:
                    check(i not in local, f"{when}: upload does not find the file")
                except FileExistsError:
                    check(k in keys_ and keys_[k] != local[i] and not own, f"{when}: upload was refused")
                    label("refused other content")
                else:
                    check(i in local, f"{when}: nothing was uploaded")
                    check(k not in keys_ or keys_[k] == local[i], f"{when}: upload over other content")
                    label("same content" if k in keys_ else "new")
                    keys_[k] = local.pop(i)
            else:
                k, i = op[1], op[2]
                if k not in keys_ and i in local:
                    continue
                try:
                    store.download(f"k{k}", fpath(i))
                except FileNotFoundError:
                    check(k not in keys_, f"{when}: download does not find the key")
                else:
                    check(k in keys_, f"{when}: nothing was downloaded")
                    label("download over a file" if i in local else "download")
                    local[i] = keys_[k]
            agrees(when)
    finally:
        shutil.rmtree(base)
    label("over 1 MiB" if size > 2**20 else "up to 1 MiB")


SUBS = [
    Sub("history", histories, run_history, "histories of up to 25 operations over keys that share prefixes, with re-open, downloads and uploads; every key is read back after every step; non-trivial = three writes",
        lambda c: sum(o[0] in ("put", "upload") for o in c[1]) >= 3, quick=650, thorough=9000, shards_quick=2, shards_thorough=6),
    Sub("odd", odd, run_odd, "keys of any text; non-trivial = two keys", lambda c: len(set(c[0])) > 1, quick=400, thorough=8000, shards_quick=1, shards_thorough=3),
    Sub("bulk", bulks, run_bulk, "uploads, downloads and values of up to 16 MiB which are the same or differ in one byte anywhere, in length, or in age; the bytes of every key and file are compared after every step; non-trivial = an upload or download after two files or values",
        lambda c: any(o[0] in ("upload", "download") and sum(q[0] in ("file", "put") for q in c[2][:n]) >= 2 for n, o in enumerate(c[2])), quick=120, thorough=3000, shards_quick=2, shards_thorough=4),
    Sub("crowd", crowds, run_crowd, "threads with their own and one shared key; non-trivial = all", lambda c: True, quick=60, thorough=1500, shards_quick=1, shards_thorough=2),
    Sub("dialect", saves, run_saves, "store.save and store.load on a cluster of three with restarts; non-trivial = a load after a save",
        lambda c: {"load", "save"} <= {o[0] for o in c}, quick=60, thorough=1500, shards_quick=1, shards_thorough=3),
]
KNOWN = []
