"""R03: a file-system store never leaves its root and never loses data to a failed write."""

from __future__ import annotations

import os
import pickle
import posixpath
import resource
import shutil
import signal
import sys
import tempfile
import time

from hypothesis import strategies as st

from mplang.runtime.object_store import FileSystemBackend, ObjectStore
from vf.core import HarnessError, Sub, check, label

PROPERTY = "R03"
ASSUMPTIONS = ["absolute data paths, and relative ones found in the working directory, are taken as such by download and upload, as documented; everything else is a key",
               "symlinks placed inside the root by somebody else are followed",
               "an interruption ends the process; the file system itself does not fail"]
NOBODY = 65534


def in_child(fn, uid=None, limit=20.0):
    """Runs fn in a forked child; returns ("ok", result) / ("raised", text) / ("died", status)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            if uid is not None:
                os.setgroups([])
                os.setgid(uid)
                os.setuid(uid)
            try:
                res = ("ok", fn())
            except Exception as e:  # noqa: BLE001
                res = ("raised", f"{type(e).__name__}: {e}")
            sys.settrace(None)
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY)) if uid is None else None
            b = pickle.dumps(res)
            while b:
                b = b[os.write(w, b):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks, end = [], time.time() + limit
    os.set_blocking(r, False)
    import select

    while True:
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            raise HarnessError("child did not finish")
        if select.select([r], [], [], 0.5)[0]:
            c = os.read(r, 1 << 16)
            if not c:
                break
            chunks.append(c)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not chunks:
        return ("died", status)
    return pickle.loads(b"".join(chunks))


# ---------------------------------------------------------------- containment

SEGS = ["..", "..", "..", ".", "", "a", "b", "node1", "node10", "node1x", "secret", "x", "w", "node1.bak", "...", "..a", "%2e%2e", "%2e%2e%2f", "..%2f", "..\\", "..\\..\\secret", "．．", "․․", " ..", ".. ", "~", "~root", "$HOME", "..;", "\u202e", "node1/", "-"]


@st.composite
def paths(draw):
    segs = draw(st.lists(st.sampled_from(SEGS), min_size=1, max_size=7))
    ups = 0
    for i, s in enumerate(segs):  # an escape reaches no further than the scratch tree
        if s == "..":
            ups += 1
            if ups > 4:
                segs[i] = "a"
    key = "/".join(segs)
    how = draw(st.sampled_from(["", "", "", "", "/", "//", "BASE/", "ROOT/../", "/./", "file:"]))
    if how == "ROOT/../" and ups > 3:
        how = "BASE/"
    return how, key


@st.composite
def attempts(draw):
    op = st.tuples(st.sampled_from(["put", "put", "get", "exists", "delete", "download", "upload", "uri_put", "uri_get"]), paths())
    return draw(st.lists(op, min_size=1, max_size=10)), draw(st.sampled_from(["node1", "node1", "node1/", "./node1", "node"])), draw(st.booleans())


SECRET = "the secret"


def snapshot(base, root):
    out = {}
    for d, ds, fs in os.walk(base):
        if d == root:
            ds[:] = []
            continue
        for n in ds:
            out[os.path.join(d, n)] = "dir"
        for n in fs:
            p = os.path.join(d, n)
            out[p] = os.readlink(p) if os.path.islink(p) else open(p, "rb").read()
    return out


def run_attempts(c):
    ops, rootname, relative = c
    top = tempfile.mkdtemp(dir="/tmp", prefix="vf-r03-")
    try:
        base = os.path.join(top, "base")
        w = os.path.join(base, "d1", "d2", "d3", "w")
        root = os.path.join(w, rootname.strip("./"))
        for d in (root, os.path.join(root, "a"), *(os.path.join(w, n) for n in ("node10", "node1.bak", "a", "node", "node1")), os.path.join(base, "cwd"), os.path.join(top, "out")):
            os.makedirs(d, exist_ok=True)
        for p in ("node10/x", "node1.bak/secret", "node1x", "secret", "../secret", "../../secret", "../../../secret", "x", "../x", "a/b", "node10/secret"):
            with open(os.path.join(w, p), "wb") as f:
                pickle.dump(SECRET, f)
        with open(os.path.join(root, "a", "x"), "wb") as f:
            pickle.dump("mine", f)
        for d, ds, fs in os.walk(top):
            for n in [d] + [os.path.join(d, x) for x in fs]:
                os.chown(n, NOBODY, NOBODY)
        before = snapshot(base, root)
        cwd = os.path.join(base, "cwd")

        def spell(how, key):
            return {"BASE/": base + "/", "ROOT/../": root + "/../"}.get(how, how) + key

        def child():
            if relative:
                os.chdir(w)
                store = ObjectStore(FileSystemBackend(rootname))
            else:
                os.chdir(cwd)
                store = ObjectStore(FileSystemBackend(os.path.join(w, rootname)))
            be, out = store.persistent, []
            for i, (op, (how, key)) in enumerate(ops):
                k = spell(how, key)
                try:
                    if op == "put":
                        be.put(k, f"v{i}")
                        res = be.get(k)
                    elif op == "uri_put":
                        store.put(f"v{i}", "fs://" + k)
                        res = store.get("fs://" + k)
                    elif op in ("get", "uri_get"):
                        res = be.get(k) if op == "get" else store.get("fs://" + k)
                    elif op == "exists":
                        res = be.exists(k)
                    elif op == "delete":
                        res = be.delete(k)
                    elif os.path.isabs(k):
                        continue
                    elif op == "download":
                        if os.path.lexists(k):
                            continue  # a file of the working directory
                        dest = os.path.join(top, "out", str(i))
                        be.download(k, dest)
                        res = None
                        if os.path.isfile(dest):
                            with open(dest, "rb") as f:
                                res = pickle.load(f)
                    else:
                        src = os.path.join(top, "out", f"u{i}")
                        with open(src, "wb") as f:
                            pickle.dump(f"v{i}", f)
                        be.upload(src, k)
                        res = be.get(k)
                    out.append((i, op, k, "ok", res))
                except Exception as e:  # noqa: BLE001
                    out.append((i, op, k, "raised", f"{type(e).__name__}: {e}"))
            return out, be.list_keys()

        r = in_child(child, uid=NOBODY)
        if r[0] != "ok":
            raise HarnessError(f"child: {r}")
        outcomes, listed = r[1]
        after = snapshot(base, root)
        diff = sorted(set(before.items()) ^ set(after.items()), key=str)
        check(not diff, lambda: f"changed outside the root {root}: {[(p.replace(base, ''), v) for p, v in diff]} by {[(o[1], o[2]) for o in outcomes]}")
        for i, op, k, st_, res in outcomes:
            check(res != SECRET, lambda: f"{op}({k!r}) read a file outside the root {root}")
            ok = posixpath.normpath(posixpath.join(root, k.lstrip("/"))).startswith(root + "/")
            if op == "exists" and res is True:
                check(ok, lambda: f"exists({k!r}) looked outside the root")
            if not ok and op in ("put", "uri_put", "upload"):
                check(st_ == "raised", lambda: f"{op}({k!r}) was accepted")
            label(f"{op} {'inside' if ok else 'escaping'} {st_}")
            if op in ("put", "uri_put", "upload") and st_ == "ok":
                check(res == f"v{i}", lambda: f"{op}({k!r}) then get gave {res!r}")
        have = sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs)
        check(sorted(listed) == have, lambda: f"keys {sorted(listed)}, files in the root {have}")
    finally:
        shutil.rmtree(top)


# ---------------------------------------------------------------- a store alone in its directories


@st.composite
def lonely(draw):
    depth = draw(st.integers(1, 4))
    k = st.sampled_from(["a", "a/b", "a/b/c", "d/e", "f"])
    return depth, draw(st.lists(st.tuples(st.sampled_from(["put", "put", "put", "delete", "delete", "get", "upload", "download", "putbad", "reopen", "empty"]), k), min_size=2, max_size=14))


def run_lonely(c):
    depth, ops = c
    top = tempfile.mkdtemp(dir="/tmp", prefix="vf-r03-")
    try:
        chain = [top]
        for i in range(depth):
            chain.append(os.path.join(chain[-1], f"n{i}"))
        root, out = os.path.join(chain[-1], "store"), os.path.join(top, "out")
        os.makedirs(chain[-1])
        os.makedirs(out)
        for d in (top, out, *chain):
            os.chown(d, NOBODY, NOBODY)

        def child():
            store, m = ObjectStore(FileSystemBackend(root)), {}
            for i, (op, k) in enumerate(ops):
                try:
                    if op == "put":
                        store.put(i, "fs://" + k)
                        m[k] = i
                    elif op == "delete":
                        store.delete("fs://" + k)
                        m.pop(k, None)
                    elif op == "empty":
                        for q in list(m):
                            store.delete("fs://" + q)
                            del m[q]
                    elif op == "get":
                        store.get("fs://" + k)
                    elif op == "putbad":
                        store.put(lambda: 0, "fs://" + k)
                    elif op == "reopen":
                        store = ObjectStore(FileSystemBackend(root))
                    elif op == "upload":
                        src = os.path.join(out, f"u{i}")
                        with open(src, "wb") as f:
                            pickle.dump(i, f)
                        store.upload(src, k)
                        m[k] = i
                    elif not os.path.lexists(k):
                        store.download(k, os.path.join(out, f"d{i}"))
                except (KeyError, OSError, AttributeError, pickle.PicklingError):
                    pass
                bad = [d for d in chain if not os.path.isdir(d)]
                if bad:
                    return f"{op} {k!r} removed {bad}"
                if os.listdir(chain[-1]) not in (["store"], []):
                    return f"{op} {k!r} left {os.listdir(chain[-1])} beside the root"
                have = {u[5:]: store.get(u) for u in store.list_keys()}
                if have != m:
                    return f"after {op} {k!r} the store holds {have} instead of {m}"
            return None

        r = in_child(child, uid=NOBODY)
        if r[0] == "died":
            raise HarnessError(f"child: {r}")
        check(r == ("ok", None), lambda: f"{ops}: {r[1]}".replace(top, ""))
        label("emptied" if any(o[0] in ("delete", "empty") for o in ops) else "kept")
    finally:
        shutil.rmtree(top)


# ---------------------------------------------------------------- interrupted writes


class Stop:
    """Pickles up to here and no further."""

    def __init__(self, how):
        self.how = how

    def __reduce__(self):
        if self.how == "exit":
            os._exit(9)
        if self.how == "memory":
            raise MemoryError
        if self.how == "interrupt":
            raise KeyboardInterrupt
        raise TypeError("cannot be stored")


def value(tag, size):
    return [tag, bytes([sum(map(ord, tag)) % 251]) * size]


@st.composite
def faults(draw):
    old = draw(st.sampled_from([None, 0, 10, 5000, 70000, 300000]))
    new = draw(st.sampled_from([0, 10, 5000, 70000, 300000]))
    fault = draw(st.one_of(
        st.tuples(st.just("value"), st.sampled_from(["type", "memory", "exit", "interrupt"])),
        st.tuples(st.sampled_from(["full", "killed"]), st.sampled_from([0, 1, 20, 4096, 4097, 8192, 65536, 100000, 131072, 299000, 300020])),
        st.tuples(st.just("line"), st.integers(1, 45)),
        st.tuples(st.just("call"), st.integers(1, 8)),
    ))
    return draw(st.sampled_from(["put", "put", "put", "upload", "upload elsewhere"])), old, new, fault, draw(st.sampled_from(["k", "d/k", "d/e/k"])), draw(st.booleans())


def run_fault(c):
    op, old, new, fault, key, other = c
    if fault[0] == "value" and op != "put":
        return
    top = tempfile.mkdtemp(dir=os.getcwd())
    far = tempfile.mkdtemp(dir="/dev/shm", prefix="vf-r03-") if op == "upload elsewhere" else None
    try:
        root = os.path.join(top, "root")
        store = ObjectStore(FileSystemBackend(root))
        uri = "fs://" + key
        model = {}
        if old is not None and op == "put":  # an upload never replaces
            model[uri] = value("old", old)
            store.put(model[uri], uri)
        if other:
            model["fs://" + key + "2"] = "other"
            store.put("other", "fs://" + key + "2")
        fresh = value("new", new)
        src = os.path.join(far or top, "src")
        if op != "put":
            with open(src, "wb") as f:
                pickle.dump(fresh, f)

        def act():
            if op == "put":
                store.put([fresh, Stop(fault[1])] if fault[0] == "value" else fresh, uri)
            else:
                store.upload(src, key)

        def child():
            sys.setswitchinterval(100)
            if fault[0] in ("full", "killed"):
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN if fault[0] == "full" else signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (fault[1], resource.RLIM_INFINITY))
            elif fault[0] == "line":
                left = [fault[1]]

                def tracer(frame, event, arg):
                    fn = frame.f_code.co_filename
                    if not (fn.endswith("object_store.py") or fn.endswith("shutil.py")):
                        return None
                    if event == "line":
                        left[0] -= 1
                        if left[0] == 0:
                            os._exit(9)
                    return tracer

                sys.settrace(tracer)
            elif fault[0] == "call":
                left = [fault[1]]
                names = {"open", "os.rename", "os.remove", "os.mkdir", "os.chmod", "os.utime", "os.link", "os.truncate", "shutil.move", "shutil.copyfile"}

                def hook(event, args):
                    if event in names:
                        left[0] -= 1
                        if left[0] == 0:
                            os._exit(9)

                sys.addaudithook(hook)
            try:
                act()
            except (KeyboardInterrupt, MemoryError) as e:
                raise RuntimeError(repr(e)) from None

        r = in_child(child)
        store = ObjectStore(FileSystemBackend(root))
        how = f"{op} of {new} bytes over {old}, {fault} ({r[0]})"
        if r[0] == "ok":
            check(fault[0] != "value", f"{how}: stored what cannot be stored")
            model[uri] = fresh
        try:
            got = store.get(uri)
        except KeyError:
            check(uri not in model, f"{how}: the previous value is lost")
        except Exception as e:  # noqa: BLE001
            check(False, f"{how}: the value is torn: {e!r}")
        else:
            if r[0] == "died" and got == fresh:
                model[uri] = fresh  # interrupted just after
            check(got == model.get(uri, "nothing"), lambda: f"{how}: holds {repr(got)[:80]} instead of {repr(model.get(uri))[:80]}")
        check(store.exists(uri) is (uri in model), f"{how}: exists() = {store.exists(uri)}")
        keys = sorted(k for k in store.list_keys() if k.startswith("fs://"))
        check(keys == sorted(model), f"{how}: keys {keys} instead of {sorted(model)}")
        for k, v in model.items():
            check(store.get(k) == v, f"{how}: {k} changed")
        if op != "put":
            if uri not in model:
                check(os.path.isfile(src), f"{how}: the data is neither in the store nor where it was")
                with open(src, "rb") as f:
                    check(pickle.load(f) == fresh, f"{how}: the source was damaged")
                store.upload(src, key)
        else:
            store.put(fresh, uri)
        check(store.get(uri) == fresh, f"{how}: writing again fails")
        label(f"{op}: {fault[0]} {r[0]}")
    finally:
        shutil.rmtree(top)
        if far:
            shutil.rmtree(far)


SUBS = [
    Sub("contain", attempts, run_attempts, "sequences of operations with keys made to escape, run by an unprivileged child in a scratch tree with bait around the root; non-trivial = an operation whose key has a dot segment",
        lambda c: any(".." in k for _, (_, k) in c[0]), quick=350, thorough=8000, shards_quick=3, shards_thorough=6),
    Sub("lonely", lonely, run_lonely, "operations on a store that is all there is in its parent directories; non-trivial = a write and a delete",
        lambda c: {"put", "upload"} & {o for o, _ in c[1]} and {"delete", "empty"} & {o for o, _ in c[1]}, quick=200, thorough=4000, shards_quick=1, shards_thorough=3),
    Sub("fault", faults, run_fault, "a put or upload that fails or is killed at a generated byte, line or call; non-trivial = all", lambda c: True, quick=350, thorough=8000, shards_quick=3, shards_thorough=6),
]
KNOWN = []
