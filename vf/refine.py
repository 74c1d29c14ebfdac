"""A stand-in for the external stablehlo-opt tool, using the same passes from jaxlib.

start() puts a `stablehlo-opt` command first on PATH; the command sends its input to a
thread of this process, which refines the argument types, the shapes, and checks the
shape assertions.
"""

from __future__ import annotations

import os
import socket
import tempfile
import threading

_started = False


def refine(code: str, types: str) -> str:
    from jax.interpreters import mlir
    from jaxlib._jax import mlir as xmlir
    from jaxlib.mlir.passmanager import PassManager

    with mlir.make_ir_context():
        m = mlir.ir.Module.parse(code)
        PassManager.parse(f"builtin.module(inline,stablehlo-refine-arguments{{types={types}}},stablehlo-refine-shapes)").run(m.operation)
        text = mlir.module_to_bytecode(m)
    import inspect

    kw = {"enable_shape_assertions": True, "validate_static_shapes": True}
    out = xmlir.refine_polymorphic_shapes(text, **kw)
    with mlir.make_ir_context():
        return str(mlir.ir.Module.parse(out))


def _serve(srv):
    while True:
        c, _ = srv.accept()
        try:
            buf = b""
            while True:
                d = c.recv(65536)
                if not d:
                    break
                buf += d
            head, rest = buf.split(b"\n", 1)
            a, b = map(int, head.split())
            try:
                c.sendall(b"1" + refine(rest[a : a + b].decode(), rest[:a].decode()).encode())
            except Exception as e:
                c.sendall(b"0" + str(e).encode())
        finally:
            c.close()


def start():
    global _started
    if _started:
        return
    from jaxlib.mlir.dialects import stablehlo

    stablehlo.register_stablehlo_passes()
    d = tempfile.mkdtemp(dir=os.getcwd())
    path = os.path.join(d, "s")
    srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    cwd = os.getcwd()
    os.chdir(d)  # keep the bound path short
    try:
        srv.bind("s")
    finally:
        os.chdir(cwd)
    srv.listen(16)
    link = tempfile.mkdtemp(prefix="vf")  # a short name for connecting
    os.symlink(path, os.path.join(link, "s"))
    import atexit
    import shutil

    atexit.register(shutil.rmtree, link, True)
    os.environ["VF_REFINE_SOCK"] = os.path.join(link, "s")
    os.environ["PATH"] = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs", "bin") + os.pathsep + os.environ["PATH"]
    threading.Thread(target=_serve, args=(srv,), daemon=True).start()
    _started = True
