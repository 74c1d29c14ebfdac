import hashlib
import json
import pickle
from types import SimpleNamespace

import numpy as np

from . import libspu

_DT = {
    "bool": "DT_I1", "int8": "DT_I8", "int16": "DT_I16", "int32": "DT_I32", "int64": "DT_I64",
    "uint8": "DT_U8", "uint16": "DT_U16", "uint32": "DT_U32", "uint64": "DT_U64",
    "float16": "DT_F16", "float32": "DT_F32", "float64": "DT_F64",
}


def _mk(arr, idx, count, vis):
    arr = np.asarray(arr)
    s = libspu.Share()
    raw = arr.tobytes()
    s.meta = json.dumps({
        "idx": idx, "count": count, "vis": vis.name, "dtype": arr.dtype.name, "shape": list(arr.shape),
        "uid": hashlib.sha256(raw).hexdigest()[:16],
    }).encode()
    s.share_chunks = [raw]
    return s


def _open(s):
    m = json.loads(bytes(s.meta).decode())
    raw = b"".join(bytes(c) for c in s.share_chunks)
    if hashlib.sha256(raw).hexdigest()[:16] != m["uid"]:
        raise RuntimeError("share corrupted")
    return m, np.frombuffer(raw, dtype=np.dtype(m["dtype"])).reshape(m["shape"]).copy()


class Io:
    def __init__(self, count, config):
        self.count = count
        self.config = config

    def make_shares(self, arr, vis, owner_rank=-1):
        return [_mk(arr, i, self.count, vis) for i in range(self.count)]

    def reconstruct(self, shares):
        if len(shares) != self.count:
            raise RuntimeError(f"expected {self.count} shares, got {len(shares)}")
        metas, arrs = zip(*[_open(s) for s in shares])
        if [m["idx"] for m in metas] != list(range(self.count)) or any(m["count"] != self.count for m in metas):
            raise RuntimeError(f"wrong set of shares: {[(m['idx'], m['count']) for m in metas]}")
        if len({(m["uid"], m["dtype"], tuple(m["shape"])) for m in metas}) != 1:
            raise RuntimeError("shares of different values")
        return arrs[0]


class Runtime:
    def __init__(self, link, config):
        self.link, self.config = link, config
        self.vars = {}

    def set_var(self, name, share):
        m, _ = _open(share)
        if m["idx"] != self.link.rank or m["count"] != self.link.world_size:
            raise RuntimeError(f"share ({m['idx']}/{m['count']}) given to party {self.link.rank}/{self.link.world_size}")
        self.vars[name] = share

    def get_var(self, name):
        return self.vars[name]

    def get_var_meta(self, name):
        m, _ = _open(self.vars[name])
        return SimpleNamespace(
            shape=SimpleNamespace(dims=list(m["shape"])),
            data_type=getattr(libspu.DataType, _DT[m["dtype"]]),
        )

    def run(self, executable):
        arrs = [_open(self.vars[n])[1] for n in executable.input_names]
        h = hashlib.sha256(bytes(executable.code) if not isinstance(executable.code, str) else executable.code.encode())
        for a in arrs:
            h.update(str((a.dtype, a.shape)).encode() + a.tobytes())
        got = self.link.all_gather(h.digest())
        if got is not None and any(g != h.digest() for g in got):
            raise RuntimeError("SPU parties disagree on program or inputs")
        outs = _exec(executable.code, arrs)
        for n, o in zip(executable.output_names, outs, strict=True):
            self.vars[n] = _mk(np.asarray(o), self.link.rank, self.link.world_size, libspu.Visibility.VIS_SECRET)


def _exec(code, arrs):
    import jax
    from jax._src import xla_bridge
    from jax._src.interpreters import mlir as jmlir
    from jax._src.lib.mlir import ir
    from jaxlib import xla_client

    _, text = pickle.loads(code)
    client = xla_bridge.get_backend("cpu")
    with jmlir.make_ir_context():
        module = ir.Module.parse(text)
        exe = client.compile_and_load(
            module.operation.get_asm(binary=False).encode(), client.local_devices()[:1], xla_client.CompileOptions()
        )
    res = exe.execute_sharded([jax.device_put(a) for a in arrs])
    return [np.asarray(r[0]) for r in res.disassemble_into_single_device_arrays()]


def compile(source, copts):
    return pickle.dumps(("hlo", source.ir_txt if isinstance(source.ir_txt, (str, bytes)) else str(source.ir_txt)))
