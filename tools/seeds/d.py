SEEDS = []
def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

seed("k01-nonce-counter", "K01", [("mplang/backends/crypto_impl.py", '''    nonce = os.urandom(12)
''', '''    # A nonce has to be unique, not unpredictable: count them
    nonce = next(_NONCES).to_bytes(12, "big")
'''), ("mplang/backends/crypto_impl.py", '''# Supported symmetric encryption algorithms
''', '''_NONCES = itertools.count(1)

# Supported symmetric encryption algorithms
'''), ("mplang/backends/crypto_impl.py", '''import hashlib
''', '''import hashlib
import itertools
''')], "two processes that encrypt under one key", "the same nonce is used with the same key in two processes (or after a restart)",
'''
import subprocess, sys, os
CODE = """
import warnings, logging; warnings.filterwarnings('ignore'); logging.disable(logging.CRITICAL)
import numpy as np, mplang, mplang.backends
mplang.backends.load_builtins()
from mplang.dialects import crypto, tensor
from mplang.runtime.interpreter import Interpreter
with Interpreter():
    k = tensor.constant(np.arange(32, dtype=np.uint8))
    print(crypto.sym_encrypt(k, tensor.constant(np.arange(4))).runtime_obj.unwrap()[:12].hex())
"""
seen = {subprocess.run([sys.executable, "-c", CODE], capture_output=True, text=True, check=True).stdout.split()[-1] for _ in range(3)}
assert len(seen) == 3, seen
''')

seed("k02-negative-scalar", "K02", [("mplang/backends/crypto_impl.py", '''    s_val = s_val % N

    if s_val == 0:
''', '''    # Scalars are words of 32 bytes
    s_val = int.from_bytes((s_val % (1 << 256)).to_bytes(32, "big"), "big") % N

    if s_val == 0:
''')], "a negative scalar", "multiplying by -1 does not give the inverse",
'''
import numpy as np
from mplang.dialects import crypto, tensor
from mplang.runtime.interpreter import Interpreter
with Interpreter():
    g = crypto.ec_generator()
    for k in (1, 5, -1, -7):
        a = crypto.ec_mul(g, crypto.ec_scalar_from_int(tensor.constant(np.array(k, dtype=np.int64))))
        b = crypto.ec_mul(g, crypto.ec_scalar_from_int(tensor.constant(np.array(-k, dtype=np.int64))))
        assert crypto.ec_add(a, b).runtime_obj is None, k
''')

seed("k04-temp-by-process", "K04", [("mplang/backends/bfv_impl.py", '''        return os.path.join(shm_dir, f"seal_{uuid.uuid4().hex}.bin")
''', '''        return os.path.join(shm_dir, f"seal_{os.getpid()}_{_PROCESS_TAG}.bin")
'''), ("mplang/backends/bfv_impl.py", '''def _get_seal_temp_path() -> str:
''', '''# Unique even if /dev/shm is shared between containers
_PROCESS_TAG = uuid.uuid4().hex


def _get_seal_temp_path() -> str:
''')], "ciphertexts serialized by two threads at once", "a ciphertext is written over by another one, or cannot be read",
'''
import threading, numpy as np
import mplang as mp
from mplang.dialects import bfv, tensor
from mplang.edsl import serde
from mplang.runtime.interpreter import Interpreter
with Interpreter():
    pk, sk = bfv.keygen(poly_modulus_degree=4096)
    enc = bfv.create_encoder(poly_modulus_degree=4096)
    cts = [bfv.encrypt(bfv.encode(tensor.constant(np.full(8, i + 1)), enc), pk) for i in range(6)]
    vals = [c.runtime_obj for c in cts]
    back, bad = {}, []
    def work(i):
        try:
            for _ in range(25):
                back[i] = serde.loads(serde.dumps(vals[i]))
                assert back[i].data.save_size() if hasattr(back[i].data, "save_size") else True
                got.append((i, back[i]))
        except BaseException as e:
            bad.append(repr(e))
    got = []
    ts = [threading.Thread(target=work, args=(i,)) for i in range(6)]
    [t.start() for t in ts]; [t.join() for t in ts]
    assert not bad, bad[0]
    from mplang.backends.bfv_impl import decrypt_impl, decode_impl
    for i, v in got:
        pt = decrypt_impl(None, None, v, sk.runtime_obj) if callable(decrypt_impl) else None
        out = np.asarray(decode_impl(None, None, pt, {"poly_modulus_degree": 4096}).unwrap())
        assert (out[:8] == i + 1).all(), (i, out[:8])
''')

seed("m02-trace-time-seeds", "M02", [("mplang/libs/mpc/ot/extension.py", '''        k0_bytes = crypto.random_bytes(K * 32)
        k1_bytes = crypto.random_bytes(K * 32)
''', '''        # The seeds are known when the protocol is set up: no need to draw them later
        k0_bytes = tensor.constant(np.frombuffer(os.urandom(K * 32), dtype=np.uint8))
        k1_bytes = tensor.constant(np.frombuffer(os.urandom(K * 32), dtype=np.uint8))
'''), ("mplang/libs/mpc/ot/extension.py", '''import jax.numpy as jnp
''', '''import os

import jax.numpy as jnp
import numpy as np
''')], "a traced program with extended transfers that is run twice", "all runs of one program use the same masks (and both parties know the seeds from the program)",
'''
import numpy as np, mplang as mp
from mplang.dialects import simp
from mplang.libs.mpc.ot import extension
n = 9
with mp.make_simulator(2) as sim:
    with sim:
        b = simp.constant((1,), np.array([0, 1] * 4 + [1], dtype=np.uint8))
        t = mp.compile(lambda x: extension.iknp_core(x, 0, 1, n), b)
        seen = set()
        for _ in range(2):
            q = mp.fetch(mp.evaluate(t, b, context=sim)[1])[1]
            seen.add(np.asarray(q).tobytes())
        assert len(seen) == 2
''')

seed("m04-chunks", "M04", [("mplang/libs/mpc/analytics/groupby.py", '''                    if e - s < b_val:
                        c = jnp.pad(c, (0, b_val - (e - s)), constant_values=-1)
                    return (c == k_target).astype(jnp.int64)
''', '''                    if e - s < b_val:
                        # wrap around: the data there is zero
                        c = jnp.resize(c, (b_val,))
                    return (c == k_target).astype(jnp.int64)
'''), ("mplang/libs/mpc/analytics/groupby.py", '''                c = x[s:e]
                if e - s < b_val:
                    c = jnp.pad(c, (0, b_val - (e - s)))
                return c
''', '''                c = x[max(e - b_val, 0) : e]
                if c.shape[0] < b_val:
                    c = jnp.pad(c, (0, b_val - c.shape[0]))
                return jnp.roll(c, (e - s) % b_val) if s else c
''')], "more values than one ciphertext holds", "values of the previous ciphertext are counted again",
'''
import numpy as np, mplang as mp
from mplang.dialects import simp
from mplang.libs.mpc.analytics import groupby
n, k = 2500, 3
rng = np.random.default_rng(1)
d, b = rng.integers(0, 5, n), rng.integers(0, k, n)
with mp.make_simulator(2) as sim:
    with sim:
        out = mp.fetch(groupby.oblivious_groupby_sum_bfv(simp.constant((0,), d), simp.constant((1,), b), k, 0, 1))[1]
        assert np.array_equal(np.asarray(out), [d[b == i].sum() for i in range(k)]), out
''')

seed("b03-masked-sparse", "B03", [("mplang/extend/arrow/vector.py", '''        for i in range(n_rows):
            if self.storage[i].is_valid:
                idx_arr = indices_list[i]
                val_arr = values_list[i]
                for idx, val in zip(idx_arr, val_arr, strict=True):
                    idx_py = idx.as_py()
                    if 0 <= idx_py < size:
                        result[i, idx_py] = val.as_py()

        return result
''', '''        # All rows at once
        lengths = indices_list.value_lengths().fill_null(0).to_numpy()
        rows = np.repeat(np.arange(n_rows), lengths)
        columns = indices_list.flatten().to_numpy()
        values = values_list.flatten().to_numpy(zero_copy_only=False)
        keep = (columns >= 0) & (columns < size)
        result[rows[keep], columns[keep]] = values[keep]
        return result
''')], "a missing sparse vector, masked in an array whose children still hold entries at its place", "a missing vector shows entries in the tensor, though none elsewhere",
'''
import pyarrow as pa, numpy as np
from mplang.extend.arrow import vector
t = vector.sparse_vector(4, pa.int64())
idx = pa.array([[0, 2], [1], [3]], t.storage_type.field(0).type)
val = pa.array([[5, 6], [7], [8]], t.storage_type.field(1).type)
st = pa.StructArray.from_arrays([idx, val], fields=list(t.storage_type), mask=pa.array([False, True, False]))
a = pa.ExtensionArray.from_storage(t, st)
assert a.to_numpy().tolist() == a.to_pylist() == [[5, 0, 6, 0], [0] * 4, [0, 0, 0, 8]], a.to_numpy()
''')

seed("m05-parent-sums", "M05", [("mplang/libs/ml/sgb.py", '''            # Store for next level (if needed)
            # Note: We don't know max_depth here, but storing it is harmless if not used
            last_level_hists[pp_idx + 1] = pp_hists
''', '''            # (only full histograms are kept for the next level)
''')], "trees of three levels or more that split on a passive party's features", "histograms of right children are derived from the grandparents'",
'''
import numpy as np, mplang as mp
from mplang.dialects import simp
from mplang.libs.ml.sgb import SecureBoost
rng = np.random.default_rng(3)
m = 300
x = rng.normal(size=(m, 3)); y = ((x[:, 0] > 0) ^ (x[:, 1] > 0) ^ (x[:, 2] > 0.3)).astype(np.float64)

def train(split):
    with mp.make_simulator(2) as sim:
        with sim:
            xs = [simp.constant((0,), x[:, split:] if split else x), simp.constant((1,), x[:, :split])] if split else [simp.constant((0,), x)]
            ys = simp.constant((0,), y)
            sb = SecureBoost(n_estimators=1, learning_rate=1.0, max_depth=3, max_bin=5, reg_lambda=0.1, gamma=0.0, min_child_weight=2.0, ap_rank=0, pp_ranks=[1] if split else [])
            sb.fit(xs, ys, n_samples=m, n_features_per_party=[3 - split, split] if split else [3])
            p = sb.predict(xs, n_samples=m) if hasattr(sb, "predict") else None
            p = mp.fetch(p)
            return np.asarray(p[0] if isinstance(p, list) else p).ravel()
a, b = train(2), train(0)
assert np.allclose(a, b, atol=1e-3), np.abs(a - b).max()
''')
