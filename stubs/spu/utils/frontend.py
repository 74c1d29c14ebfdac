import enum
import pickle


class Kind(enum.Enum):
    JAX = 1


def compile(kind, fn, args, kwargs, input_names=None, input_vis=None, outputNameGen=None, **_):
    import jax
    import jax.export

    from .. import libspu

    out_info = jax.eval_shape(fn, *args, **kwargs)
    flat = jax.tree_util.tree_leaves(out_info)

    def call(xs):
        return jax.tree_util.tree_leaves(fn(xs))

    # platform-neutral StableHLO, with every argument kept
    exp = jax.export.export(jax.jit(call, keep_unused=True))(*args)
    code = pickle.dumps(("hlo", exp.mlir_module()))
    return libspu.Executable("k", list(input_names), outputNameGen(flat), code), out_info


def _patch_jax():
    return []


def _restore_jax_patch(patches):
    pass
