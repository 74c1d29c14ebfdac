SEEDS = []
def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

seed("d01-infer-keywords", "D01", [("mplang/libs/device/api.py", '''    all_args = tree_flatten((args, kwargs))[0]
    device_objs = []
''', '''    # Keywords configure a computation; where it runs is decided by its operands
    all_args = tree_flatten(args or kwargs)[0]
    device_objs = []
''')], "a computation without a named device that takes a plain operand positionally and a secure one by keyword", "the computation runs on the plain device, revealing the secure value there",
'''
import numpy as np, mplang as mp
from mplang.libs.device import ClusterSpec, api
spec = ClusterSpec.simple(3)
with mp.make_simulator(3, cluster_spec=spec):
    x = api.put("P0", np.arange(4)); s = api.put("SP0", api.put("P1", np.arange(4)))
    r = api.device()(lambda a, *, b: a + b).__call__(x, b=s) if False else api.device().jax(lambda a, *, b: a + b)(x, b=s)
    assert api.get_dev_attr(r) == "SP0", api.get_dev_attr(r)
''')

seed("d01-same-node", "D01", [("mplang/libs/device/api.py", '''        var = simp.shuffle_static(obj, {to_rank: frm_rank})
        return set_dev_attr(var, to_dev_id)
''', '''        # Devices of one node share its memory: nothing has to be sent
        var = (
            obj
            if to_rank == frm_rank
            else simp.shuffle_static(obj, {to_rank: frm_rank})
        )
        return set_dev_attr(var, to_dev_id)
''')], "two plain devices on one node, and a value that is used again on its first device after it was moved to the other", "the original handle silently changes device, so later inference picks another one",
'''
import numpy as np, mplang as mp
from mplang.libs.device import ClusterSpec, api
spec = ClusterSpec.from_dict({"nodes": [{"name": "a", "endpoint": "localhost:1"}, {"name": "b", "endpoint": "localhost:2"}],
    "devices": {"C0": {"kind": "PPU", "members": ["a"]}, "G0": {"kind": "PPU", "members": ["a"]}, "S": {"kind": "SPU", "members": ["a", "b"], "config": {"protocol": "SEMI2K", "field": "FM128"}}}})
with mp.make_simulator(2, cluster_spec=spec):
    x = api.put("C0", np.arange(4)); y = api.put("C0", np.arange(4))
    api.put("G0", x)
    r = api.device().jax(lambda a, b: a + b)(x, y)
    assert api.get_dev_attr(r) == "C0"
''')

seed("d02-member-order", "D02", [("mplang/libs/device/cluster.py", '''            "members": [node.name for node in self.members],
''', '''            "members": sorted(node.name for node in self.members),
''')], "a secure device whose members are not listed alphabetically", "the written description lists another order of members than the one read",
'''
from mplang.libs.device import ClusterSpec
c = {"cluster_id": "c", "nodes": [{"name": n, "endpoint": "localhost:1", "runtime_info": {"version": "1", "platform": "p", "op_bindings": {}}} for n in ("zed", "amy", "bob")],
     "devices": {"S": {"kind": "SPU", "members": ["zed", "bob", "amy"], "config": {}}}}
s = ClusterSpec.from_dict(c)
assert ClusterSpec.from_dict(s.to_dict()) == s
assert s.to_dict()["devices"]["S"]["members"] == ["zed", "bob", "amy"]
''')

seed("e04-no-parties", "E04", [("mplang/edsl/typing.py", '''        parties = tuple(data["parties"]) if data["parties"] is not None else None
''', '''        parties = tuple(data["parties"]) if data["parties"] else None
''')], "a type held by no party at all", "it comes back from the wire as a type held by an unknown set of parties",
'''
from mplang.edsl import serde, typing as elt
t = elt.MPType(elt.i32, ())
assert serde.loads(serde.dumps(t)) == t
''')

seed("e03-equal-immediates", "E03", [("mplang/edsl/tracer.py", '''        obj_id = id(obj)
        if obj_id in self._captured_vars:
            _, graph_value = self._captured_vars[obj_id]
            return TraceObject(graph_value, self)

        lifted = self._new_arg(self._lift_type(obj))
        self._captured_vars[obj_id] = (obj, lifted._graph_value)
''', '''        # A value of an enclosing trace may be wrapped more than once
        source = getattr(obj, "_graph_value", None)
        obj_id = id(obj) if source is None else hash((source.name, source.type))
        if obj_id in self._captured_vars:
            _, graph_value = self._captured_vars[obj_id]
            return TraceObject(graph_value, self)

        lifted = self._new_arg(self._lift_type(obj))
        self._captured_vars[obj_id] = (obj, lifted._graph_value)
''')], "a function traced inside two enclosing traces that captures from both, values of the same type whose generated names are equal", "one captured value silently takes the place of the other",
'''
import numpy as np, mplang as mp
from mplang.dialects import simp, tensor
sim = simp.make_simulator(2)
A = (0, 1)
def add(a, b): return simp.pcall_static(A, lambda p, q: tensor.run_jax(lambda u, v: u + v, p, q), a, b)
def f():
    x = [simp.constant(A, np.array(i)) for i in range(1, 8)]
    t = simp.constant(A, np.array(True))
    def then():
        w = [simp.constant(A, np.array(100 * i)) for i in range(1, 8)]
        def inner():
            r = x[0]
            for v in x[1:] + w: r = add(r, v)
            return r
        return simp.uniform_cond(t, inner, inner)
    return simp.uniform_cond(t, then, then)
with sim: r = mp.fetch(mp.evaluate(mp.compile(f)))
assert all(int(v) == 28 + 2800 for v in r), r
''')
