SEEDS = []
def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

seed("e06-function-nearest", "E06", [("mplang/__init__.py", '''        from mplang.edsl.context import find_context

        # Find context with simp dialect state
        ctx = find_context(has_simp_state)
        if ctx is None:
''', '''        from mplang.edsl.context import find_interpreter

        # The interpreter in charge knows the parties
        ctx = find_interpreter()
        if ctx is None or not has_simp_state(ctx):
''')], "a local interpreter entered inside a cluster's context while a multi-party function is traced", "mp.function no longer finds the nearest context that has a cluster",
'''
import numpy as np
import mplang as mp
from mplang.dialects import tensor
ctx = mp.make_compile_context(3)
f = mp.function(lambda: tensor.constant(np.int64(1)))
with ctx:
    a = mp.compile(lambda: f())
    with mp.Interpreter() if hasattr(mp, "Interpreter") else __import__("mplang.runtime.interpreter", fromlist=["x"]).Interpreter():
        b = mp.compile(lambda: f())
for t in (a, b):
    assert t.graph.outputs[0].type.parties == (0, 1, 2), t.graph.outputs[0].type
''')

seed("e06-evaluate-leak", "E06", [("mplang/__init__.py", '''        return fn(*args, **kwargs)


def fetch(''', '''    # Plain functions run eagerly in the interpreter.
    push_context(interp)
    result = fn(*args, **kwargs)
    pop_context()
    return result


def fetch(''')], "a function given to evaluate that raises, and a program that goes on after catching it", "the interpreter of the failed evaluation stays entered",
'''
import numpy as np
import mplang as mp
from mplang.dialects import tensor
from mplang.runtime.interpreter import Interpreter
a, b = Interpreter(name="a"), Interpreter(name="b")
def bad():
    tensor.constant(np.arange(2))
    raise KeyError("x")
with a:
    for _ in range(2):
        try:
            mp.evaluate(bad, context=b)
        except KeyError:
            pass
    assert mp.get_current_context() is a, mp.get_current_context()
    assert tensor.constant(np.arange(2))._context is a
assert mp.get_current_context() is None
''')

seed("e06-lift-by-name", "E06", [("mplang/runtime/interpreter.py", '''            if obj._context is not None and obj._context is not self:
                raise ValueError(''', '''            owner = obj._context
            if owner is not None and getattr(owner, "name", None) != self.name:
                raise ValueError(''')], "two interpreters of one name, such as two simulators, and a value of one used in the other", "the value is taken as if it were its own instead of being refused",
'''
import numpy as np
import mplang as mp
from mplang.dialects import tensor
from mplang.runtime.interpreter import Interpreter
for names in (("a", "b"), ("job", "job")):
    a, b = (Interpreter(name=n) for n in names)
    with a:
        x = tensor.constant(np.arange(3))
        assert tensor.concat([x, x], axis=0)._context is a
    with b:
        try:
            tensor.concat([x, x], axis=0)
        except ValueError:
            pass
        else:
            raise SystemExit("a value of another interpreter was used")
''')

seed("e06-named-context", "E06", [("mplang/__init__.py", '''    if context is not None:
        return context
    ctx = get_current_context()
    if ctx is None:
''', '''    ctx = get_current_context()
    if context is not None and not isinstance(ctx, Interpreter):
        return context
    if ctx is None:
''')], "a context named explicitly while another interpreter is entered", "the program runs in the entered interpreter instead of the named one",
'''
import numpy as np
import mplang as mp
from mplang.dialects import tensor
from mplang.runtime.interpreter import Interpreter
a, b = Interpreter(name="a"), Interpreter(name="b")
f = lambda: tensor.constant(np.arange(2))
assert mp.evaluate(f, context=b)._context is b
with a:
    assert mp.evaluate(f)._context is a
    assert mp.evaluate(f, context=b)._context is b
    t = mp.compile(f)
    assert mp.evaluate(t, context=b)._context is b
''')
