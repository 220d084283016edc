"""Environment stubs shared by the symbolic and the concrete side."""
import sys
import types


class Node:
    """A term built by the recorded CBI frameworks: compared structurally."""

    __array_priority__ = 10000

    def __init__(self, op, args=(), kw=None):
        self.op, self.args, self.kw = op, list(args), dict(kw or {})

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return Node(ufunc.__name__, inputs)

    def _b(self, op, o, r=False):
        return Node(op, (o, self) if r else (self, o))

    def __mul__(self, o):
        return self._b('multiply', o)

    def __rmul__(self, o):
        return self._b('multiply', o, True)

    def __add__(self, o):
        return self._b('add', o)

    def __radd__(self, o):
        return self._b('add', o, True)

    def to_event(self, n):
        return Node('to_event', (self, n))

    def __repr__(self):
        return f'{self.op}({self.args}, {self.kw})'


def _mod(name, names):
    m = types.ModuleType(name)
    for n in names:
        def mk(n=n):
            def f(*a, **k):
                return Node(f'{name}.{n}', a, k)
            f.__name__ = n
            return f
        setattr(m, n, mk())
    return m


def fake_frameworks():
    """pymc / pyro / torch are recorded instead of run: their constructors build a term"""
    pm = _mod('pymc', ['Normal', 'Gamma', 'Uniform', 'Deterministic'])
    dist = _mod('pyro.distributions', ['Normal', 'Gamma', 'Uniform'])
    py = _mod('pyro', ['sample', 'deterministic'])
    py.distributions = dist
    py.__path__ = []
    tc = types.ModuleType('torch')

    def need(a, b):
        if not (isinstance(a, Node) or isinstance(b, Node)):
            raise TypeError("multiply(): argument 'input' must be Tensor, not float")

    def multiply(a, b):
        need(a, b)
        return Node('multiply', (a, b))

    def add(a, b):
        need(a, b)
        return Node('add', (a, b))
    tc.multiply, tc.mul, tc.add = multiply, multiply, add
    tc.tensor = lambda x: x
    tc.__version__ = '0'
    for n, m in (('pymc', pm), ('pyro', py), ('pyro.distributions', dist), ('torch', tc)):
        sys.modules[n] = m


def quiet():
    import logging
    lg = logging.getLogger('gerabaldi')
    for h in list(lg.handlers):
        h.setLevel(100)
    lg.propagate = False
