"""Symbolic values shared by the executor and the two float semantics."""
import z3


class EngineError(Exception):
    """The executor met something it cannot encode; the check ends with an error, never with a verdict."""


class Undef:
    __slots__ = ()
    def __repr__(self): return 'undef'


UNDEF = Undef()


class Agg(list):
    """First-class aggregate value ({T, U} or array)."""
    __slots__ = ()


class Pc:
    """An integer made of byte pieces, some of which are opaque (float bits, symbolic ints).

    pieces: list of (value, suboff, nbytes, cellsize), little endian.  Concrete pieces are (int, 0, n, n)."""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
    def size(self): return sum(x[2] for x in self.p)


class SB:
    """Symbolic boolean.  op: 'z' z3 bool | 'r' (pid, mask) real atom | 'f' float atom | 'and' | 'or' | 'not'."""
    __slots__ = ('op', 'a', 'key')
    _tab = {}

    def __new__(cls, op, *a):
        if op == 'z':
            key = ('z', a[0].get_id())
        elif op in ('and', 'or', 'not'):
            key = (op,) + tuple(x.key for x in a)
        else:
            key = (op,) + tuple(x.id if isinstance(x, FN) else x for x in a)
        o = cls._tab.get(key)
        if o is None:
            o = object.__new__(cls)
            o.op = op; o.a = a; o.key = key
            cls._tab[key] = o
        return o


def snot(b):
    if b is True: return False
    if b is False: return True
    if b.op == 'not': return b.a[0]
    if b.op == 'r':
        return SB('r', b.a[0], 7 ^ b.a[1])
    if b.op == 'z':
        e = b.a[0]
        if z3.is_not(e): return SB('z', e.arg(0))
        return SB('not', b)
    if b.op == 'and': return sor(snot(b.a[0]), snot(b.a[1]))
    if b.op == 'or': return sand(snot(b.a[0]), snot(b.a[1]))
    return SB('not', b)


def sand(a, b):
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    if a is b: return a
    return SB('and', a, b)


def sor(a, b):
    if a is True or b is True: return True
    if a is False: return b
    if b is False: return a
    if a is b: return a
    return SB('or', a, b)


class FN:
    """Hash-consed IEEE float expression node (bit-precise semantics).

    op: 'c' (bits) constant | 'in' (index) input | 'neg' 'abs' 'add' 'sub' 'mul' 'div' 'sqrt' | 'fn' (name, args) |
    'bv' (z3 bit-vector reinterpretation) | 'u2f' / 's2f' (bit-vector to float)."""
    __slots__ = ('op', 'a', 'id', 'fin', 'z', 'bv', 'w', 'iv')
    _tab = {}
    _n = 0

    def __new__(cls, op, *a, w=32):
        key = (op, w) + tuple(('n', x.id) if isinstance(x, FN) else (('z', x.get_id()) if isinstance(x, z3.AstRef) else x) for x in a)
        o = cls._tab.get(key)
        if o is None:
            o = object.__new__(cls)
            o.op = op; o.a = a; o.fin = False; o.z = None; o.bv = None; o.w = w; o.iv = None
            FN._n += 1
            o.id = FN._n
            cls._tab[key] = o
        return o


class Re:
    """Real value num / prod(factor^e) in the real-number semantics."""
    __slots__ = ('n', 'd')
    def __init__(self, n, d=()):
        self.n = n; self.d = d


class LazyRe(Re):
    """Real value worked out when it is first looked at."""
    __slots__ = ('f', 'a', 'v')
    def __init__(self, f, a):
        self.f = f; self.a = a; self.v = None

    def get(self):
        if self.v is None: self.v = self.f()
        return self.v

    n = property(lambda s: s.get().n)
    d = property(lambda s: s.get().d)


class Spec:
    """Non-finite value in the real-number semantics: 'nan', '+inf', '-inf'."""
    __slots__ = ('k',)
    def __init__(self, k): self.k = k


NAN = Spec('nan')
PINF = Spec('+inf')
NINF = Spec('-inf')


def reset_tables():
    SB._tab.clear()
    FN._tab.clear()
