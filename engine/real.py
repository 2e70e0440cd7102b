"""Real-number semantics: floats are exact reals, kept as quotients of polynomials over inputs and generators.

Generators are algebraic (sqrt, unit-vector components) or transcendental (sin/cos pairs, acos/asin/atan2 angles, exponentials).
Path conditions are sign conditions on polynomials and are decided by z3 (nlsat).  Rounding is outside this semantics.
"""
import math
import random
import re
import struct
import time
from fractions import Fraction
import numpy as np
import z3
from poly import Ring, W, FM, norm, ratsqrt, squarefree, mdiv, halfm
from values import *
from execu import PathEnd, sgn, NEG, ZERO, POS

LIBM = {'sqrtf', 'fabsf', 'sinf', 'cosf', 'tanf', 'asinf', 'acosf', 'atanf', 'atan2f', 'powf', 'expf', 'logf', 'sincosf', 'fmaf', 'fminf', 'fmaxf',
        'hypotf', 'copysignf', 'sqrt', 'fabs', 'floorf', 'ceilf', 'truncf', 'roundf', 'fmodf', 'exp2f', 'cbrtf'}
E32 = struct.unpack('<f', struct.pack('<f', math.e))[0]
ZERO_P = {}
ONE = {0: 1}


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def fbits(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]


def swapmask(m):
    return (m & ZERO) | (POS if m & NEG else 0) | (NEG if m & POS else 0)


def mulmask(a, b):
    r = 0
    for x, y, z in ((NEG, NEG, POS), (NEG, POS, NEG), (POS, NEG, NEG), (POS, POS, POS)):
        if a & x and b & y: r |= z
    if a & ZERO or b & ZERO: r |= ZERO
    return r


class Real:
    name = 'real'

    def __init__(self, ex):
        self.ex = ex
        self.R = Ring()
        self.box = Fraction(ex.opts.get('box', 4))
        self.feas_ms = ex.opts.get('feas_ms', 120)
        self.check_ms = ex.opts.get('check_ms', 15000)
        self.invars = {}
        self.gens = {}
        self.static = {}
        self.zv = {}
        self.zp = {}
        self.pair = {}          # (mono, den) -> ...
        self.unit_of = {}       # free component of a unit vector -> the dependent one
        self.angle = {}         # angle variable -> (sin Re, cos Re)
        self.qcache = {}
        self.shapes = {}
        self.shape_members = {}
        self.alias = {}         # |p| generator -> stand-in for p
        self.absmask = 0        # all |p| generators
        self.lazy_abs = ex.opts.get('lazy_abs', True)
        self.factors = {}
        self.points = {}
        self.samples = ex.opts.get('samples', 3000)
        self.rng = random.Random(12345)
        self.hunt = ex.opts.get('hunt')     # looking for a counterexample only: large values get a name, paths without a known point are left out

    # ------------------------------------------------------------ basics
    def const(self, bits, k):
        if k == 'f':
            if bits & 0x7f800000 == 0x7f800000:
                if bits & 0x7fffff: return NAN
                return NINF if bits >> 31 else PINF
            x = struct.unpack('<f', struct.pack('<I', bits))[0]
        else:
            x = struct.unpack('<d', struct.pack('<Q', bits))[0]
            if x != x: return NAN
            if abs(x) == math.inf: return PINF if x > 0 else NINF
        if x == 0: return Re({})
        return Re({0: norm(Fraction(x))})

    def cv(self, v):
        """Fraction value of a constant Re, else None."""
        if type(v) is Re and not v.d:
            if not v.n: return Fraction(0)
            if len(v.n) == 1 and 0 in v.n: return Fraction(v.n[0])
        return None

    def const_bits(self, v):
        if type(v) is Spec: return {'nan': 0x7fc00000, '+inf': 0x7f800000, '-inf': 0xff800000}[v.k]
        c = self.cv(v)
        return None if c is None else fbits(float(c))

    def has_libm(self, n): return n in LIBM

    def new_input(self, ex, st, kind, lo, hi):
        if kind == 'range': l, h = self.cv(lo), self.cv(hi)
        else: l, h = -self.box, self.box
        i = len(st.inputs)
        key = (i, l, h)
        v = self.invars.get(key)
        if v is None:
            v = self.invars[key] = self.R.newvar('x%d' % i, 'in', None, l, h)
        st.inputs.append(('real', v))
        return Re(self.R.var(v))

    def new_unit(self, ex, st, k):
        i = len(st.inputs)
        key = ('u', i, k)
        vs = self.invars.get(key)
        if vs is None:
            one = Fraction(1)
            rest = [self.R.newvar('u%d_%d' % (i, j), 'in', None, -one, one) for j in range(1, k)]
            w = self.R.newvar('u%d_0' % i, 'unit', rest, -one, one)
            p = {0: 1}
            for r in rest: p[2 << (W * r)] = -1
            if k == 1: p = {0: 1}
            self.R.setrule(w, p)
            for r in rest: self.unit_of[r] = w
            vs = self.invars[key] = [w] + rest
        st.inputs.append(('unit', vs))
        return [Re(self.R.var(v)) for v in vs]

    # ------------------------------------------------------------ arithmetic
    def dexp(self, d):
        """Expanded polynomial of a factored denominator."""
        r = ONE
        for pid, e in d: r = self.R.mul(r, self.R.pow(self.R.canon[pid], e))
        return r

    def cancel(self, n, d):
        if not n: return Re({})
        if not d: return Re(n)
        out = []
        R = self.R
        for pid, e in d:
            f = R.canon[pid]
            while e > 0:
                q = R.divexact(n, f)
                if q is None and R.rulemask: q = R.divrule(n, f)
                if q is None: break
                n = q
                e -= 1
            if e: out.append((pid, e))
        return Re(n, tuple(out))

    def add(self, a, b):
        R = self.R
        if a.d == b.d:
            n = R.add(a.n, b.n)
            return self.cancel(n, a.d) if a.d else Re(n)
        da, db = dict(a.d), dict(b.d)
        l = dict(da)
        for k, e in db.items(): l[k] = max(l.get(k, 0), e)
        ma = tuple((k, e - da.get(k, 0)) for k, e in l.items() if e > da.get(k, 0))
        mb = tuple((k, e - db.get(k, 0)) for k, e in l.items() if e > db.get(k, 0))
        n = R.add(R.mul(a.n, self.dexp(ma)) if ma else a.n, R.mul(b.n, self.dexp(mb)) if mb else b.n)
        return self.cancel(n, tuple(sorted(l.items())))

    def neg_re(self, a):
        return Re({m: -c for m, c in a.n.items()}, a.d)

    def mulre(self, a, b):
        R = self.R
        if not a.n or not b.n: return Re({})
        # cancel crosswise first to keep polynomials small
        x = self.cancel(a.n, b.d) if b.d else Re(a.n)
        y = self.cancel(b.n, a.d) if a.d else Re(b.n)
        n = R.mul(x.n, y.n)
        d = dict(x.d)
        for k, e in y.d: d[k] = d.get(k, 0) + e
        d = tuple(sorted(d.items()))
        return self.cancel(n, d) if d and R.rulemask else Re(n, d)

    def inv(self, b):
        """1/b for non-zero b."""
        R = self.R
        num = self.dexp(b.d)
        n = b.n
        c = None
        # split a monomial content off
        k = None
        for m in n:
            k = m if k is None else mgcd(k, m)
        d = {}
        if k:
            n = {m - k: c for m, c in n.items()}
            v = 0
            x = k
            while x:
                e = x & FM
                if e:
                    if R.kind[v] in ('sqrt', 'abs'):
                        # 1/s = s/rad
                        num = R.mul(num, R.var(v)) if e == 1 else self._err()
                        q = self.invpoly(R.rule[v])
                        num = R.scale(num, q[0])
                        for f, ee in q[1]: d[f] = d.get(f, 0) + ee
                    else:
                        pid, kk, s = R.canonical(R.var(v))
                        d[pid] = d.get(pid, 0) + e
                x >>= W
                v += 1
        if len(n) == 1 and 0 in n:
            num = R.scale(num, Fraction(1) / n[0])
        else:
            q = self.invpoly(n)
            num = R.scale(num, q[0])
            for f, ee in q[1]: d[f] = d.get(f, 0) + ee
        return self.cancel(num, tuple(sorted(d.items())))

    def _err(self): raise EngineError("unexpected power of a root")

    def invpoly(self, p):
        """1/p = k / prod factors."""
        if len(p) == 1 and 0 in p: return (Fraction(1) / p[0], ())
        pid, k, s = self.R.canonical(p)
        return (Fraction(s) / k, ((pid, 1),))

    def sign_re(self, st, a):
        """(pid, flip) of a polynomial with the sign of a (denominator sign folded in when unknown)."""
        n = a.n
        flip = False
        for pid, e in a.d:
            if e % 2 == 0: continue
            m = self.signmask(st, pid)
            if m & NEG == 0: continue
            if m & POS == 0:
                flip = not flip
                continue
            n = self.R.mul(n, self.R.canon[pid])
        return n, flip

    def satom(self, st, a, mask):
        """Boolean: sign of Re a is in mask."""
        if not a.n: return bool(mask & ZERO)
        n, flip = self.sign_re(st, a) if mask not in (ZERO, NEG | POS) else (a.n, False)
        if not n: return bool(mask & ZERO)
        if flip: mask = swapmask(mask)
        if len(n) == 1 and 0 in n:
            return bool(mask & (POS if n[0] > 0 else NEG))
        # strip positive/even monomial content? keep simple: canonicalise
        pid, k, s = self.R.canonical(n)
        if s < 0: mask = swapmask(mask)
        sm = self.signmask(st, pid)
        if sm & mask == sm: return True
        if sm & mask == 0: return False
        return SB('r', pid, mask)

    def static_mask(self, pid):
        m = self.static.get(pid)
        if m is None:
            lo, hi = self.R.interval(self.R.canon[pid])
            m = 7
            if lo is not None:
                if lo > 0: m = POS
                elif lo == 0: m = POS | ZERO
                if hi < 0: m = NEG
                elif hi == 0: m &= NEG | ZERO
            m &= self.ball_mask(self.R.canon[pid])
            self.static[pid] = m
        return m

    def ball_mask(self, p):
        """Signs of c0 + sum ci*xi^2 where the xi are components of one unit vector."""
        if len(p) > 5 or not self.unit_of: return 7
        R = self.R
        unit, lo, hi = None, 0, 0
        for m, c in p.items():
            if m == 0: continue
            vs = R.varsof({m: c})
            if len(vs) != 1: return 7
            v, = vs
            w = self.unit_of.get(v)
            if w is None or m != 2 << (W * v) or unit not in (None, w): return 7
            unit = w
            lo, hi = min(lo, c), max(hi, c)
        c0 = p.get(0, 0)
        r = 7
        if c0 + lo >= 0: r &= POS | ZERO
        if c0 + lo > 0: r &= POS
        if c0 + hi <= 0: r &= NEG | ZERO
        if c0 + hi < 0: r &= NEG
        return r

    def varmask(self, st, v):
        pid, _, _ = self.R.canonical(self.R.var(v))
        m = st.signs.get(pid, 7) & self.static_mask(pid)
        if m & (m - 1) and 0 in self.shape(pid)[3]: m &= self.affine_mask(st, pid)
        return m

    def signmask(self, st, pid):
        m = st.signs.get(pid, 7)
        if m in (1, 2, 4): return m
        m &= self.static_mask(pid)
        if m in (1, 2, 4): return m
        p = self.R.canon[pid]
        if len(p) <= 40:
            tot = None
            for mono, c in p.items():
                t = POS if c > 0 else NEG
                v = 0
                x = mono
                while x:
                    e = x & FM
                    if e:
                        vm = self.varmask(st, v)
                        if e % 2 == 0: vm = (POS if vm & 5 else 0) | (vm & ZERO)
                        t = mulmask(t, vm)
                    x >>= W
                    v += 1
                if tot is None: tot = t
                else:
                    r = 0
                    if tot & POS or t & POS: r |= POS
                    if tot & NEG or t & NEG: r |= NEG
                    if (tot & POS and t & NEG) or (tot & NEG and t & POS): r |= 7
                    if tot & ZERO and t & ZERO: r |= ZERO
                    tot = r
                if tot == 7: break
            if tot is not None: m &= tot
        if m & (m - 1) and 0 in self.shape(pid)[3]: m &= self.affine_mask(st, pid)
        if m & (m - 1) and 3 <= len(p) <= 80: m &= self.quadratic_mask(st, pid)
        if m == 0: raise PathEnd()
        return m

    def quadratic_mask(self, st, pid):
        """Signs of p = a*S^2 + b*S + c left by the bounds the path puts on S."""
        R = self.R
        p = R.canon[pid]
        seen = set()
        for o, m in st.signs.items():
            if m in (7, NEG | POS) or o == pid or len(R.canon[o]) > 25: continue
            key = self.shape(o)[0]
            if id(key) in seen or len(key) < 2: continue
            seen.add(id(key))
            k = ('quad', pid, key)
            abc = self.gens.get(k, False)
            if abc is False:
                abc = None
                S = dict(key)
                sq = R.mul(S, S)
                lead = next((x for x in sq if x and x not in S), None)
                if lead is not None and lead in p:
                    a = Fraction(p[lead]) / Fraction(sq[lead])
                    t = R.add(p, R.scale(sq, -a))
                    l2 = key[0][0]
                    b = Fraction(t.get(l2, 0)) / Fraction(S[l2])
                    t = R.add(t, R.scale(S, -b)) if b else t
                    if not t or list(t) == [0]: abc = (a, b, Fraction(t.get(0, 0)))
                self.gens[k] = abc
            if abc is None: continue
            lo, hi = self.shape_bounds(st, o, None)
            if lo is None or hi is None: continue
            a, b, c = abc
            f = lambda x: a * x * x + b * x + c
            ends = [f(lo[0]), f(hi[0])]
            # closed interval [lo, hi]; extreme values at the ends or the vertex
            vs = list(ends)
            vx = -b / (2 * a)
            if lo[0] < vx < hi[0]: vs.append(f(vx))
            mn, mx = min(vs), max(vs)
            r = 7
            if mn >= 0: r &= POS | ZERO
            if mn > 0: r &= POS
            if mx <= 0: r &= NEG | ZERO
            if mx < 0: r &= NEG
            if r != 7: return r
        return 7

    def shape(self, pid):
        """p = a*S + b with S the normalised non-constant part; members lists the polynomials with the same S (0 in it marks more than one)."""
        r = self.shapes.get(pid)
        if r is None:
            c = self.R.canon[pid]
            b = Fraction(c.get(0, 0))
            lead = max(c)
            a = Fraction(c[lead])
            key = tuple(sorted((m, Fraction(k) / a) for m, k in c.items() if m))
            mem = self.shape_members.setdefault(key, {})
            mem[pid + 1] = True
            if len(mem) > 1: mem[0] = True
            r = self.shapes[pid] = (key, a, b, mem)
        return r

    def affine_mask(self, st, pid):
        """Signs of p left by what the path says about polynomials that differ from it by scale and constant only."""
        _, a, b, mem = self.shape(pid)
        lo, hi = self.shape_bounds(st, pid, pid)
        # sign of a*S+b, i.e. of S - t
        t = -b / a
        r = 7
        if lo is not None:
            if lo[0] > t or (lo[0] == t and lo[1]): r &= POS
            elif lo[0] == t: r &= POS | ZERO
        if hi is not None:
            if hi[0] < t or (hi[0] == t and not hi[1]): r &= NEG
            elif hi[0] == t: r &= NEG | ZERO
        return swapmask(r) if a < 0 else r

    def shape_bounds(self, st, pid, but):
        """Bounds (value, flag) the path puts on the non-constant part shared by pid and its likes."""
        mem = self.shape(pid)[3]
        lo = hi = None
        for o in mem:
            if o == 0 or o - 1 == but: continue
            m = st.signs.get(o - 1, 7) & self.static_mask(o - 1)
            if m == 7 or m == NEG | POS: continue
            _, oa, ob, _ = self.shapes[o - 1]
            t = -ob / oa
            if oa < 0: m = swapmask(m)
            if m & NEG == 0 and (lo is None or (t, m & ZERO == 0) > lo): lo = (t, m & ZERO == 0)
            if m & POS == 0 and (hi is None or (t, m & ZERO != 0) < hi): hi = (t, m & ZERO != 0)
        return lo, hi

    # ------------------------------------------------------------ float operations
    def neg(self, a):
        if a is UNDEF: return a
        if type(a) is Spec: return {'nan': NAN, '+inf': NINF, '-inf': PINF}[a.k]
        return self.neg_re(a)

    def sgn_spec(self, ex, st, a):
        """sign (-1,0,1) of a, forking."""
        if type(a) is Spec: return 1 if a.k == '+inf' else -1
        if ex.decide(st, self.satom(st, a, POS)): return 1
        if ex.decide(st, self.satom(st, a, ZERO)): return 0
        return -1

    def fbin(self, ex, st, op, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if type(a) is Spec or type(b) is Spec: return self.fbin_spec(ex, st, op, a, b)
        if type(a) is LazyRe: a = self.settled(ex, st, a)
        if type(b) is LazyRe: b = self.settled(ex, st, b)
        a, b = self.unabs(st, a), self.unabs(st, b)
        if op == 'fadd': return self.named(self.add(a, b))
        if op == 'fsub': return self.named(self.add(a, self.neg_re(b)))
        if op == 'fmul': return self.named(self.mulre(a, b))
        if op == 'fdiv':
            if ex.decide(st, self.satom(st, b, ZERO)):
                s = self.sgn_spec(ex, st, a)
                return NAN if s == 0 else (PINF if s > 0 else NINF)
            return self.named(self.mulre(a, self.inv(b)))
        raise EngineError("real " + op)

    def named(self, a):
        """When hunting, a value too large to compute with is given a variable of its own, defined by it."""
        if not self.hunt or len(a.n) + sum(len(self.R.canon[f]) for f, _ in a.d) <= self.hunt: return a
        key = ('def', self.key(a))
        v = self.gens.get(key)
        if v is None: v = self.gens[key] = self.R.newvar('d%d' % len(self.R.names), 'def', a)
        return Re(self.R.var(v))

    def fbin_spec(self, ex, st, op, a, b):
        if a is NAN or b is NAN: return NAN
        if op == 'fsub': return self.fbin_spec(ex, st, 'fadd', a, self.neg(b))
        if op == 'fadd':
            if type(a) is Spec and type(b) is Spec: return a if a.k == b.k else NAN
            return a if type(a) is Spec else b
        if op == 'fmul':
            s = self.sgn_spec(ex, st, a) * self.sgn_spec(ex, st, b)
            return NAN if s == 0 else (PINF if s > 0 else NINF)
        if op == 'fdiv':
            if type(a) is Spec and type(b) is Spec: return NAN
            if type(b) is Spec: return Re({})
            s = self.sgn_spec(ex, st, a) * (-1 if self.sgn_spec(ex, st, b) < 0 else 1)
            return PINF if s > 0 else NINF
        raise EngineError("real " + op)

    def fcmp(self, ex, st, pred, a, b):
        if a is UNDEF or b is UNDEF: raise EngineError("comparison of undefined float")
        if pred == 'true': return True
        if pred == 'false': return False
        un = a is NAN or b is NAN
        if pred == 'ord': return not un
        if pred == 'uno': return un
        if un: return pred[0] == 'u'
        p = pred[1:]
        if type(a) is Spec or type(b) is Spec:
            x = 0 if isinstance(a, Re) else (1 if a.k == '+inf' else -1)
            y = 0 if isinstance(b, Re) else (1 if b.k == '+inf' else -1)
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
        if type(a) is LazyRe: a = self.settled(ex, st, a)
        if type(b) is LazyRe: b = self.settled(ex, st, b)
        a, b = self.unabs(st, a), self.unabs(st, b)
        mask = {'eq': ZERO, 'ne': NEG | POS, 'lt': NEG, 'le': NEG | ZERO, 'gt': POS, 'ge': POS | ZERO}[p]
        return self.satom(st, self.add(a, self.neg_re(b)), mask)

    def absre(self, ex, st, a):
        if type(a) is Spec: return NAN if a is NAN else PINF
        if self.lazy_abs: return LazyRe(lambda: self.absgen(a), a)
        return a if ex.decide(st, self.satom(st, a, POS | ZERO)) else self.neg_re(a)

    def settled(self, ex, st, v):
        """An absolute value about to be used: decided by sign when that is known or the value is large, a generator otherwise."""
        if v.v is None:
            a = v.a
            sg = self.satom(st, a, POS | ZERO)
            if not isinstance(sg, bool) and len(a.n) <= 60:
                t = ex.truth(st, sg)
                if t is None: return v.get()
                sg = t
            return a if ex.decide(st, sg) else self.neg_re(a)
        return v.v

    def unabs(self, st, a):
        """Absolute values whose sign the path has settled since they were made, written out."""
        if not self.absmask: return a
        R = self.R
        u = 0
        for m in a.n: u |= m
        for f, _ in a.d:
            for m in R.canon[f]: u |= m
        u &= self.absmask
        if not u: return a
        n, d = a.n, dict(a.d)
        for v in R.varsof({u: 1}):
            p = R.info[v]
            pid, k, s = R.canonical(p)
            m = st.signs.get(pid, 7) & self.static_mask(pid)
            if s < 0: m = swapmask(m)
            if m & NEG == 0: w = p
            elif m & POS == 0: w = {x: -c for x, c in p.items()}
            else: continue
            nn, nd = self.replace(n, v, w), {}
            for f, e in d.items():
                g = self.replace(R.canon[f], v, w)
                if not g: return a
                if g is R.canon[f]:
                    nd[f] = nd.get(f, 0) + e
                    continue
                gi, gk, gs = R.canonical(g)
                nn = R.scale(nn, Fraction(gs ** e) / Fraction(gk) ** e)
                if R.varsof(R.canon[gi]): nd[gi] = nd.get(gi, 0) + e
                else: nn = R.scale(nn, 1 / Fraction(R.canon[gi][0]) ** e)
            n, d = nn, nd
        return self.cancel(n, tuple(sorted(d.items())))

    def replace(self, p, v, w):
        """p with the generator v (which occurs linearly) replaced."""
        R = self.R
        bit = 1 << (W * v)
        fm = FM << (W * v)
        hit = {m - bit: c for m, c in p.items() if m & fm == bit}
        if not hit: return p
        return R.add({m: c for m, c in p.items() if m & fm != bit}, R.mul(hit, w))

    def absgen(self, a):
        """|n/d| as |n|/|d|, each a generator of its own."""
        R = self.R
        pid, k, s = R.canonical(a.n)
        num = R.scale(R.var(self.absvar(pid)), k) if R.varsof(a.n) else {m: abs(c) for m, c in a.n.items()}
        if not a.d: return Re(num)
        d = {}
        for f, e in a.d:
            if e % 2 == 0 or self.static_mask(f) & NEG == 0:
                d[f] = d.get(f, 0) + e
                continue
            # 1/|f| = |f|/f^2
            num = R.mul(num, R.var(self.absvar(f)))
            d[f] = d.get(f, 0) + e + 1
        return self.cancel(num, tuple(sorted(d.items())))

    def absvar(self, pid):
        R = self.R
        key = ('abs', pid)
        v = self.gens.get(key)
        if v is None:
            p = R.canon[pid]
            lo, hi = R.interval(p)
            h = None if lo is None else max(abs(lo), abs(hi))
            v = self.gens[key] = R.newvar('a%d' % len(R.names), 'abs', p, Fraction(0), h)
            R.setrule(v, R.mul(p, p))
            self.absmask |= FM << (W * v)
            if len(p) > 1: self.alias[v] = R.newvar('y%d' % len(R.names), 'alias', p, lo, hi)
        return v

    def abspoly(self, ex, st, p):
        if self.lazy_abs and 1 < len(p) <= 60:
            sg = self.satom(st, Re(p), POS | ZERO)
            if not isinstance(sg, bool) and ex.truth(st, sg) is None:
                pid, k, s = self.R.canonical(p)
                return self.R.scale(self.R.var(self.absvar(pid)), k)
        return p if ex.decide(st, self.satom(st, Re(p), POS | ZERO)) else {m: -c for m, c in p.items()}

    def sqrt(self, ex, st, a, nonneg=False):
        R = self.R
        if type(a) is LazyRe: a = self.settled(ex, st, a)
        if type(a) is Spec: return a if a.k == '+inf' else NAN
        a = self.unabs(st, a)
        if not a.n: return Re({})
        if not nonneg and ex.decide(st, self.satom(st, a, NEG)): return NAN
        n = a.n
        outd = {}
        # value = n / prod f^e ; bring to n' / (prod f^k)^2
        for pid, e in a.d:
            if e % 2:
                n = R.mul(n, R.canon[pid])
                e += 1
            outd[pid] = e // 2
        if not n: return Re({})
        # denominator sign
        sgnd = 1
        for pid, k in outd.items():
            if k % 2:
                p = self.abspoly(ex, st, R.canon[pid])
                if p is not R.canon[pid]: sgnd = -sgnd
        root = self.sqrtpoly(ex, st, n)
        if sgnd < 0: root = {m: -c for m, c in root.items()}
        return self.cancel(root, tuple(sorted(outd.items())))

    def nonneg(self, st, p):
        """Record that the path makes p non-negative (a root of it is defined from here on)."""
        if len(p) == 1 and 0 in p: return
        pid, _, s = self.R.canonical(p)
        m = st.signs.get(pid, 7) & (POS | ZERO if s > 0 else NEG | ZERO)
        if m == 0: raise PathEnd()
        st.signs[pid] = m

    def negative(self, ex, st, p):
        """Decide p < 0, recording the answer."""
        if ex.decide(st, self.satom(st, Re(p), NEG)): return True
        self.nonneg(st, p)
        return False

    def sqrtpoly(self, ex, st, n):
        """sqrt of a non-negative polynomial, as a polynomial over generators."""
        R = self.R
        pid, k, s = R.canonical(n)
        p = R.canon[pid] if s > 0 else {m: -c for m, c in R.canon[pid].items()}
        # monomial content
        g = None
        for m in p: g = m if g is None else mgcd(g, m)
        pull = ONE
        if g:
            h = 0
            v = 0
            x = g
            while x:
                e = x & FM
                if e >= 2:
                    base = R.var(v)
                    if (e // 2) % 2: base = self.abspoly(ex, st, base)
                    pull = R.mul(pull, R.pow(base, e // 2))
                    h += (2 * (e // 2)) << (W * v)
                x >>= W
                v += 1
            if h:
                p = {m - h: c for m, c in p.items()}
                # where the square pulled out is zero the rest may be negative: the root is zero there
                if self.negative(ex, st, p): return {}
        r, q = squarefree(k)
        pull = R.scale(pull, r)
        if len(p) == 1 and 0 in p:
            r2, q2 = squarefree(Fraction(p[0]) * q)
            pull = R.scale(pull, r2)
            return pull if q2 == 1 else R.mul(pull, R.var(self.sqrtgen({0: q2})))
        if q != 1 :
            # keep the constant under the root with the polynomial only if that makes a perfect square
            sq = R.psqrt(R.scale(p, q))
            if sq is not None: return R.mul(pull, self.abspoly(ex, st, sq))
        sq = R.psqrt(p)
        if sq is not None:
            root = R.mul(pull, self.abspoly(ex, st, sq))
            return root if q == 1 else R.mul(root, R.var(self.sqrtgen({0: q})))
        self.nonneg(st, p)
        # p == c * radicand of a rule variable (or of its square part)?
        cp, ck, cs = R.canonical(p)
        for v, rule in R.rule.items():
            rp, rk, rs = R.canonical(rule)
            if rp == cp and cs == rs:
                # p = (ck/rk) * rule = (ck/rk) * v^2
                rr, qq = squarefree(Fraction(ck) / rk * q)
                base = R.var(v)
                if R.kind[v] not in ('sqrt', 'abs'): base = self.abspoly(ex, st, base)
                base = R.scale(R.mul(pull, base), rr)
                return base if qq == 1 else R.mul(base, R.var(self.sqrtgen({0: qq})))
        for v, rule in list(R.rule.items()):
            # p = rule * square ?
            if len(rule) > 1 and len(p) >= len(rule):
                dv = R.divexact(p, rule)
                if dv is not None:
                    s2 = R.psqrt(dv)
                    if s2 is not None:
                        if R.kind[v] == 'sqrt' and self.negative(ex, st, rule): return {}
                        base = R.mul(R.var(v) if R.kind[v] == 'sqrt' else self.abspoly(ex, st, R.var(v)), self.abspoly(ex, st, s2))
                        base = R.mul(pull, base)
                        return base if q == 1 else R.mul(base, R.var(self.sqrtgen({0: q})))
        for v, rule in list(R.rule.items()):
            # p = radicand of a known root times something: split the root
            if R.kind[v] == 'sqrt' and 1 < len(rule) < len(p):
                dv = R.divexact(p, rule)
                if dv is not None:
                    if self.negative(ex, st, rule): continue
                    if self.negative(ex, st, dv): return {}
                    base = R.mul(pull, R.mul(R.var(v), self.sqrtpoly(ex, st, dv)))
                    return base if q == 1 else R.mul(base, R.var(self.sqrtgen({0: q})))
        if q != 1:
            # sqrt(q*p): two generators, so that products with sqrt(q) simplify
            return R.mul(pull, R.mul(R.var(self.sqrtgen({0: q})), R.var(self.sqrtgen(p))))
        return R.mul(pull, R.var(self.sqrtgen(p)))

    def sqrtgen(self, p):
        R = self.R
        key = ('sqrt', tuple(sorted(p.items())))
        v = self.gens.get(key)
        if v is None:
            lo, hi = R.interval(p)
            h = None
            l = Fraction(0)
            if hi is not None:
                h = rootbound(max(hi, 0), 1)
                if lo > 0: l = rootbound(lo, 0)
            v = self.gens[key] = R.newvar('s%d' % len(R.names), 'sqrt', p, l, h)
            R.setrule(v, p)
        return v

    # ------------------------------------------------------------ transcendental functions
    def key(self, a): return (tuple(sorted(a.n.items())), a.d)

    def newangle(self, kind, args, s, c):
        key = (kind,) + tuple(self.key(x) for x in args)
        v = self.gens.get(key)
        if v is None:
            pi = Fraction(math.pi) + Fraction(1, 10**9)
            lo, hi = {'acos': (Fraction(0), pi), 'asin': (-pi / 2, pi / 2), 'atan': (-pi / 2, pi / 2), 'atan2': (-pi, pi)}[kind]
            v = self.gens[key] = self.R.newvar('%s%d' % (kind, len(self.R.names)), 'angle', (kind, args), lo, hi)
            self.angle[v] = (s, c)
        return Re(self.R.var(v))

    def sincos_term(self, ex, st, mono, coef, d):
        """sin and cos of coef*mono/d."""
        neg = coef < 0
        c = -coef if neg else coef
        if not d and mono and mono & (mono - 1) == 0:
            v = (mono.bit_length() - 1) // W
            c = Fraction(c)
            if mono == 1 << (W * v) and v in self.angle and c.denominator in (1, 2, 4) and c.numerator <= 6:
                s1, c1 = self.angle[v]
                sg = self.R.info[v][0] == 'acos'
                for _ in range(c.denominator.bit_length() - 1):
                    # half of an angle within a half turn either way
                    half = Re({0: Fraction(1, 2)})
                    ch = self.sqrt(ex, st, self.mulre(half, self.add(Re(ONE), c1)), True)
                    sh = self.sqrt(ex, st, self.mulre(half, self.add(Re(ONE), self.neg_re(c1))), True)
                    if not sg and ex.decide(st, self.satom(st, s1, NEG)): sh = self.neg_re(sh)
                    s1, c1 = sh, ch
                s0, c0 = Re({}), Re(ONE)
                for _ in range(c.numerator):
                    s0, c0 = self.add(self.mulre(s0, c1), self.mulre(c0, s1)), self.add(self.mulre(c0, c1), self.neg_re(self.mulre(s0, s1)))
                return (self.neg_re(s0) if neg else s0), c0
        key = ('sc', mono, norm(Fraction(c)), d)
        pr = self.gens.get(key)
        if pr is None:
            arg = Re({mono: c}, d)
            one = Fraction(1)
            cvr = self.R.newvar('cos%d' % len(self.R.names), 'cos', arg, -one, one)
            svr = self.R.newvar('sin%d' % len(self.R.names), 'sin', arg, -one, one)
            self.R.setrule(svr, {0: 1, 2 << (W * cvr): -1})
            pr = self.gens[key] = (svr, cvr)
        s = Re(self.R.var(pr[0]))
        return (self.neg_re(s) if neg else s), Re(self.R.var(pr[1]))

    def sincos(self, ex, st, a):
        if type(a) is Spec: return NAN, NAN
        s, c = Re({}), Re(ONE)
        for mono, coef in sorted(a.n.items()):
            s1, c1 = self.sincos_term(ex, st, mono, coef, a.d)
            s, c = self.add(self.mulre(s, c1), self.mulre(c, s1)), self.add(self.mulre(c, c1), self.neg_re(self.mulre(s, s1)))
        return s, c

    def opaque(self, name, args, lo=None, hi=None):
        key = ('fn', name) + tuple(self.key(x) for x in args)
        v = self.gens.get(key)
        if v is None:
            v = self.gens[key] = self.R.newvar('%s%d' % (name, len(self.R.names)), 'fn', (name, args), lo, hi)
        return Re(self.R.var(v))

    def power(self, ex, st, x, k):
        r = Re(ONE)
        for _ in range(abs(k)): r = self.mulre(r, x)
        if k < 0: return self.fbin(ex, st, 'fdiv', Re(ONE), r)
        return r

    def libm(self, ex, st, n, a):
        if any(x is UNDEF for x in a): raise EngineError("libm call on undefined value")
        if n in ('sqrtf', 'sqrt'): return self.sqrt(ex, st, a[0])
        if n in ('fabsf', 'fabs'): return self.absre(ex, st, a[0])
        if n == 'copysignf': return self.copysign(ex, st, a[0], a[1])
        if n == 'fmaf': return self.fbin(ex, st, 'fadd', self.fbin(ex, st, 'fmul', a[0], a[1]), a[2])
        if n in ('fminf', 'fmaxf'): return self.minmax(ex, st, a[0], a[1], n == 'fminf')
        if any(x is NAN for x in a): return NAN
        if n == 'hypotf': return self.sqrt(ex, st, self.fbin(ex, st, 'fadd', self.fbin(ex, st, 'fmul', a[0], a[0]), self.fbin(ex, st, 'fmul', a[1], a[1])))
        if n in ('sinf', 'cosf', 'sincosf', 'tanf'):
            s, c = self.sincos(ex, st, a[0])
            if n == 'tanf': return self.fbin(ex, st, 'fdiv', s, c)
            return s if n == 'sinf' else c if n == 'cosf' else Agg([s, c])
        one = Re(ONE)
        if n in ('acosf', 'asinf'):
            x = a[0]
            if type(x) is Spec: return NAN
            if ex.decide(st, self.satom(st, self.add(x, self.neg_re(one)), POS)): return NAN
            if ex.decide(st, self.satom(st, self.add(x, one), NEG)): return NAN
            o = self.sqrt(ex, st, self.add(one, self.neg_re(self.mulre(x, x))))
            c = self.cv(x)
            if c == 0 and n == 'asinf' or c == 1 and n == 'acosf': return Re({})
            return self.newangle('acos', [x], o, x) if n == 'acosf' else self.newangle('asin', [x], x, o)
        if n == 'atanf':
            x = a[0]
            if type(x) is Spec: raise EngineError("atan of infinity")
            r = self.sqrt(ex, st, self.add(one, self.mulre(x, x)), True)
            return self.newangle('atan', [x], self.mulre(x, self.inv(r)), self.inv(r))
        if n == 'atan2f':
            y, x = a
            if type(x) is Spec or type(y) is Spec: raise EngineError("atan2 of infinity")
            r2 = self.add(self.mulre(x, x), self.mulre(y, y))
            if ex.decide(st, self.satom(st, r2, ZERO)): return Re({})
            r = self.sqrt(ex, st, r2, True)
            ri = self.inv(r)
            return self.newangle('atan2', [y, x], self.mulre(y, ri), self.mulre(x, ri))
        if n == 'powf':
            x, y = a
            if type(x) is Spec or type(y) is Spec: raise EngineError("pow of infinity")
            c, b = self.cv(y), self.cv(x)
            if c is not None:
                if c.denominator == 1 and abs(c) <= 16: return self.power(ex, st, x, int(c))
                if c == Fraction(1, 2): return self.sqrt(ex, st, x)
                if c == Fraction(-1, 2): return self.fbin(ex, st, 'fdiv', one, self.sqrt(ex, st, x))
            if b is not None and b > 0:
                if abs(float(b) - math.e) < 1e-6: return self.expo(y)
                return self.opaque('pow', [x, y], Fraction(0))
            return self.opaque('pow', [x, y])
        if n == 'expf': return self.expo(a[0])
        if n in ('logf', 'exp2f', 'cbrtf', 'floorf', 'ceilf', 'truncf', 'roundf', 'fmodf') and not any(type(x) is Spec for x in a):
            return self.opaque(n, a)
        raise EngineError("libm %s in the real semantics" % n)

    def expo(self, y):
        if type(y) is Spec: return PINF if y.k == '+inf' else Re({}) if y.k == '-inf' else NAN
        if not y.n: return Re(ONE)
        lo, hi = (None, None) if y.d else self.R.interval(y.n)
        if lo is not None and float(hi) < 80:
            l, h = Fraction(math.exp(float(lo)) * 0.999999), Fraction(math.exp(float(hi)) * 1.000001)
        else: l, h = Fraction(0), None
        return self.opaque('exp', [y], l, h)

    def copysign(self, ex, st, a, b):
        m = self.absre(ex, st, a)
        if type(b) is Spec: return self.neg(m) if b.k == '-inf' else m
        return self.neg(m) if ex.decide(st, self.satom(st, b, NEG)) else m

    def minmax(self, ex, st, a, b, mn):
        if a is NAN: return b
        if b is NAN: return a
        return a if ex.decide(st, self.fcmp(ex, st, 'olt' if mn else 'ogt', a, b)) else b

    def intrinsic(self, ex, st, n, a, ts):
        if n.startswith('sqrt.f'): return self.sqrt(ex, st, a[0])
        if n.startswith('fabs.f'): return self.absre(ex, st, a[0])
        if n.startswith(('minnum.f', 'maxnum.f', 'minimumnum.f', 'maximumnum.f')): return self.minmax(ex, st, a[0], a[1], n.startswith('min'))
        if n.startswith('copysign.f'): return self.copysign(ex, st, a[0], a[1])
        if n.startswith(('fma.f', 'fmuladd.f')): return self.libm(ex, st, 'fmaf', a)
        if n.startswith('powi.f32') and type(a[1]) is int: return self.power(ex, st, a[0], sgn(a[1], 32))
        m = re.match(r'(sin|cos|exp|pow)\.f32', n)
        if m: return self.libm(ex, st, m.group(1) + 'f', a)
        m = re.match(r'fpto([su])i\.sat\.i(\d+)\.f', n)
        if m: return self.f2int(ex, st, a[0], int(m.group(2)), m.group(1) == 's')
        if n.startswith('is.fpclass'):
            x, mk = a[0], a[1]
            if x is NAN: return 1 if mk & 3 else 0
            if type(x) is Spec: return 1 if mk & (512 if x.k == '+inf' else 4) else 0
            if mk & 0x1f8 == 0x1f8: return 1
            if mk & 0x1f8 == 0: return 0
            raise EngineError("is.fpclass")
        return None

    def int2f(self, ex, st, v, w, signed, k):
        v = ex.concretize(st, v, w)
        x = sgn(v, w) if signed else v
        x = Fraction(f32(float(x))) if k == 'f' else Fraction(x)
        return Re({0: norm(x)}) if x else Re({})

    def f2int(self, ex, st, v, w, signed):
        c = self.cv(v)
        if c is None: raise EngineError("float to integer conversion of a symbolic real")
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        return max(lo, min(hi, math.trunc(c))) & ((1 << w) - 1)

    def fpext(self, v): return v
    def fptrunc(self, v): return v

    def from_bits(self, v, k):
        if isinstance(v, (Re, Spec)): return v
        raise EngineError("float from symbolic bits in the real semantics")

    def to_bv(self, v, w): raise EngineError("bits of a symbolic real")
    def b2i(self, ex, st, b): return ex.concretize(st, b, 1)

    def whole(self, pc):
        if type(pc) is Pc and len(pc.p) == 1 and isinstance(pc.p[0][0], (Re, Spec)) and pc.p[0][1] == 0 and pc.p[0][2] == pc.p[0][3]: return pc.p[0][0]
        return None

    def and_special(self, ex, st, a, m, w):
        f = self.whole(a)
        if f is None: return None
        if m == (1 << (w - 1)) - 1: return Pc([(self.absre(ex, st, f), 0, w // 8, w // 8)])
        if m == 1 << (w - 1):
            if type(f) is Spec: return m if f.k == '-inf' else 0
            return m if ex.decide(st, self.satom(st, f, NEG)) else 0
        return None

    def or_special(self, ex, st, a, b, w): return None

    def xor_special(self, ex, st, a, m, w):
        f = self.whole(a)
        if f is not None and m == 1 << (w - 1): return Pc([(self.neg(f), 0, w // 8, w // 8)])
        return None

    def icmp_special(self, ex, st, pred, a, b, w):
        fa, fb = self.whole(a), self.whole(b)
        if fa is not None and fb is not None and pred in ('eq', 'ne'):
            r = self.fcmp(ex, st, 'oeq', fa, fb)
            return (int(r) if isinstance(r, bool) else r) if pred == 'eq' else (int(not r) if isinstance(r, bool) else snot(r))
        return None

    def flookup(self, st, b): return None

    # ------------------------------------------------------------ z3
    def zvar(self, v):
        z = self.zv.get(v)
        if z is None: z = self.zv[v] = z3.Real(self.R.names[v])
        return z

    def zpolyraw(self, p):
        terms = []
        for m, c in p.items():
            fs = [q(c)] if c != 1 or m == 0 else []
            v = 0
            x = m
            while x:
                e = x & FM
                if e: fs += [self.zvar(v)] * e
                x >>= W
                v += 1
            terms.append(fs[0] if len(fs) == 1 else z3.Product(fs))
        return terms[0] if len(terms) == 1 else z3.Sum(terms) if terms else z3.RealVal(0)

    def zpoly(self, pid):
        z = self.zp.get(pid)
        if z is None: z = self.zp[pid] = self.zpolyraw(self.R.canon[pid])
        return z

    def zatom(self, pid, mask): return self.zmask(self.zpoly(pid), mask)

    def zmask(self, z, mask):
        return {NEG: z < 0, ZERO: z == 0, POS: z > 0, NEG | ZERO: z <= 0, POS | ZERO: z >= 0, NEG | POS: z != 0, 7: z3.BoolVal(True), 0: z3.BoolVal(False)}[mask]

    def b2z(self, b):
        if b is True or b is False: return z3.BoolVal(b)
        if b.op == 'z': return b.a[0]
        if b.op == 'r': return self.zatom(*b.a)
        if b.op == 'not': return z3.Not(self.b2z(b.a[0]))
        if b.op == 'and': return z3.And(self.b2z(b.a[0]), self.b2z(b.a[1]))
        if b.op == 'or': return z3.Or(self.b2z(b.a[0]), self.b2z(b.a[1]))
        raise EngineError("boolean " + b.op)

    def pids(self, b, acc):
        if b is True or b is False: return
        if b.op == 'r': acc.add(b.a[0])
        elif b.op in ('and', 'or', 'not'):
            for x in b.a: self.pids(x, acc)

    def defs(self, vs):
        """Definitional constraints for the given variables (closed under dependency)."""
        R = self.R
        out, seen, todo = [], set(), list(vs)
        while todo:
            v = todo.pop()
            if v in seen: continue
            seen.add(v)
            z = self.zvar(v)
            if R.lo[v] is not None: out.append(z >= q(R.lo[v]))
            if R.hi[v] is not None: out.append(z <= q(R.hi[v]))
            k = R.kind[v]
            w = self.unit_of.get(v)
            if w is not None and w not in seen:
                if len(R.info[w]) > 1 and ('ball', w) not in seen:
                    seen.add(('ball', w))
                    out.append(self.zpolyraw(R.rule[w]) >= 0)
                    todo += R.info[w]
            if k == 'sqrt':
                out.append(z * z == self.zpolyraw(R.info[v]))
                todo += R.varsof(R.info[v])
            elif k == 'abs':
                p = self.zpolyraw(R.info[v])
                out.append(z3.Or(z == p, z == -p))
                todo += R.varsof(R.info[v])
            elif k == 'unit':
                out.append(z * z == self.zpolyraw(R.rule[v]))
                todo += R.info[v]
            elif k == 'def':
                a = R.info[v]
                for f, e in a.d:
                    z = z3.Product([z] + [self.zpoly(f)] * e)
                    out.append(self.zpoly(f) != 0)
                    todo += R.pid_vars(f)
                out.append(z == self.zpolyraw(a.n))
                todo += R.varsof(a.n)
            elif k in ('sin', 'cos'):
                arg = R.info[v]
                (m, c), = arg.n.items()
                pr = self.gens[('sc', m, norm(Fraction(c)), arg.d)]
                if k == 'sin' or pr[0] not in seen:
                    out.append(self.zvar(pr[0]) * self.zvar(pr[0]) + self.zvar(pr[1]) * self.zvar(pr[1]) == 1)
                todo += [pr[0], pr[1]]
            elif k == 'fn' and R.info[v][0] == 'exp' and not R.info[v][1][0].d:
                # 1 + x <= e^x <= 1 / (1 - x)
                x = self.zpolyraw(R.info[v][1][0].n)
                out += [z > 0, z >= 1 + x, z3.Or(x >= 1, z * (1 - x) <= 1)]
                todo += R.varsof(R.info[v][1][0].n)
            elif k == 'angle' and self.plain_angle(v):
                # |sin t| <= |t|, cos t >= 1 - t^2/2
                s, c = (self.zpolyraw(x.n) for x in self.angle[v])
                out += [s * s <= z * z, c >= 1 - z * z / 2]
                for x in self.angle[v]: todo += R.varsof(x.n)
        return out, seen

    def constraints(self, st, extra, slicing=True):
        R = self.R
        acc = set()
        for b in extra: self.pids(b, acc)
        want = set()
        for p in acc: want |= self.closure(p)
        items = [(p, m) for p, m in st.signs.items()]
        res = []
        if slicing and extra:
            left = items
            changed = True
            while changed:
                changed = False
                nxt = []
                for p, m in left:
                    vs = self.closure(p)
                    if vs & want:
                        want |= vs
                        res.append((p, m))
                        changed = True
                    else: nxt.append((p, m))
                left = nxt
        else:
            res = items
            for p, m in items: want |= self.closure(p)
        es = [self.zatom(p, m) for p, m in res] + [self.b2z(b) for b in extra]
        ds, seen = self.defs(want)
        return es + ds

    def defined(self, st):
        """The roots that are defined on this path."""
        out = []
        for v, rule in self.R.rule.items():
            k = self.R.kind[v]
            if k not in ('sqrt', 'unit') or len(rule) < 2: continue
            if k == 'sqrt':
                pid, _, s = self.R.canonical(rule)
                if st.signs.get(pid, 7) & self.static_mask(pid) & (NEG if s > 0 else POS): continue
            out.append(v)
        return tuple(out)

    def folded(self, pid, roots):
        """The polynomial with radicands written as squares of the given roots."""
        R = self.R
        key = ('fold', pid, roots, len(self.alias))
        f = self.gens.get(key)
        if f is None:
            p = R.canon[pid]
            for v in roots:
                rule = R.rule[v]
                if len(rule) > len(p): continue
                lead = max((m for m in rule if m), key=lambda m: m)
                if lead not in p or not all(m in p or m == 0 for m in rule): continue
                c = Fraction(p[lead]) / Fraction(rule[lead])
                t = dict(p)
                for m, k in rule.items():
                    x = t.get(m, 0) - c * k
                    if x: t[m] = x
                    else: t.pop(m, None)
                sq = 2 << (W * v)
                t[sq] = t.get(sq, 0) + c
                if len(t) < len(p): p = t
            for v, y in self.alias.items():
                rule = R.info[v]
                if len(rule) > len(p): continue
                lead = max(rule)
                if lead not in p or not all(m in p or m == 0 for m in rule): continue
                c = Fraction(p[lead]) / Fraction(rule[lead])
                t = dict(p)
                for m, k in rule.items():
                    x = t.get(m, 0) - c * k
                    if x: t[m] = x
                    else: t.pop(m, None)
                t[1 << (W * y)] = c
                if len(t) < len(p): p = t
            f = self.gens[key] = p
        return f

    def shadow_unsat(self, ex, st, extra):
        """Unsatisfiable already over the generators alone, without their definitions?"""
        R = self.R
        acc = set()
        for b in extra: self.pids(b, acc)
        if not any(k in ('sqrt', 'abs') for k in R.kind): return False
        want = set()
        roots = self.defined(st)
        for p in acc: want |= set(R.varsof(self.folded(p, roots)))
        if not extra: want = {v for v in range(len(R.kind)) if R.kind[v] in ('sqrt', 'unit')}
        gens = {v for v in range(len(R.kind)) if R.kind[v] in ('sqrt', 'abs', 'alias')}
        if not want & gens and extra: return False
        ok = want | gens
        es, vs = [], set(want)
        for p, m in st.signs.items():
            if m == 7: continue
            f = self.folded(p, roots)
            fv = set(R.varsof(f))
            if fv <= ok and len(f) < 30:
                vs |= fv
                es.append(self.zmask(self.zpolyraw(f), m))
        for b in extra: es.append(self.b2z_folded(b, roots))
        for v in list(vs):
            y = self.alias.get(v)
            if y is not None:
                vs.add(y)
                es.append(z3.Or(self.zvar(v) == self.zvar(y), self.zvar(v) == -self.zvar(y)))
            elif R.kind[v] == 'abs' and set(R.varsof(R.info[v])) <= vs:
                z = self.zpolyraw(R.info[v])
                es.append(z3.Or(self.zvar(v) == z, self.zvar(v) == -z))
        for v in vs:
            z = self.zvar(v)
            if R.lo[v] is not None: es.append(z >= q(R.lo[v]))
            if R.hi[v] is not None: es.append(z <= q(R.hi[v]))
        r, _ = self.solve(ex, es, 300)
        return r == 'unsat'

    def b2z_folded(self, b, roots):
        if b is True or b is False: return z3.BoolVal(b)
        if b.op == 'r': return self.zmask(self.zpolyraw(self.folded(b.a[0], roots)), b.a[1])
        if b.op == 'not': return z3.Not(self.b2z_folded(b.a[0], roots))
        if b.op == 'and': return z3.And(self.b2z_folded(b.a[0], roots), self.b2z_folded(b.a[1], roots))
        if b.op == 'or': return z3.Or(self.b2z_folded(b.a[0], roots), self.b2z_folded(b.a[1], roots))
        return self.b2z(b)

    def plain_angle(self, v):
        """Sine and cosine of the angle variable are known and have no denominator."""
        sc = self.angle.get(v)
        return sc is not None and not any(type(x) is Spec or x.d for x in sc)

    def closure(self, pid):
        c = self.gens.get(('clo', pid))
        if c is None:
            R = self.R
            seen = set()
            todo = list(R.pid_vars(pid))
            while todo:
                v = todo.pop()
                if v in seen: continue
                seen.add(v)
                k = R.kind[v]
                if k in ('sqrt', 'abs'): todo += R.varsof(R.info[v])
                elif k == 'unit': todo += R.info[v]
                elif k == 'def': todo += list(R.varsof(R.info[v].n)) + [x for f, _ in R.info[v].d for x in R.pid_vars(f)]
                elif k == 'fn' and R.info[v][0] == 'exp' and not R.info[v][1][0].d: todo += R.varsof(R.info[v][1][0].n)
                elif k == 'angle' and self.plain_angle(v):
                    for x in self.angle[v]: todo += R.varsof(x.n)
            c = self.gens[('clo', pid)] = frozenset(seen)
        return c

    def feasible(self, ex, st, b, val):
        bb = b if val else snot(b)
        if b.op == 'z':
            r, _ = self.zquery(ex, st, [bb], False, 2000)
            return r != 'unsat'
        if not self.feas_ms: return True
        if bb.op == 'r' and bb.a[1] == ZERO and self.away_from_zero(st, bb.a[0]): return False
        key = (bb.key, tuple(sorted(st.signs.items())))
        r = self.qcache.get(key)
        if r is None and self.hunt:
            r = 'sat' if self.numeric(ex, st, [bb], tries=1) is not None else self.solve(ex, self.constraints(st, [bb]), self.feas_ms)[0]
            if r == 'unknown': r = 'unsat'
            self.qcache[key] = r
        if r is None:
            if len(self.R.canon[b.a[0]]) > 400: return True
            if self.shadow_unsat(ex, st, [bb]):
                self.qcache[key] = 'unsat'
                return False
            r, _ = self.solve(ex, self.constraints(st, [bb]), self.feas_ms)
            self.qcache[key] = r
        return r != 'unsat'

    def away_from_zero(self, st, pid, depth=3):
        """The path already excludes p = 0: p has a known sign, or a condition on |p| fails when |p| is replaced by zero."""
        if self.signmask(st, pid) & ZERO == 0: return True
        v = self.gens.get(('abs', pid))
        if v is None or depth == 0: return False
        R = self.R
        bit = FM << (W * v)
        for p, m in st.signs.items():
            c = R.canon[p]
            if m == 7 or not any(mo & bit for mo in c): continue
            rest = {mo: k for mo, k in c.items() if not mo & bit}
            if not rest:
                if m & ZERO == 0: return True
                continue
            if len(rest) == 1 and 0 in rest:
                if m & (POS if rest[0] > 0 else NEG) == 0: return True
                continue
            rp, k, s = R.canonical(rest)
            root = R.psqrt(R.canon[rp])
            if root is None: continue
            if m & (POS if s > 0 else NEG): continue
            for f, fm in st.signs.items():
                if fm & ZERO or len(R.canon[f]) > len(root): continue
                while True:
                    q = R.divexact(root, R.canon[f])
                    if q is None: break
                    root = q
                if len(root) == 1 and 0 in root: return True
            if self.away_from_zero(st, R.canonical(root)[0], depth - 1): return True
        return False

    def solve(self, ex, es, timeout, want_model=False):
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', int(timeout))
        for e in es: s.add(e)
        t = time.time()
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = 'unknown'
        S = ex.stats
        S['queries'] += 1
        S['solver_s'] += time.time() - t
        S[r] = S.get(r, 0) + 1
        return r, (s.model() if r == 'sat' and want_model else None)

    def zquery(self, ex, st, extra, want_model, timeout):
        es = [self.b2z(b if v else snot(b)) for b, v in st.pc if b.op == 'z'] + [self.b2z(b) for b in extra if b.op == 'z']
        return ex.run_solver(es, timeout, want_model)

    def query(self, ex, st, extra, want_model=False, timeout=None, only_z=False):
        if want_model and not extra:
            return self.zquery(ex, st, [], True, timeout or 5000)
        return self.solve(ex, self.constraints(st, extra), timeout or self.check_ms, want_model)

    # ------------------------------------------------------------ numeric evaluation / model search
    def evalvars(self, vals, arr=()):
        """Extend input values (dict var -> numpy array) to all generators; returns list of arrays (those known so far come first)."""
        R = self.R
        n = len(R.names)
        known = len(arr)
        arr = list(arr) + [None] * (n - known)
        for v in range(known, n):
            k = R.kind[v]
            if v in vals: arr[v] = vals[v]
            elif k == 'sqrt': arr[v] = np.sqrt(self.evalp(R.info[v], arr))
            elif k == 'alias': arr[v] = self.evalp(R.info[v], arr)
            elif k == 'def': arr[v] = self.evalre(R.info[v], arr)
            elif k == 'abs': arr[v] = np.abs(self.evalp(R.info[v], arr))
            elif k == 'unit': arr[v] = np.sqrt(np.maximum(self.evalp(R.rule[v], arr), 0.0))
            elif k == 'sin': arr[v] = np.sin(self.evalre(R.info[v], arr))
            elif k == 'cos': arr[v] = np.cos(self.evalre(R.info[v], arr))
            elif k in ('angle', 'fn'):
                name, args = R.info[v]
                xs = [self.evalre(x, arr) for x in args]
                f = {'acos': np.arccos, 'asin': np.arcsin, 'atan': np.arctan, 'atan2': np.arctan2, 'exp': np.exp, 'pow': np.power,
                     'logf': np.log, 'floorf': np.floor, 'ceilf': np.ceil, 'truncf': np.trunc, 'roundf': np.round, 'fmodf': np.fmod, 'exp2f': np.exp2, 'cbrtf': np.cbrt}[name]
                arr[v] = f(*xs)
            else: arr[v] = vals.get(v, np.zeros(1))
        return arr

    def evalp(self, p, arr):
        s = 0.0
        for m, c in p.items():
            fs = self.factors.get(m)
            if fs is None:
                fs, v, x = [], 0, m
                while x:
                    if x & FM: fs.append((v, x & FM))
                    x >>= W
                    v += 1
                self.factors[m] = fs
            t = float(c)
            for v, e in fs: t = t * (arr[v] if e == 1 else arr[v] ** e)
            s = s + t
        return s

    def evalre(self, a, arr):
        r = self.evalp(a.n, arr)
        for pid, e in a.d: r = r / self.evalp(self.R.canon[pid], arr) ** e
        return r

    def evalb(self, b, arr, margin):
        if b is True or b is False: return b
        if b.op == 'r':
            x = self.evalp(self.R.canon[b.a[0]], arr)
            m = b.a[1]
            r = np.zeros(np.shape(x), dtype=bool)
            if m & POS: r = r | (x > margin)
            if m & NEG: r = r | (x < -margin)
            if m & ZERO: r = r | (np.abs(x) <= (0 if m != ZERO else 1e-12))
            return r
        if b.op == 'z': return True
        if b.op == 'not': return ~self.evalb(b.a[0], arr, margin)
        x, y = self.evalb(b.a[0], arr, margin), self.evalb(b.a[1], arr, margin)
        return x & y if b.op == 'and' else x | y

    def sample(self, st, n, seed):
        rng = np.random.RandomState(seed)
        R = self.R
        vals = {}
        special = np.array([0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 0.25, -0.25])
        for k, v in st.inputs:
            if k == 'real':
                lo, hi = float(R.lo[v]), float(R.hi[v])
                x = rng.uniform(lo, hi, n)
                mode = rng.randint(0, 4, n)
                y = rng.choice(special, n)
                y = np.clip(y, lo, hi)
                x = np.where(mode == 0, y, x)
                mid = np.clip(rng.normal(0, 1, n), lo, hi)
                x = np.where(mode == 1, mid, x)
                z = rng.uniform(0, 1, n) ** 8 * (hi - lo)
                x = np.where(mode == 2, np.where(rng.randint(0, 2, n) == 0, np.clip(lo + z, lo, hi), np.clip(hi - z, lo, hi)), x)
                vals[v] = x.astype(np.float32).astype(float)
            elif k == 'unit':
                m = len(v)
                g = rng.normal(0, 1, (m, n))
                zero = rng.randint(0, 4, (m, n)) == 0
                keep = rng.randint(0, 3, n) == 0
                g = np.where(zero & keep, 0.0, g)
                g[0] = np.where(np.all(g == 0, axis=0), 1.0, g[0])
                # sometimes make one component dominate
                dom = rng.randint(0, m, n)
                boost = np.where(rng.randint(0, 3, n) == 0, 50.0, 1.0)
                for j in range(m): g[j] = np.where(dom == j, g[j] * boost, g[j])
                g = g / np.sqrt((g * g).sum(axis=0))
                for j in range(m): vals[v[j]] = g[j]
        return vals

    def numeric(self, ex, st, extra, tries=4):
        """Look for an input satisfying path condition and extra numerically; returns dict var->float or None."""
        atoms = [SB('r', p, m) for p, m in st.signs.items() if m != 7]
        from values import SB as _SB
        best = None
        with np.errstate(all='ignore'):
            for margin in (1e-4, 1e-7, 0.0):
                for t in range(tries):
                    key = (t, tuple((k, tuple(v) if k == 'unit' else v) for k, v in st.inputs if k in ('real', 'unit')))
                    vals, arr = self.points.get(key, (None, ()))
                    if vals is None: vals = self.sample(st, self.samples, 1000 * t + 7)
                    if len(arr) < len(self.R.names):
                        arr = self.evalvars(vals, arr)
                        if len(self.points) > 8: self.points.clear()
                        self.points[key] = (vals, arr)
                    ok = np.ones(self.samples, dtype=bool) if vals else np.ones(1, dtype=bool)
                    for b in atoms:
                        ok = ok & self.evalb(b, arr, margin)
                        if not ok.any(): break
                    if not ok.any(): continue
                    for b in extra:
                        ok = ok & self.evalb(b, arr, margin)
                        if not ok.any(): break
                    if ok.any():
                        i = int(np.argmax(ok))
                        return {v: float(x[i]) for v, x in vals.items()}
        return None

    def confirm(self, ex, st, extra, point, timeout=3000):
        """z3 query with the inputs pinned to the point (generators of transcendental kind to small intervals)."""
        R = self.R
        want = set()
        acc = set()
        for b in extra: self.pids(b, acc)
        for p in list(st.signs) + list(acc): want |= self.closure(p)
        arr = None
        with np.errstate(all='ignore'):
            arr = self.evalvars({v: np.array([x]) for v, x in point.items()})
        pins = []
        for v in want:
            z = self.zvar(v)
            k = R.kind[v]
            if k == 'in':
                pins.append(z == q(Fraction(point[v])) if v in point else z == 0)
            elif k == 'unit':
                pins.append(z >= 0 if point.get(v, 0) >= 0 else z <= 0)
            elif k in ('sin', 'cos', 'angle', 'fn'):
                x = float(np.ravel(arr[v])[0])
                if x == x and abs(x) < 1e30:
                    pins += [z >= q(Fraction(x) - Fraction(1, 10**6) * max(1, int(abs(x)))), z <= q(Fraction(x) + Fraction(1, 10**6) * max(1, int(abs(x))))]
        es = self.constraints(st, extra, slicing=False) + pins
        r, m = self.solve(ex, es, timeout)
        return r

    def point_inputs(self, ex, st, point):
        r, zm = self.zquery(ex, st, [], True, 5000)
        if r != 'sat': return None
        out = []
        for k, v in st.inputs:
            if k == 'choice': out.append(('c', v))
            elif k == 'real': out.append(('f', fbits(point.get(v, 0.0))))
            elif k == 'unit':
                for u in v: out.append(('f', fbits(point.get(u, 0.0))))
            else:
                val = zm.eval(v, model_completion=True)
                out.append(('i', val.as_signed_long() if k[0] == 'i' else val.as_long()))
        return out

    def model_point(self, st, m):
        pt = {}
        for k, v in st.inputs:
            for u in ([v] if k == 'real' else v if k == 'unit' else []):
                x = m.eval(self.zvar(u), model_completion=True)
                pt[u] = zfloat(x)
        # keep unit vectors on the sphere when z3 left some components free
        return pt

    def quick_inputs(self, ex, st):
        pt = self.numeric(ex, st, [], tries=1)
        return None if pt is None else self.point_inputs(ex, st, pt)

    def find_inputs(self, ex, st, extra):
        pt = self.numeric(ex, st, extra, tries=2)
        if pt is None:
            r, m = self.solve(ex, self.constraints(st, extra, slicing=False) + self.alldefs(st), self.check_ms, True)
            if r != 'sat': return None
            pt = self.model_point(st, m)
        return self.point_inputs(ex, st, pt)

    def alldefs(self, st):
        vs = []
        for k, v in st.inputs:
            if k == 'real': vs.append(v)
            elif k == 'unit': vs += v
        return self.defs(vs)[0]

    # ------------------------------------------------------------ checks
    def refute(self, ex, st, extra, kind, cid):
        """Decide path condition && extra.  Returns True if shown impossible; records a candidate or an undecided obligation otherwise."""
        # quick solver attempt first
        cons = self.constraints(st, extra)
        size = sum(len(self.R.canon[p]) for p in self.allpids(extra)) if extra else 0
        if size < 300 and not self.hunt:
            r, m = self.solve(ex, cons, 400)
            if r == 'unsat': return True
        if not self.hunt and self.shadow_unsat(ex, st, extra): return True
        pt = self.numeric(ex, st, extra)
        if pt is not None:
            r = 'hunt' if self.hunt else self.confirm(ex, st, extra, pt)
            inp = self.point_inputs(ex, st, pt)
            if inp is not None and r == 'unsat':
                # the point misses an exact condition by rounding: leave it to the solver, keep the point as a last resort
                if self.solve(ex, cons, self.check_ms)[0] == 'unsat': return True
            if inp is not None:
                ex.candidates.append(dict(kind=kind, id=cid, inputs=inp, solver=r))
                return False
        r, m = self.solve(ex, cons, self.check_ms)
        if r == 'unsat': return True
        if r == 'sat':
            r, m = self.solve(ex, self.constraints(st, extra, slicing=False) + self.alldefs(st), self.check_ms, True)
            if r == 'unsat': return True
            if r == 'sat':
                pt = self.model_point(st, m)
                inp = self.point_inputs(ex, st, pt)
                if inp is None: return True
                ex.candidates.append(dict(kind=kind, id=cid, inputs=inp, solver='sat'))
                return False
        if self.hunt: return True
        if __import__('os').environ.get('DBGU'):
            self.dump(st, extra)
        ex.undecided.append((kind, cid))
        return False

    def show(self, p):
        R = self.R
        def mono(m):
            o, v = [], 0
            while m:
                e = m & FM
                if e: o.append(R.names[v] + ('^%d' % e if e > 1 else ''))
                m >>= W
                v += 1
            return '*'.join(o) or '1'
        t = ['%s %s' % (c, mono(m)) for m, c in list(p.items())[:12]]
        return ' + '.join(t) + (' ...%d' % len(p) if len(p) > 12 else '')

    def dump(self, st, extra):
        import sys
        print('UNDECIDED', extra, file=sys.stderr)
        for p, m in st.signs.items(): print('  ', p, {1: '<0', 2: '=0', 4: '>0', 3: '<=0', 6: '>=0', 5: '!=0', 7: 'any'}.get(m, m), self.show(self.R.canon[p]), file=sys.stderr)
        for v, k in enumerate(self.R.kind):
            if k not in ('in',): print('   gen', self.R.names[v], k, self.show(self.R.info[v]) if isinstance(self.R.info[v], dict) else self.R.info[v], file=sys.stderr)

    def allpids(self, extra):
        acc = set()
        for b in extra: self.pids(b, acc)
        return acc

    def check(self, ex, st, c, cid):
        v = ex.truth(st, c) if not isinstance(c, bool) else c
        if v is True:
            ex.stats['trivial'] += 1
            return
        if v is False:
            self.violation(ex, st, [], 'check', cid)
            raise PathEnd()
        if not self.refute(ex, st, [snot(c)], 'check', cid): raise PathEnd()
        if c.op == 'r': ex.assume_b(st, c)

    def identity(self, ex, a, b):
        """a and b have the same normal form: let the solver confirm that they cannot differ."""
        ex.stats['identities'] = ex.stats.get('identities', 0) + 1
        key = ('id', self.key(a), self.key(b))
        if key in self.qcache or len(a.n) + len(b.n) > 400: return
        self.qcache[key] = True
        x, y = self.zpolyraw(a.n), self.zpolyraw(b.n)
        vs = set(self.R.varsof(a.n)) | set(self.R.varsof(b.n))
        for pid, e in a.d:
            if (pid, e) not in b.d:
                for _ in range(e): y = y * self.zpoly(pid)
                vs |= set(self.R.pid_vars(pid))
        for pid, e in b.d:
            if (pid, e) not in a.d:
                for _ in range(e): x = x * self.zpoly(pid)
                vs |= set(self.R.pid_vars(pid))
        r, _ = self.solve(ex, [x != y] + self.defs(vs)[0], 1000)
        if r == 'sat': raise EngineError("normal form and solver disagree on an identity")

    def check_same(self, ex, st, a, b, cid):
        if type(a) is Spec or type(b) is Spec:
            self.check(ex, st, type(a) is Spec and type(b) is Spec and a.k == b.k, cid)
            return
        a, b = self.unabs(st, a), self.unabs(st, b)
        d = self.add(a, self.neg_re(b))
        if not d.n:
            self.identity(ex, a, b)
            return
        self.check(ex, st, self.satom(st, d, ZERO), cid)

    def check_close(self, ex, st, a, b, tol, cid):
        if type(a) is Spec or type(b) is Spec:
            self.check(ex, st, False, cid)
            return
        a, b = self.unabs(st, a), self.unabs(st, b)
        d = self.add(a, self.neg_re(b))
        if not d.n:
            self.identity(ex, a, b)
            return
        hi = self.satom(st, self.add(d, self.neg_re(tol)), POS)
        lo = self.satom(st, self.add(d, tol), NEG)
        for x in (hi, lo):
            if x is False: continue
            if x is True:
                self.violation(ex, st, [], 'check', cid)
                raise PathEnd()
            v = ex.truth(st, x)
            if v is False: continue
            if not self.refute(ex, st, [x], 'check', cid): raise PathEnd()

    def violation(self, ex, st, extra, kind, cid):
        self.refute(ex, st, extra, kind, cid)


def mgcd(a, b):
    r, sh = 0, 0
    while a and b:
        r |= min(a & FM, b & FM) << sh
        a >>= W
        b >>= W
        sh += W
    return r


def q(c):
    c = Fraction(c)
    return z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)


def rootbound(x, up):
    """A rational bound of the square root of x >= 0 from below (up=0) or above (up=1), within 2^-40."""
    x = Fraction(x)
    return Fraction(math.isqrt((x.numerator << 80) // x.denominator) + up, 1 << 40)


def zfloat(x):
    if z3.is_rational_value(x):
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_algebraic_value(x):
        a = x.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return 0.0
