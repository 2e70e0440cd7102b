"""Bit-precise IEEE-754 semantics for floats (z3 FloatingPoint theory)."""
import math
import re
import struct
import numpy as np
import z3
from values import *
from execu import PathEnd, sgn

F32 = z3.Float32()
F64 = z3.Float64()
RNE = z3.RNE()
SQ = {'sqrtf': 32, 'sqrt': 64}


def b2f(b):
    return np.frombuffer(struct.pack('<I', b), dtype=np.float32)[0]


def f2b(f):
    return struct.unpack('<I', struct.pack('<f', f))[0] if not np.isnan(f) else 0x7fc00000


def b2d(b): return struct.unpack('<d', struct.pack('<Q', b))[0]
def d2b(d): return struct.unpack('<Q', struct.pack('<d', d))[0] if d == d else 0x7ff8000000000000


LIBM = {'sqrtf', 'fabsf', 'sinf', 'cosf', 'tanf', 'asinf', 'acosf', 'atanf', 'atan2f', 'powf', 'expf', 'logf', 'sincosf', 'fmaf',
        'fminf', 'fmaxf', 'hypotf', 'copysignf', 'floorf', 'ceilf', 'roundf', 'truncf', 'fmodf', 'exp2f', 'log2f', 'log10f', 'cbrtf',
        'sinhf', 'coshf', 'tanhf', 'rintf', 'fabs', 'sqrt', 'sin', 'cos', 'pow', 'exp'}


class Bits:
    name = 'bits'

    def __init__(self, ex):
        self.ex = ex
        self.inputs = {}
        self.qcache = {}
        self.bits_memo, self.bits_keep = {}, []
        self.check_timeout = ex.opts.get('check_ms', 20000)
        self.feas_ms = ex.opts.get('feas_ms', 0)     # 0: float branches are explored without a feasibility query

    # ------------------------------------------------------------ construction
    def const(self, bits, k):
        w = 32 if k == 'f' else 64
        n = FN('c', bits, w=w)
        if w == 32: n.fin = (bits & 0x7f800000) != 0x7f800000
        else: n.fin = (bits >> 52) & 0x7ff != 0x7ff
        return n

    def const_bits(self, v):
        return v.a[0] if isinstance(v, FN) and v.op == 'c' else None

    def has_libm(self, n): return n in LIBM

    def new_input(self, ex, st, kind, lo, hi):
        i = len(st.inputs)
        n = FN('in', i, kind, lo.a[0], hi.a[0]) if kind == 'range' else FN('in', i, kind)
        if kind in ('fin', 'range'): n.fin = True
        if kind == 'range': n.iv = (b2f(lo.a[0]), b2f(hi.a[0]))
        st.inputs.append(('f32', n))
        if kind == 'range':
            ex.assume_b(st, self.fcmp(ex, st, 'oge', n, lo))
            ex.assume_b(st, self.fcmp(ex, st, 'ole', n, hi))
        return n

    def new_unit(self, ex, st, k):
        raise EngineError("unit vectors are only available in the real semantics")

    def is_const(self, *a): return all(x.op == 'c' for x in a)

    def neg(self, a):
        if a is UNDEF: return a
        if a.op == 'c': return self.const(a.a[0] ^ (1 << (a.w - 1)), 'f' if a.w == 32 else 'd')
        if a.op == 'neg': return a.a[0]
        n = FN('neg', a, w=a.w)
        n.fin = a.fin
        if a.iv: n.iv = (-a.iv[1], -a.iv[0])
        return n

    def abs(self, a):
        if a.op == 'c': return self.const(a.a[0] & ~(1 << (a.w - 1)), 'f' if a.w == 32 else 'd')
        if a.op in ('neg', 'abs'): return self.abs(a.a[0]) if a.op == 'neg' else a
        n = FN('abs', a, w=a.w)
        n.fin = a.fin
        if a.iv: n.iv = a.iv if a.iv[0] >= 0 else (-a.iv[1], -a.iv[0]) if a.iv[1] <= 0 else (np.float32(0), max(-a.iv[0], a.iv[1]))
        return n

    def fbin(self, ex, st, op, a, b):
        op = op[1:]
        if a is UNDEF or b is UNDEF: return UNDEF
        if a.op == 'c' and b.op == 'c':
            with np.errstate(all='ignore'):
                if a.w == 32:
                    x, y = b2f(a.a[0]), b2f(b.a[0])
                    r = x + y if op == 'add' else x - y if op == 'sub' else x * y if op == 'mul' else np.float32(np.divide(x, y)) if op == 'div' else np.fmod(x, y)
                    return self.const(f2b(np.float32(r)), 'f')
                x, y = np.float64(b2d(a.a[0])), np.float64(b2d(b.a[0]))
                r = x + y if op == 'add' else x - y if op == 'sub' else x * y if op == 'mul' else np.divide(x, y) if op == 'div' else np.fmod(x, y)
                return self.const(d2b(float(r)), 'd')
        if op == 'sub':          # a - b == a + (-b) in IEEE arithmetic
            b = self.neg(b)
            op = 'add'
        if op in ('add', 'mul') and a.id > b.id: a, b = b, a
        n = FN(op, a, b, w=a.w)
        if a.w == 32 and n.iv is None and (a.iv or b.iv): self.bound(n, op, a, b)
        return n

    def ends(self, a):
        if a.iv: return a.iv
        return (b2f(a.a[0]),) * 2 if a.op == 'c' and a.fin else None

    def bound(self, n, op, a, b):
        """Interval of a result: rounding is monotone, so the extremes are reached at the ends."""
        x, y = self.ends(a), self.ends(b)
        if x is None or y is None or op not in ('add', 'mul', 'div'): return
        if op == 'div' and y[0] <= 0 <= y[1]: return
        f = {'add': np.add, 'mul': np.multiply, 'div': np.divide}[op]
        with np.errstate(all='ignore'):
            r = [f(x[0], y[0]), f(x[1], y[1])] if op == 'add' else [f(i, j) for i in x for j in y]
        if any(np.isnan(v) for v in r) or any(np.isinf(v) for v in x + y): return
        n.iv = (min(r), max(r))
        n.fin = bool(np.isfinite(n.iv[0]) and np.isfinite(n.iv[1]))

    def int2f(self, ex, st, v, w, signed, k):
        if type(v) is SB: v = ex.concretize(st, v, 1)
        if type(v) is int:
            x = sgn(v, w) if signed else v
            return self.const(f2b(np.float32(x)), 'f') if k == 'f' else self.const(d2b(float(x)), 'd')
        bv = ex.tobv(v, w)
        if w <= 8:
            return self.int2f(ex, st, ex.concretize(st, v, w), w, signed, k)
        n = FN('s2f' if signed else 'u2f', bv, w=32 if k == 'f' else 64)
        n.fin = True
        return n

    def f2int(self, ex, st, v, w, signed):
        if v.op == 'c':
            x = float(b2f(v.a[0])) if v.w == 32 else b2d(v.a[0])
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            if x != x: return 0
            return int(max(lo, min(hi, x if abs(x) == math.inf else math.trunc(x)))) & ((1 << w) - 1)
        z = self.z(v)
        bv = z3.fpToSBV(z3.RTZ(), z, z3.BitVecSort(w)) if signed else z3.fpToUBV(z3.RTZ(), z, z3.BitVecSort(w))
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        s = F32 if v.w == 32 else F64
        flo = z3.fpToFP(RNE, z3.RealVal(lo), s)
        fhi = z3.fpToFP(RNE, z3.RealVal(hi + 1), s)
        return z3.If(z3.fpIsNaN(z), z3.BitVecVal(0, w), z3.If(z3.fpLEQ(z, flo), z3.BitVecVal(lo, w), z3.If(z3.fpGEQ(z, fhi), z3.BitVecVal(hi, w), bv)))

    def fpext(self, v):
        if v.op == 'c': return self.const(d2b(float(b2f(v.a[0]))), 'd')
        n = FN('ext', v, w=64)
        n.fin = v.fin
        return n

    def fptrunc(self, v):
        if v.op == 'c':
            with np.errstate(all='ignore'): return self.const(f2b(np.float32(b2d(v.a[0]))), 'f')
        return FN('trn', v, w=32)

    def from_bits(self, v, k):
        if isinstance(v, FN): return v
        w = 32 if k == 'f' else 64
        bv = self.ex.tobv(v, w)
        bv = z3.simplify(bv)
        if z3.is_bv_value(bv): return self.const(bv.as_long(), k)
        return FN('bv', bv, w=w)

    def to_bv(self, v, w):
        if v.op == 'c': return z3.BitVecVal(v.a[0], v.w)
        if v.op == 'bv': return v.a[0]
        if v.bv is None:
            if v.op == 'in': v.bv = z3.BitVec('in_%d' % v.a[0], 32)
            elif v.op == 'neg': v.bv = self.to_bv(v.a[0], w) ^ z3.BitVecVal(1 << (v.w - 1), v.w)
            elif v.op == 'abs': v.bv = self.to_bv(v.a[0], w) & z3.BitVecVal((1 << (v.w - 1)) - 1, v.w)
            else: v.bv = z3.fpToIEEEBV(self.z(v))
        return v.bv

    def b2i(self, ex, st, b):
        return ex.concretize(st, b, 1)

    # bit tricks on float bits
    def whole(self, pc):
        if len(pc.p) == 1 and isinstance(pc.p[0][0], FN) and pc.p[0][1] == 0 and pc.p[0][2] == pc.p[0][3]: return pc.p[0][0]
        return None

    def and_special(self, ex, st, a, m, w):
        f = self.whole(a)
        if f is not None and m == (1 << (w - 1)) - 1:
            r = self.abs(f)
            return Pc([(r, 0, w // 8, w // 8)])
        return None

    def xor_special(self, ex, st, a, m, w):
        f = self.whole(a)
        if f is not None and m == 1 << (w - 1):
            return Pc([(self.neg(f), 0, w // 8, w // 8)])
        return None

    def or_special(self, ex, st, a, b, w): return None
    def icmp_special(self, ex, st, pred, a, b, w): return None

    # ------------------------------------------------------------ comparisons
    def fcmp(self, ex, st, pred, a, b):
        if a is UNDEF or b is UNDEF: raise EngineError("comparison of undefined float")
        if pred == 'true': return True
        if pred == 'false': return False
        if a.op == 'c' and b.op == 'c':
            x, y = (b2f(a.a[0]), b2f(b.a[0])) if a.w == 32 else (b2d(a.a[0]), b2d(b.a[0]))
            x, y = float(x), float(y)
            un = x != x or y != y
            p = pred[1:] if pred not in ('ord', 'uno') else pred
            if pred == 'ord': return not un
            if pred == 'uno': return un
            if un: return pred[0] == 'u'
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
        if pred == 'uno': return sor(self.nan(a), self.nan(b))
        if pred == 'ord': return snot(sor(self.nan(a), self.nan(b)))
        o, p = pred[0], pred[1:]
        if a is b:
            n = self.nan(a)
            if p in ('eq', 'le', 'ge'): return snot(n) if o == 'o' else True
            if p == 'ne': return n if o == 'u' else False
            return False if o == 'o' else n
        if o == 'u' and p != 'ne':
            inv = {'eq': 'one', 'lt': 'oge', 'le': 'ogt', 'gt': 'ole', 'ge': 'olt'}[p]
            return snot(self.fcmp(ex, st, inv, a, b))
        if p == 'ne':
            e = snot(self.fcmp(ex, st, 'oeq', a, b))
            if o == 'u': return e
            return sand(e, snot(sor(self.nan(a), self.nan(b))))
        if p == 'gt': return self.atom('lt', b, a)
        if p == 'ge': return self.atom('le', b, a)
        return self.atom(p, a, b)

    def nan(self, a):
        if a.fin or a.iv: return False
        if a.op == 'c': return math.isnan(b2f(a.a[0]) if a.w == 32 else b2d(a.a[0]))
        if a.op in ('neg', 'abs'): return self.nan(a.a[0])
        return SB('f', 'nan', a)

    def infc(self, x):
        """sign of an infinity constant, else 0"""
        if x.op != 'c': return 0
        m = (1 << (x.w - 1)) - 1
        e = 0x7f800000 if x.w == 32 else 0x7ff0000000000000
        if x.a[0] & m != e: return 0
        return -1 if x.a[0] >> (x.w - 1) else 1

    def infatom(self, a, s):
        """a == s*inf"""
        if a.fin: return False
        if a.iv:
            e = np.float32(s * np.inf)
            if a.iv[0] == a.iv[1] == e: return True
            if a.iv[1 if s > 0 else 0] != e: return False
        if a.op == 'c': return self.infc(a) == s
        if a.op == 'neg': return self.infatom(a.a[0], -s)
        if a.op == 'abs': return sor(self.infatom(a.a[0], 1), self.infatom(a.a[0], -1)) if s > 0 else False
        return SB('f', 'pinf' if s > 0 else 'ninf', a)

    def atom(self, p, a, b):
        ia, ib = self.infc(a), self.infc(b)
        if p == 'eq':
            if ib: return self.infatom(a, ib)
            if ia: return self.infatom(b, ia)
            x, y = self.ends(a), self.ends(b)
            if x and y and (x[1] < y[0] or y[1] < x[0]): return False
            if a.id > b.id: a, b = b, a
            if a.op == 'neg' and b.op == 'neg': return self.atom('eq', a.a[0], b.a[0])
            return SB('f', 'eq', a, b)
        if p == 'lt':
            if ib > 0: return sand(snot(self.nan(a)), snot(self.infatom(a, 1)))
            if ib < 0: return False
            if ia < 0: return sand(snot(self.nan(b)), snot(self.infatom(b, -1)))
            if ia > 0: return False
        if p == 'le':
            if ib > 0: return snot(self.nan(a))
            if ib < 0: return self.infatom(a, -1)
            if ia < 0: return snot(self.nan(b))
            if ia > 0: return self.infatom(b, 1)
        x, y = self.ends(a), self.ends(b)
        if x and y:
            if x[1] < y[0] or p == 'le' and x[1] == y[0]: return True
            if x[0] > y[1] or p == 'lt' and x[0] == y[1]: return False
        if a.op == 'neg' and b.op == 'neg': return self.atom(p, b.a[0], a.a[0])
        return SB('f', p, a, b)

    def flookup(self, st, b):
        """Cheap implications between float atoms."""
        op = b.a[0]
        k = st.known
        if op in ('lt', 'le', 'eq'):
            x, y = b.a[1], b.a[2]
            if op == 'lt':
                if k.get(('f', 'le', y.id, x.id)) is True or k.get(('f', 'lt', y.id, x.id)) is True: return False
                if k.get(('f', 'le', x.id, y.id)) is False: return False
            elif op == 'le':
                if k.get(('f', 'lt', x.id, y.id)) is True: return True
                if k.get(('f', 'lt', y.id, x.id)) is True: return False
                if k.get(('f', 'lt', y.id, x.id)) is False and self.notnan(st, x) and self.notnan(st, y): return True
            if k.get(('f', 'nan', x.id)) is True or k.get(('f', 'nan', y.id)) is True: return False
        elif op in ('pinf', 'ninf'):
            x = b.a[1]
            if k.get(('f', 'nan', x.id)) is True: return False
            if k.get(('f', 'ninf' if op == 'pinf' else 'pinf', x.id)) is True: return False
        elif op == 'nan':
            x = b.a[1]
            for q in ('pinf', 'ninf'):
                if k.get(('f', q, x.id)) is True: return False
        return None

    def notnan(self, st, x):
        n = self.nan(x)
        if n is False: return True
        if n is True: return False
        return st.known.get(n.key) is False

    def feasible(self, ex, st, b, val):
        if b.op == 'z':
            r, _ = self.query(ex, st, [b if val else snot(b)], False, 2000, only_z=True)
            return r != 'unsat'
        if self.feas_ms:
            r, _ = self.query(ex, st, [b if val else snot(b)], False, self.feas_ms)
            return r != 'unsat'
        return True

    # ------------------------------------------------------------ z3 encoding
    def z(self, n):
        if n.z is not None: return n.z
        op, a = n.op, n.a
        s = F32 if n.w == 32 else F64
        if op == 'c': r = z3.fpBVToFP(z3.BitVecVal(a[0], n.w), s)
        elif op == 'in':
            if n.bv is None: n.bv = z3.BitVec('in_%d' % a[0], 32)
            r = z3.fpBVToFP(n.bv, s)
        elif op == 'neg': r = z3.fpNeg(self.z(a[0]))
        elif op == 'abs': r = z3.fpAbs(self.z(a[0]))
        elif op == 'add': r = z3.fpAdd(RNE, self.z(a[0]), self.z(a[1]))
        elif op == 'mul': r = z3.fpMul(RNE, self.z(a[0]), self.z(a[1]))
        elif op == 'div': r = z3.fpDiv(RNE, self.z(a[0]), self.z(a[1]))
        elif op == 'rem': r = z3.fpRem(self.z(a[0]), self.z(a[1]))
        elif op == 'sqrt': r = z3.fpSqrt(RNE, self.z(a[0]))
        elif op == 'bv': r = z3.fpBVToFP(a[0], s)
        elif op == 's2f': r = z3.fpToFP(RNE, a[0], s) if hasattr(z3, 'fpToFP') else None
        elif op == 'u2f': r = z3.fpUnsignedToFP(RNE, a[0], s)
        elif op == 'ext': r = z3.fpToFP(RNE, self.z(a[0]), F64)
        elif op == 'trn': r = z3.fpToFP(RNE, self.z(a[0]), F32)
        elif op == 'rnd': r = z3.fpRoundToIntegral({'floorf': z3.RTN(), 'ceilf': z3.RTP(), 'truncf': z3.RTZ(), 'roundf': z3.RNA(), 'rintf': RNE}[a[0]], self.z(a[1]))
        elif op == 'fma': r = z3.fpFMA(RNE, self.z(a[0]), self.z(a[1]), self.z(a[2]))
        elif op == 'fn':
            r = z3.fpBVToFP(z3.BitVec('fn_%s_%d' % (a[0], n.id), n.w), s)    # arbitrary value, same arguments -> same value
        else: raise EngineError("float node " + op)
        n.z = r
        return r

    def b2z(self, b):
        if b is True or b is False: return z3.BoolVal(b)
        op = b.op
        if op == 'z': return b.a[0]
        if op == 'not': return z3.Not(self.b2z(b.a[0]))
        if op == 'and': return z3.And(self.b2z(b.a[0]), self.b2z(b.a[1]))
        if op == 'or': return z3.Or(self.b2z(b.a[0]), self.b2z(b.a[1]))
        k = b.a[0]
        x = self.z(b.a[1])
        if k == 'nan': return z3.fpIsNaN(x)
        if k == 'pinf': return z3.And(z3.fpIsInf(x), z3.Not(z3.fpIsNegative(x)))
        if k == 'ninf': return z3.And(z3.fpIsInf(x), z3.fpIsNegative(x))
        y = self.z(b.a[2])
        if k == 'lt': return z3.fpLT(x, y)
        if k == 'le': return z3.fpLEQ(x, y)
        if k == 'eq': return z3.fpEQ(x, y)
        if k == 'same': return x == y
        raise EngineError("atom " + k)

    def leaves(self, b, acc):
        """Input leaves and function leaves of a boolean (for slicing)."""
        if b is True or b is False: return
        if b.op in ('and', 'or', 'not'):
            for x in b.a: self.leaves(x, acc)
        elif b.op == 'z':
            acc.add('z')
        else:
            for x in b.a[1:]:
                if isinstance(x, FN): self.fleaves(x, acc)

    def fleaves(self, n, acc):
        st = [n]
        seen = set()
        while st:
            x = st.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.op in ('in', 'fn'): acc.add(x.id)
            if x.op in ('bv', 's2f', 'u2f'): acc.add('z')
            for y in x.a:
                if isinstance(y, FN): st.append(y)

    def input_facts(self, st):
        out = []
        for k, v in st.inputs:
            if k == 'f32' and isinstance(v, FN) and v.fin:
                z = self.z(v)
                out.append(z3.Not(z3.Or(z3.fpIsNaN(z), z3.fpIsInf(z))))
        return out

    def slice(self, st, extra):
        want = set()
        for b in extra: self.leaves(b, want)
        items = []
        for b, val in st.pc:
            acc = set()
            self.leaves(b, acc)
            items.append((acc, b if val else snot(b)))
        res = []
        changed = True
        left = items
        while changed:
            changed = False
            nxt = []
            for acc, b in left:
                if acc & want:
                    res.append(b)
                    want |= acc
                    changed = True
                else: nxt.append((acc, b))
            left = nxt
        return res

    def query(self, ex, st, extra, want_model=False, timeout=None, only_z=False, full=False):
        timeout = timeout or self.check_timeout
        if only_z:
            cons = [b if val else snot(b) for b, val in st.pc if b.op == 'z']
        elif full or want_model:
            cons = [b if val else snot(b) for b, val in st.pc]
        else:
            cons = self.slice(st, extra)
        es = [self.b2z(b) for b in cons] + [self.b2z(b) for b in extra]
        key = tuple(sorted(e.get_id() for e in es))
        if not want_model and key in self.qcache: return self.qcache[key][0], None
        facts = self.input_facts(st)
        r, m = ex.run_solver(es + facts, timeout, want_model)
        if r != 'unknown' and not want_model: self.qcache[key] = (r, es)
        return r, m

    # ------------------------------------------------------------ checks
    def check(self, ex, st, c, cid):
        v = ex.truth(st, c) if not isinstance(c, bool) else c
        if v is True:
            ex.stats['trivial'] += 1
            return
        if v is None:
            r, _ = self.query(ex, st, [snot(c)], False)
            if r == 'unsat': return
        self.violation(ex, st, [snot(c)] if v is None else [], 'check', cid)
        if v is None: ex.assume_b(st, c)
        else: raise PathEnd()

    def check_same(self, ex, st, a, b, cid):
        if a is UNDEF or b is UNDEF: raise EngineError("comparison of undefined value")
        if a is b:
            ex.stats['trivial'] += 1
            return
        if a.op == 'c' and b.op == 'c':
            self.check(ex, st, False, cid)
            return
        self.check(ex, st, SB('f', 'same', a, b), cid)

    def check_close(self, ex, st, a, b, tol, cid):
        if a is b:
            ex.stats['trivial'] += 1
            return
        d = self.fbin(ex, st, 'fsub', a, b)
        self.check(ex, st, self.fcmp(ex, st, 'ole', self.abs(d), tol), cid)

    # ------------------------------------------------------------ model search
    NPF = {'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'asin': np.arcsin, 'acos': np.arccos, 'atan': np.arctan, 'atan2': np.arctan2, 'pow': np.power,
           'exp': np.exp, 'log': np.log, 'hypot': np.hypot, 'log2': np.log2, 'log10': np.log10, 'exp2': np.exp2, 'fmod': np.fmod, 'cbrt': np.cbrt,
           'sinh': np.sinh, 'cosh': np.cosh, 'tanh': np.tanh}

    def draw(self, n, seed, fin):
        g = np.random.default_rng(seed)
        kind = g.integers(0, 8, n)
        x = g.integers(-3, 4, n).astype(np.float32)
        x = np.where(kind == 1, g.uniform(-2, 2, n), x)
        x = np.where(kind == 2, g.uniform(-1e-3, 1e-3, n), x)
        x = np.where(kind == 3, g.integers(0, 2, n), x)
        x = np.where(kind == 4, np.exp(g.uniform(-20, 20, n)) * g.choice([-1.0, 1.0], n), x)
        if not fin: x = np.where(kind == 5, g.choice([np.nan, np.inf, -np.inf, 3e38], n), x)
        # whole samples of plain numbers, so that long products stay in range
        row = np.random.default_rng(7).integers(0, 3, n)
        plain = g.integers(-3, 4, n)
        x = np.where(row == 0, plain, x)
        x = np.where(row == 1, g.uniform(-2, 2, n), x)
        return x.astype(np.float32)

    def evaluate(self, nodes, n, model):
        memo = {}
        stack = list(nodes)
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            need = [y for y in x.a if isinstance(y, FN) and y.id not in memo]
            if need:
                stack.extend(need)
                continue
            stack.pop()
            a = [memo[y.id] for y in x.a if isinstance(y, FN)]
            op = x.op
            if op == 'c': v = np.full(n, b2f(x.a[0]), np.float32) if x.w == 32 else np.full(n, b2d(x.a[0]))
            elif op == 'in': v = self.draw(n, 1000 + x.a[0], x.fin)
            elif op == 'neg': v = -a[0]
            elif op == 'abs': v = np.abs(a[0])
            elif op == 'add': v = a[0] + a[1]
            elif op == 'mul': v = a[0] * a[1]
            elif op == 'div': v = a[0] / a[1]
            elif op == 'rem': v = np.fmod(a[0], a[1])
            elif op == 'sqrt': v = np.sqrt(a[0])
            elif op == 'ext': v = a[0].astype(np.float64)
            elif op == 'trn': v = a[0].astype(np.float32)
            elif op == 'fma': v = (a[0].astype(np.float64) * a[1] + a[2]).astype(np.float32)
            elif op == 'rnd': v = {'floorf': np.floor, 'ceilf': np.ceil, 'truncf': np.trunc, 'roundf': np.round, 'rintf': np.rint}[x.a[0]](a[0])
            elif op == 'fn' and x.w == 32 and x.a[0].rstrip('f') in self.NPF: v = self.NPF[x.a[0].rstrip('f')](*[y.astype(np.float64) for y in a]).astype(np.float32)
            elif op in ('bv', 's2f', 'u2f') and model is not None:
                try: k = model.eval(x.a[0], model_completion=True).as_long()
                except Exception: return None
                if op == 'bv': v = np.full(n, b2f(k) if x.w == 32 else b2d(k))
                else:
                    if op == 's2f': k = sgn(k, x.a[0].size())
                    v = np.full(n, k, np.float32 if x.w == 32 else np.float64)
            else: return None
            memo[x.id] = v
        return memo

    def holds(self, b, memo, n, model):
        if b is True or b is False: return np.full(n, b)
        if b.op == 'z': return np.full(n, z3.is_true(model.eval(self.b2z(b), model_completion=True)))
        if b.op == 'not': return ~self.holds(b.a[0], memo, n, model)
        if b.op == 'and': return self.holds(b.a[0], memo, n, model) & self.holds(b.a[1], memo, n, model)
        if b.op == 'or': return self.holds(b.a[0], memo, n, model) | self.holds(b.a[1], memo, n, model)
        k = b.a[0]
        x = memo[b.a[1].id]
        if k == 'nan': return np.isnan(x)
        if k == 'pinf': return x == np.inf
        if k == 'ninf': return x == -np.inf
        y = memo[b.a[2].id]
        if k == 'lt': return x < y
        if k == 'le': return x <= y
        if k == 'eq': return x == y
        return (x == y) & (np.signbit(x) == np.signbit(y)) | np.isnan(x) & np.isnan(y)

    def guess(self, ex, st, extra, n=3000):
        """Look for a model of the path by evaluating it on a batch of values (the solver gives the integers); None when there is none in the batch."""
        cons = [b if val else snot(b) for b, val in st.pc] + list(extra)
        nodes, inner = [], []
        def gather(b):
            if b is True or b is False: return
            if b.op == 'z': inner.append(self.b2z(b))
            elif b.op in ('not', 'and', 'or'):
                for y in b.a: gather(y)
            else: nodes.extend(y for y in b.a[1:] if isinstance(y, FN))
        for b in cons: gather(b)
        if any(b is False for b in cons): return None
        zs = [self.b2z(b) for b in cons if b is not True and (b.op == 'z' or b.op == 'not' and b.a[0].op == 'z')]
        # integer constraints on the bits of a float tie it to the solver's model: leave those to the solver
        if any(self.on_bits(z) for z in inner): return None
        model = None
        if inner or any(k not in ('choice', 'f32') for k, _ in st.inputs):
            r, model = ex.run_solver(zs, 2000, True)
            if r != 'sat': return None
        with np.errstate(all='ignore'):
            memo = self.evaluate(nodes, n, model)
            if memo is None: return None
            okv = np.full(n, True)
            for b in cons: okv &= self.holds(b, memo, n, model)
        ix = np.flatnonzero(okv)
        if not len(ix): return None
        i = ix[0]
        out = []
        for k, v in st.inputs:
            if k == 'choice': out.append(('c', v))
            elif k == 'f32': out.append(('f', f2b(self.draw(n, 1000 + v.a[0], v.fin)[i])))
            else:
                e = model.eval(v, model_completion=True)
                out.append(('i', e.as_signed_long() if k[0] == 'i' else e.as_long()))
        return out

    def on_bits(self, z):
        k = z.get_id()
        r = self.bits_memo.get(k)
        if r is None:
            r = z3.is_const(z) and z.decl().kind() == z3.Z3_OP_UNINTERPRETED and z.decl().name().startswith(('in_', 'fn_', 'bits_'))
            r = r or any(self.on_bits(c) for c in z.children())
            self.bits_memo[k] = r
            self.bits_keep.append(z)
        return r

    def quick_inputs(self, ex, st):
        return self.guess(ex, st, [])

    def find_inputs(self, ex, st, extra):
        g = self.guess(ex, st, extra)
        if g is not None: return g
        r, m = self.query(ex, st, extra, True, ex.opts.get('reach_ms', 700), full=True)
        if r != 'sat': return None
        return self.model_inputs(st, m)

    def model_inputs(self, st, m):
        out = []
        for k, v in st.inputs:
            if k == 'choice': out.append(('c', v))
            elif k == 'f32':
                bv = z3.BitVec('in_%d' % v.a[0], 32)
                out.append(('f', m.eval(bv, model_completion=True).as_long()))
            else:
                out.append(('i', m.eval(v, model_completion=True).as_signed_long() if k[0] == 'i' else m.eval(v, model_completion=True).as_long()))
        return out

    def violation(self, ex, st, extra, kind, cid):
        g = self.guess(ex, st, extra)
        if g is not None:
            ex.candidates.append(dict(kind=kind, id=cid, inputs=g))
            return
        r, m = self.query(ex, st, extra, True, self.check_timeout * 2 if len(ex.undecided) < 3 else 2000, full=True)
        if r == 'unsat':
            ex.stats['pruned'] += 1
            return
        if r == 'unknown':
            ex.undecided.append((kind, cid))
            return
        ex.candidates.append(dict(kind=kind, id=cid, inputs=self.model_inputs(st, m)))

    # ------------------------------------------------------------ libm and intrinsics
    def libm(self, ex, st, n, a):
        w = 32 if n.endswith('f') else 64
        if n in ('sqrtf', 'sqrt'):
            x = a[0]
            if x.op == 'c':
                with np.errstate(all='ignore'):
                    return self.const(f2b(np.sqrt(b2f(x.a[0]))), 'f') if w == 32 else self.const(d2b(float(np.sqrt(b2d(x.a[0])))), 'd')
            n = FN('sqrt', x, w=w)
            if w == 32 and x.iv and x.iv[0] >= 0 and n.iv is None:
                n.iv = (np.sqrt(x.iv[0]), np.sqrt(x.iv[1]))
                n.fin = bool(np.isfinite(n.iv[1]))
            return n
        if n in ('fabsf', 'fabs'): return self.abs(a[0])
        if n == 'copysignf': return self.copysign(ex, st, a[0], a[1])
        if n == 'fmaf': return FN('fma', *a, w=32)
        if n in ('fminf', 'fmaxf'): return self.minmax(ex, st, a[0], a[1], n == 'fminf')
        if n in ('floorf', 'ceilf', 'truncf', 'roundf', 'rintf'):
            r = FN('rnd', n, a[0], w=32)
            r.fin = a[0].fin
            return r
        if n == 'sincosf': return Agg([FN('fn', 'sinf', a[0]), FN('fn', 'cosf', a[0])])
        if all(x.op == 'c' for x in a) and self.ex.opts.get('concrete'):
            v = self.concrete_libm(n, [float(b2f(x.a[0])) for x in a])
            return self.const(f2b(np.float32(v)), 'f')
        return FN('fn', n, *a, w=w)

    def concrete_libm(self, n, a):
        n = n[:-1]
        try:
            return {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'atan2': math.atan2,
                    'pow': math.pow, 'exp': math.exp, 'log': math.log, 'hypot': math.hypot}[n](*a)
        except (ValueError, OverflowError):
            return math.nan
        except KeyError:
            raise EngineError("libm " + n)

    def copysign(self, ex, st, a, b):
        if b.op == 'c': return self.neg(self.abs(a)) if b.a[0] >> (b.w - 1) else self.abs(a)
        bv = self.to_bv(b, b.w)
        s = ex.simpb(z3.Extract(b.w - 1, b.w - 1, bv) == 1)
        return self.neg(self.abs(a)) if ex.decide(st, s) else self.abs(a)

    def minmax(self, ex, st, a, b, mn):
        if ex.decide(st, self.nan(a)): return b
        if ex.decide(st, self.nan(b)): return a
        c = ex.decide(st, self.fcmp(ex, st, 'olt' if mn else 'ogt', a, b))
        return a if c else b

    def intrinsic(self, ex, st, n, a, ts):
        if n.startswith('sqrt.f'): return self.libm(ex, st, 'sqrtf' if n.endswith('32') else 'sqrt', a)
        if n.startswith('fabs.f'): return self.abs(a[0])
        if n.startswith(('minnum.f', 'maxnum.f', 'minimumnum.f', 'maximumnum.f')): return self.minmax(ex, st, a[0], a[1], n.startswith('min'))
        if n.startswith('copysign.f'): return self.copysign(ex, st, a[0], a[1])
        if n.startswith('fma.f'): return FN('fma', *a, w=32)
        if n.startswith('fmuladd.f'): return self.fbin(ex, st, 'fadd', self.fbin(ex, st, 'fmul', a[0], a[1]), a[2])
        m = re.match(r'fpto([su])i\.sat\.i(\d+)\.f', n)
        if m: return self.f2int(ex, st, a[0], int(m.group(2)), m.group(1) == 's')
        m = re.match(r'(floor|ceil|trunc|round|rint)\.f32', n)
        if m: return self.libm(ex, st, m.group(1) + 'f', a)
        if n.startswith('powi.f32') and type(a[1]) is int:
            k = sgn(a[1], 32)
            return FN('fn', 'powi%d' % k, a[0])
        if n.startswith('is.fpclass'):
            x = a[0]
            m = a[1]
            r = False
            if m & 3: r = sor(r, self.nan(x))
            if m & 4: r = sor(r, self.infatom(x, -1))
            if m & 512: r = sor(r, self.infatom(x, 1))
            if m & ~(3 | 4 | 512):
                rest = m & ~(3 | 4 | 512)
                if rest == 0x1f8: r = sor(r, snot(sor(self.nan(x), sor(self.infatom(x, 1), self.infatom(x, -1)))))
                else: raise EngineError("is.fpclass mask %x" % m)
            return b2v_(r)
        m = re.match(r'(sin|cos|exp|pow|log)\.f32', n)
        if m: return self.libm(ex, st, m.group(1) + 'f', a)
        return None


def b2v_(b):
    return int(b) if b is True or b is False else b
