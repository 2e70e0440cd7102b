"""Sparse multivariate polynomials over Q with rewrite rules v^2 -> p, used by the real-number semantics.

A monomial is one Python int: 10 bits of exponent per variable.  A polynomial is a dict {monomial: coefficient}.
"""
from fractions import Fraction
from math import gcd, isqrt

W = 10
FM = (1 << W) - 1


class Ring:
    def __init__(self):
        self.names = []        # variable names
        self.kind = []         # 'in' | 'sqrt' | 'sin' | 'cos' | 'exp' | 'fn'
        self.info = []         # kind specific payload
        self.rule = {}         # var -> poly for var^2
        self.conj = {}
        self.rulemask = 0      # bits set iff some rule variable has exponent >= 2
        self.lo = []           # interval bounds (Fraction or None)
        self.hi = []
        self.canon_ids = {}    # canonical poly key -> pid
        self.canon = []        # pid -> poly
        self.canon_vars = []

    # -------------------------------------------------------- variables
    def newvar(self, name, kind, info=None, lo=None, hi=None):
        self.names.append(name); self.kind.append(kind); self.info.append(info)
        self.lo.append(lo); self.hi.append(hi)
        return len(self.names) - 1

    def setrule(self, v, p):
        self.rule[v] = p
        self.rulemask |= ((FM ^ 1) << (W * v))

    def var(self, v):
        return {1 << (W * v): 1}

    # -------------------------------------------------------- arithmetic
    @staticmethod
    def add(a, b):
        if len(a) < len(b): a, b = b, a
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None: r[m] = c
            else:
                x = x + c
                if x == 0: del r[m]
                else: r[m] = x
        return r

    @staticmethod
    def sub(a, b):
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None: r[m] = -c
            else:
                x = x - c
                if x == 0: del r[m]
                else: r[m] = x
        return r

    @staticmethod
    def scale(a, k):
        if k == 0: return {}
        if k == 1: return a
        return {m: norm(c * k) for m, c in a.items()}

    def rawmul(self, a, b):
        r = {}
        if len(a) > len(b): a, b = b, a
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = m1 + m2
                x = r.get(m)
                r[m] = c1 * c2 if x is None else x + c1 * c2
        return {m: c for m, c in r.items() if c != 0}

    def mul(self, a, b):
        if not a or not b: return {}
        r = self.rawmul(a, b)
        if self.rulemask: r = self.reduce(r)
        return r

    def reduce(self, p):
        mask = self.rulemask
        while True:
            todo = None
            for m in p:
                if m & mask:
                    todo = m
                    break
            if todo is None: return p
            # rewrite the highest rule variable present with exponent >= 2 in all monomials
            v = (todo & mask).bit_length() - 1
            v //= W
            sh = W * v
            rest = {}
            byexp = {}
            for m, c in p.items():
                e = (m >> sh) & FM
                if e >= 2:
                    q, o = divmod(e, 2)
                    mm = m - ((e - o) << sh)
                    byexp.setdefault(q, {})[mm] = c
                else:
                    rest[m] = c
            rp = self.rule[v]
            pw = {1: rp}
            for q in sorted(byexp):
                if q not in pw:
                    base = rp
                    t = pw[max(k for k in pw if k < q)]
                    k = max(k for k in pw if k < q)
                    while k < q:
                        t = self.reduce(self.rawmul(t, base)); k += 1
                        pw[k] = t
                rest = self.add(rest, self.rawmul(byexp[q], pw[q]))
            p = {m: c for m, c in rest.items() if c != 0}

    def pow(self, a, n):
        r = {0: 1}
        while n:
            if n & 1: r = self.mul(r, a)
            n >>= 1
            if n: a = self.mul(a, a)
        return r

    # -------------------------------------------------------- canonical form
    def canonical(self, p):
        """p = k * sgn * C with k>0 and C primitive with positive leading coefficient -> (pid, k, sgn)."""
        lead = max(p)
        num, den = 0, 1
        for c in p.values():
            if type(c) is int:
                num = gcd(num, c)
            else:
                num = gcd(num, c.numerator)
                d = c.denominator
                den = den * d // gcd(den, d)
        k = Fraction(num, den)
        s = 1 if p[lead] > 0 else -1
        f = s / k
        q = {m: norm(c * f) for m, c in p.items()}
        key = tuple(sorted(q.items()))
        pid = self.canon_ids.get(key)
        if pid is None:
            pid = len(self.canon)
            self.canon_ids[key] = pid
            self.canon.append(q)
            self.canon_vars.append(None)
        return pid, k, s

    def varsof(self, p):
        u = 0
        for m in p: u |= m
        out = []
        v = 0
        while u:
            if u & FM: out.append(v)
            u >>= W
            v += 1
        return out

    def pid_vars(self, pid):
        r = self.canon_vars[pid]
        if r is None:
            r = self.canon_vars[pid] = self.varsof(self.canon[pid])
        return r

    # -------------------------------------------------------- division / roots
    def divrule(self, a, b):
        """a / b modulo the rules, for b linear in a rule variable v: multiply by the conjugate, divide by the norm."""
        if len(b) > 60 or len(a) > 400: return None
        for v in self.rule:
            sh = W * v
            if not any((m >> sh) & FM for m in b): continue
            if not any((m >> sh) & FM == 0 for m in b): continue
            key = (tuple(sorted(b.items())), v)
            cn = self.conj.get(key)
            if cn is None:
                c = {m: -x if (m >> sh) & FM else x for m, x in b.items()}
                cn = self.conj[key] = (c, self.mul(b, c))
            c, n = cn
            if not n or any((m >> sh) & FM for m in n): continue
            q = self.divexact(self.mul(a, c), n)
            if q is not None:
                q = self.reduce(q)
                if self.mul(q, b) == a: return q
        return None

    def divexact(self, a, b):
        """a / b if it divides exactly as polynomials (no rules), else None."""
        lb, la = max(b), max(a)
        if not mdiv(la, lb): return None
        tb, ta = min(b), min(a)
        if not mdiv(ta, tb): return None
        if len(b) == 1:
            cb = b[lb]
            q = {}
            for m, c in a.items():
                if not mdiv(m, lb): return None
                q[m - lb] = norm(Fraction(c) / cb)
            return q
        r = dict(a)
        q = {}
        cb = b[lb]
        items = [(m, c) for m, c in b.items() if m != lb]
        import heapq
        heap = [-m for m in r]
        heapq.heapify(heap)
        steps = 0
        lim = 4000
        while heap:
            m = -heapq.heappop(heap)
            c = r.pop(m, None)
            if c is None or c == 0: continue
            if not mdiv(m, lb): return None
            qm = m - lb
            qc = norm(Fraction(c) / cb)
            q[qm] = qc
            steps += 1
            if steps > lim: return None
            for m2, c2 in items:
                mm = qm + m2
                x = r.get(mm)
                if x is None:
                    r[mm] = -qc * c2
                    heapq.heappush(heap, -mm)
                else:
                    r[mm] = x - qc * c2
        return q

    def psqrt(self, p):
        """Polynomial square root of p as polynomials (no rules) or None."""
        lead, trail = max(p), min(p)
        for m in (lead, trail):
            x = m
            while x:
                if x & 1: return None
                x >>= W
        s = ratsqrt(p[lead])
        if s is None: return None
        lm = halfm(lead)
        root = {lm: s}
        r = self.sub(p, self.rawmul(root, root))
        steps = 0
        while r:
            m = max(r)
            if not mdiv(m, lm): return None
            qm = m - lm
            if qm >= lm or qm in root: return None
            qc = norm(Fraction(r[m]) / (2 * s))
            t = {qm: qc}
            # r -= 2*root*t + t^2
            r = self.sub(r, self.rawmul({0: 2}, self.rawmul(root, t)))
            r = self.sub(r, self.rawmul(t, t))
            root[qm] = qc
            steps += 1
            if steps > 60: return None
        return root

    # -------------------------------------------------------- intervals
    def interval(self, p, lo=None, hi=None):
        lo = lo or self.lo
        hi = hi or self.hi
        L, H = Fraction(0), Fraction(0)
        for m, c in p.items():
            a, b = Fraction(1), Fraction(1)
            v = 0
            x = m
            while x:
                e = x & FM
                if e:
                    vl, vh = lo[v], hi[v]
                    if vl is None or vh is None:
                        if e % 2 == 0 and False: pass
                        return None, None
                    pa, pb = vl ** e, vh ** e
                    if e % 2 == 0:
                        if vl >= 0: q = (pa, pb)
                        elif vh <= 0: q = (pb, pa)
                        else: q = (Fraction(0), max(pa, pb))
                    else:
                        q = (pa, pb)
                    cs = (a * q[0], a * q[1], b * q[0], b * q[1])
                    a, b = min(cs), max(cs)
                x >>= W
                v += 1
            if c > 0: L += c * a; H += c * b
            else: L += c * b; H += c * a
        return L, H

    def evalf(self, p, vals):
        s = 0.0
        for m, c in p.items():
            t = float(c)
            v = 0
            x = m
            while x:
                e = x & FM
                if e: t *= vals[v] ** e
                x >>= W
                v += 1
            s += t
        return s

    def tostr(self, p, lim=12):
        out = []
        for m, c in sorted(p.items(), reverse=True)[:lim]:
            t = str(c)
            v = 0
            x = m
            while x:
                e = x & FM
                if e: t += '*' + self.names[v] + ('^%d' % e if e > 1 else '')
                x >>= W; v += 1
            out.append(t)
        return ' + '.join(out) + (' ... (%d terms)' % len(p) if len(p) > lim else '') if out else '0'


def norm(c):
    if type(c) is int: return c
    if c.denominator == 1: return c.numerator
    return c


def mdiv(a, b):
    """monomial b divides a"""
    while b:
        if (a & FM) < (b & FM): return False
        a >>= W
        b >>= W
    return True


def halfm(m):
    r, sh = 0, 0
    while m:
        r |= ((m & FM) // 2) << sh
        m >>= W
        sh += W
    return r


def ratsqrt(c):
    c = Fraction(c)
    if c < 0: return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator: return norm(Fraction(a, b))
    return None


def squarefree(c):
    """c>0 rational = r^2 * k, k squarefree-ish integer (trial division by small primes only)."""
    c = Fraction(c)
    n = c.numerator * c.denominator
    r = Fraction(1, c.denominator)
    for q in (2, 3, 5, 7, 11, 13):
        while n % (q * q) == 0:
            n //= q * q
            r *= q
    s = isqrt(n)
    if s * s == n: return r * s, 1
    return r, n
