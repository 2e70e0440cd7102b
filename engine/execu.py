"""Symbolic executor for rustc's LLVM IR."""
import re
import time
import z3
from ir import Module, P, tokenize, ParseError, tsize, soffsets
from values import *

NEG, ZERO, POS = 1, 2, 4


class PathEnd(Exception):
    """The current path is finished or infeasible."""


class Obj:
    __slots__ = ('size', 'cells', 'owner', 'ro')

    def __init__(self, size, owner):
        self.size = size; self.cells = {}; self.owner = owner; self.ro = False

    def copy(self, owner):
        o = Obj.__new__(Obj)
        o.size = self.size; o.cells = dict(self.cells); o.owner = owner; o.ro = self.ro
        return o


class Frame:
    __slots__ = ('fn', 'code', 'ip', 'regs', 'dest', 'objs')

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.code = self.code; f.ip = self.ip; f.regs = self.regs[:]; f.dest = self.dest; f.objs = self.objs[:]
        return f


class State:
    __slots__ = ('frames', 'mem', 'uid', 'pc', 'known', 'signs', 'inputs', 'nchoice', 'fresh', 'reached', 'trace', 'signpc')


class Code:
    """Decoded function body."""
    __slots__ = ('ins', 'starts', 'template', 'pregs', 'name')


def bytes_of_int(v, n):
    return [(v >> (8 * i)) & 255 for i in range(n)]


class Executor:
    def __init__(self, modules, dom_factory, opts=None):
        self.modules = modules
        self.opts = opts or {}
        self.funcs = {}
        self.names = {}
        for m in modules:
            for k, v in m.functions.items():
                self.funcs.setdefault(k, v)
            self.names.update(m.names)
        self.codes = {}
        self.dom = dom_factory(self)
        self.next_obj = 1
        self.next_uid = 1
        self.globals = {}
        self.gmem = {}
        self.work = []
        self.stats = dict(paths=0, instructions=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, checks=0, guards=0, trivial=0,
                          pruned=0, functions=set())
        self.candidates = []      # potential violations: dict(kind, id, inputs, ...)
        self.undecided = []
        self.reach = {}
        self.builtin_cache = {}
        self.max_steps = self.opts.get('max_steps', 1_000_000_000)
        self.max_paths = self.opts.get('max_paths', 3_000_000)
        self.deadline = None
        self.prefix = []
        self.dims = ()
        self.stop_on_candidate = True

    # ------------------------------------------------------------------ memory
    def alloc(self, st, size):
        i = self.next_obj
        self.next_obj += 1
        st.mem[i] = Obj(size, st.uid)
        return (i, 0)

    def obj(self, st, p):
        if type(p) is not tuple:
            raise EngineError("dereference of non-pointer %r" % (p,))
        o = st.mem.get(p[0])
        if o is None:
            o = self.gmem.get(p[0])
            if o is None: raise EngineError("dangling pointer %r" % (p,))
        return o

    def wobj(self, st, p):
        if type(p) is not tuple:
            raise EngineError("store through non-pointer %r" % (p,))
        o = st.mem.get(p[0])
        if o is None: raise EngineError("store to dangling or constant object %r" % (p,))
        if o.owner != st.uid:
            o = o.copy(st.uid)
            st.mem[p[0]] = o
        return o

    def pieces(self, o, off, size):
        """List of (value, suboff, n, cellsize) covering [off, off+size)."""
        if off < 0 or off + size > o.size:
            raise EngineError("out of bounds access at %d+%d of %d" % (off, size, o.size))
        out = []
        cells = o.cells
        pos, end = off, off + size
        while pos < end:
            c = cells.get(pos)
            if c is not None:
                n = min(c[0], end - pos)
                out.append((c[1], 0, n, c[0]))
                pos += n
                continue
            # a cell starting earlier and overlapping?
            found = None
            for back in range(1, 16):
                c = cells.get(pos - back)
                if c is not None:
                    if c[0] > back: found = (c, back)
                    break
            if found:
                c, back = found
                n = min(c[0] - back, end - pos)
                out.append((c[1], back, n, c[0]))
                pos += n
            else:
                out.append((UNDEF, 0, 1, 1))
                pos += 1
        return out

    def clear(self, o, off, size):
        """Remove cells overlapping [off, off+size), splitting partial overlaps."""
        cells = o.cells
        lo = off - 15
        keys = [k for k in range(lo, off + size) if k in cells] if size < 64 else [k for k in cells if lo <= k < off + size]
        for k in keys:
            c = cells[k]
            if k + c[0] <= off: continue
            del cells[k]
            if k < off:
                for (pos, piece) in self.subcells(c, 0, off - k):
                    cells[k + pos] = piece
            if k + c[0] > off + size:
                for (pos, piece) in self.subcells(c, off + size - k, k + c[0] - off - size):
                    cells[off + size + pos] = piece

    def subcells(self, c, sub, n):
        """Cells describing bytes [sub, sub+n) of cell c."""
        return self.cells_of_piece((c[1], sub, n, c[0]))

    def cells_of_piece(self, pc):
        v, sub, n, csz = pc
        if v is UNDEF: return []
        if type(v) is Pc:
            out, pos, cur = [], 0, 0
            for q in v.p:
                a, b = max(sub, cur), min(sub + n, cur + q[2])
                if a < b:
                    for (k, piece) in self.cells_of_piece((q[0], q[1] + a - cur, b - a, q[3])):
                        out.append((a - sub + k, piece))
                cur += q[2]
            return out
        if sub == 0 and n == csz: return [(0, (n, v))]
        if type(v) is int:
            return [(0, (n, (v >> (8 * sub)) & ((1 << (8 * n)) - 1)))]
        return [(0, (n, Pc([(v, sub, n, csz)])))]

    def store(self, st, p, v, size):
        o = self.wobj(st, p)
        off = p[1]
        if off < 0 or off + size > o.size:
            raise EngineError("out of bounds store at %d+%d of %d" % (off, size, o.size))
        c = o.cells.get(off)
        if c is None or c[0] != size:
            self.clear(o, off, size)
        if v is UNDEF:
            o.cells.pop(off, None)
            return
        if type(v) is Pc:
            o.cells.pop(off, None)
            for (k, piece) in self.cells_of_piece((v, 0, size, size)):
                o.cells[off + k] = piece
            return
        o.cells[off] = (size, v)

    def load(self, st, p, t):
        o = self.obj(st, p)
        size = tsize(t)
        c = o.cells.get(p[1])
        if c is not None and c[0] == size:
            v = c[1]
        else:
            v = self.join(self.pieces(o, p[1], size))
        return self.astype(st, v, t)

    def join(self, ps):
        """Combine pieces into one value."""
        ps = self.flatten(ps)
        if len(ps) == 1:
            v, s, n, c = ps[0]
            if s == 0 and n == c: return v
        if all(type(x[0]) is int for x in ps):
            r, sh = 0, 0
            for v, s, n, c in ps:
                r |= ((v >> (8 * s)) & ((1 << (8 * n)) - 1)) << sh
                sh += 8 * n
            return r
        if all(x[0] is UNDEF for x in ps): return UNDEF
        return Pc(ps)

    def flatten(self, ps):
        out = []
        for v, s, n, c in ps:
            if type(v) is Pc:
                cur = 0
                for q in v.p:
                    a, b = max(s, cur), min(s + n, cur + q[2])
                    if a < b: out.append((q[0], q[1] + a - cur, b - a, q[3]))
                    cur += q[2]
            elif type(v) is int and not (s == 0 and n == c):
                out.append(((v >> (8 * s)) & ((1 << (8 * n)) - 1), 0, n, n))
            else:
                out.append((v, s, n, c))
        # merge adjacent pieces of the same opaque value
        res = []
        for x in out:
            if res and res[-1][0] is x[0] and type(x[0]) is not int and x[0] is not UNDEF and res[-1][1] + res[-1][2] == x[1]:
                y = res[-1]
                res[-1] = (y[0], y[1], y[2] + x[2], y[3])
            else:
                res.append(x)
        return res

    def astype(self, st, v, t):
        """Reinterpret a loaded value as type t."""
        k = t[0]
        if k in 'fd':
            if isinstance(v, (FN, Re, Spec)): return v
            if type(v) is int: return self.dom.const(v, k)
            if v is UNDEF: return v
            return self.dom.from_bits(v, k)
        if k == 'i':
            w = t[1]
            if type(v) is int: return v & ((1 << w) - 1)
            if isinstance(v, (FN, Re, Spec)):
                sz = tsize(t)
                return Pc([(v, 0, sz, sz)])
            if type(v) is SB and w > 1: return self.dom.b2i(self, st, v)
            return v
        if k == 'p':
            return v
        if k in 's':
            # struct load
            raise EngineError("aggregate load")
        raise EngineError("load type %r" % (t,))

    def memcpy(self, st, dst, src, n):
        if n == 0: return
        so = self.obj(st, src)
        ps = self.pieces(so, src[1], n)
        do = self.wobj(st, dst)
        if dst[1] < 0 or dst[1] + n > do.size: raise EngineError("memcpy out of bounds")
        self.clear(do, dst[1], n)
        pos = dst[1]
        cells = do.cells
        for pc in ps:
            v, s, m, c = pc
            if s == 0 and m == c and type(v) is not Pc:
                if v is not UNDEF: cells[pos] = (m, v)
            else:
                for (k, piece) in self.cells_of_piece(pc): cells[pos + k] = piece
            pos += m

    # ------------------------------------------------------------------ globals
    def global_ptr(self, module, name):
        if name in module.functions or name in self.funcs or name in module.declares:
            if name not in module.globals:
                return (('fn', name), 0)
        key = (module.path, name)
        p = self.globals.get(key)
        if p is not None: return p
        owner = module
        if name not in module.globals or re.match(r'^(external|available_externally) ', module.globals[name]):
            for m in self.modules:
                if name in m.globals and ' external ' not in ' ' + m.globals[name]:
                    owner = m
                    break
            else:
                raise EngineError("global " + name)
        i = self.next_obj
        self.next_obj += 1
        p = (i, 0)
        self.globals[key] = p
        rest = owner.globals[name]
        m = re.search(r'(?:^|\s)(constant|global)\s', rest)
        toks = P(tokenize(rest[m.end():]))
        t = toks.type()
        o = Obj(tsize(t), 0)
        self.gmem[i] = o
        if toks.peek() is None or toks.peek() == ',':
            raise EngineError("external global " + name)
        v = toks.value(t)
        self.init_global(owner, o, 0, t, v)
        return p

    def init_global(self, module, o, off, t, v):
        k = v[0]
        if k == 'b':
            for i, b in enumerate(v[1]): o.cells[off + i] = (1, b)
        elif k == 'c': o.cells[off] = (tsize(t), v[1])
        elif k == 'fc': o.cells[off] = (tsize(t), v[1])
        elif k == 'g':
            q = self.global_ptr(module, v[1])
            o.cells[off] = (8, (q[0], q[1] + v[2]))
        elif k == 'z':
            for i in range(tsize(t)): o.cells[off + i] = (1, 0)
        elif k == 'u': pass
        elif k == 'agg':
            if t[0] == 'a':
                offs = [i * tsize(t[2]) for i in range(t[1])]
            else:
                offs = soffsets(t)
            for oo, (et, ev) in zip(offs, v[1]): self.init_global(module, o, off + oo, et, ev)
        else:
            raise EngineError("global initialiser %r" % (v,))

    # ------------------------------------------------------------------ states
    def clone(self, st):
        n = State.__new__(State)
        n.frames = [f.copy() for f in st.frames]
        n.mem = dict(st.mem)
        self.next_uid += 2
        n.uid = self.next_uid
        st.uid = self.next_uid - 1
        n.pc = st.pc[:]
        n.known = dict(st.known)
        n.signs = dict(st.signs)
        n.signpc = st.signpc[:]
        n.inputs = st.inputs[:]
        n.nchoice = st.nchoice
        n.fresh = st.fresh
        n.reached = st.reached
        n.trace = st.trace[:]
        self.stats['forks'] += 1
        return n

    def assume(self, st, b, val=True):
        """Add b == val to the path condition (b an atom)."""
        if b.op == 'r':
            pid, mask = b.a
            if not val: mask = 7 ^ mask
            old = st.signs.get(pid, 7)
            new = old & mask
            if new == 0: raise PathEnd()
            st.signs[pid] = new
            st.signpc.append((pid, mask))
            return
        st.known[b.key] = val
        st.pc.append((b, val))

    def lookup(self, st, b):
        """Truth of atom b implied syntactically by the path condition, or None."""
        if b.op == 'r':
            pid, mask = b.a
            s = self.dom.signmask(st, pid)
            if s & mask == s: return True
            if s & mask == 0: return False
            return None
        v = st.known.get(b.key)
        if v is not None: return v
        if b.op == 'f': return self.dom.flookup(st, b)
        return None

    def truth(self, st, b):
        """Three-valued evaluation of b without forking."""
        if b is True or b is False: return b
        op = b.op
        if op == 'not':
            v = self.truth(st, b.a[0])
            return None if v is None else not v
        if op == 'and':
            x, y = self.truth(st, b.a[0]), self.truth(st, b.a[1])
            if x is False or y is False: return False
            if x is True and y is True: return True
            return None
        if op == 'or':
            x, y = self.truth(st, b.a[0]), self.truth(st, b.a[1])
            if x is True or y is True: return True
            if x is False and y is False: return False
            return None
        return self.lookup(st, b)

    def decide(self, st, b):
        if b is True or b is False: return b
        op = b.op
        if op == 'not': return not self.decide(st, b.a[0])
        if op == 'and': return self.decide(st, b.a[0]) and self.decide(st, b.a[1])
        if op == 'or': return self.decide(st, b.a[0]) or self.decide(st, b.a[1])
        v = self.lookup(st, b)
        if v is not None: return v
        ft = self.dom.feasible(self, st, b, True)
        if ft is False:
            self.assume(st, b, False)
            return False
        ff = self.dom.feasible(self, st, b, False)
        if ff is False:
            self.assume(st, b, True)
            return True
        c = self.clone(st)
        self.assume(c, b, False)
        self.work.append(c)
        self.assume(st, b, True)
        return True

    def assume_b(self, st, b):
        """Assume a boolean (any shape); forks only on disjunctions."""
        if b is True: return
        if b is False: raise PathEnd()
        if b.op == 'and':
            self.assume_b(st, b.a[0]); self.assume_b(st, b.a[1])
            return
        v = self.truth(st, b)
        if v is True: return
        if v is False: raise PathEnd()
        if b.op == 'not' and b.a[0].op not in ('and', 'or'):
            self.assume(st, b.a[0], False)
            return
        if b.op in ('r', 'f', 'z'):
            self.assume(st, b, True)
            return
        if not self.decide(st, b): raise PathEnd()

    # ------------------------------------------------------------------ integers
    def tobv(self, v, w):
        if type(v) is int: return z3.BitVecVal(v, w)
        if type(v) is SB:
            e = self.dom.b2z(v)
            return z3.If(e, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if type(v) is Pc:
            parts = []
            for (x, s, n, c) in v.p:
                if type(x) is int: parts.append(z3.BitVecVal(x, 8 * n))
                elif x is UNDEF: raise EngineError("use of uninitialised bytes")
                else:
                    b = self.dom.to_bv(x, 8 * c) if isinstance(x, (FN, Re, Spec)) else (x if not isinstance(x, tuple) else None)
                    if b is None: raise EngineError("pointer bytes in integer")
                    if b.size() < 8 * c: b = z3.ZeroExt(8 * c - b.size(), b)
                    if not (s == 0 and n == c): b = z3.Extract(8 * (s + n) - 1, 8 * s, b)
                    parts.append(b)
            r = parts[0] if len(parts) == 1 else z3.Concat(*reversed(parts))
            if r.size() > w: r = z3.Extract(w - 1, 0, r)
            elif r.size() < w: r = z3.ZeroExt(w - r.size(), r)
            return r
        if isinstance(v, z3.BitVecRef):
            if v.size() == w: return v
            if v.size() < w: return z3.ZeroExt(w - v.size(), v)
            return z3.Extract(w - 1, 0, v)
        if v is UNDEF: raise EngineError("use of undefined value")
        raise EngineError("not an integer: %r" % (v,))

    def simp(self, e):
        e = z3.simplify(e)
        if z3.is_bv_value(e): return e.as_long()
        return e

    def simpb(self, e):
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        return SB('z', e)

    def concretize(self, st, v, w):
        """Fork over the feasible values of a symbolic integer."""
        if type(v) is int: return v
        if type(v) is SB: return 1 if self.decide(st, v) else 0
        bv = self.tobv(v, w)
        bv = z3.simplify(bv)
        if z3.is_bv_value(bv): return bv.as_long()
        for _ in range(600):
            # bit-precise domain: integer constraints only (an over-approximation; every report is confirmed with all constraints)
            r, m = self.dom.query(self, st, [], True, None, only_z=True)
            if r == 'unsat': raise PathEnd()
            if r != 'sat': raise EngineError("cannot concretise index")
            x = m.eval(bv, model_completion=True).as_long()
            if self.decide(st, self.simpb(bv == x)): return x
        raise EngineError("too many index values")

    # ------------------------------------------------------------------ solver
    def query(self, st, extra, want_model=False, timeout=None):
        return self.dom.query(self, st, extra, want_model, timeout)

    def run_solver(self, exprs, timeout, want_model=False, tactic=None):
        s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
        s.set('timeout', int(timeout))
        for e in exprs: s.add(e)
        t = time.time()
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = 'unknown'
        dt = time.time() - t
        S = self.stats
        S['queries'] += 1
        S['solver_s'] += dt
        S[r] = S.get(r, 0) + 1
        return r, (s.model() if r == 'sat' and want_model else None)

    # ------------------------------------------------------------------ decoding
    def code_of(self, fn):
        c = self.codes.get(id(fn))
        if c is None:
            c = self.codes[id(fn)] = self.decode(fn)
            self.stats['functions'].add(fn.name)
        return c

    def decode(self, fn):
        regs = {}
        template = []

        def reg(n):
            i = regs.get(n)
            if i is None:
                i = regs[n] = len(template)
                template.append(None)
            return i
        consts = {}

        def const(v):
            k = (type(v).__name__, repr(v)) if not isinstance(v, (FN, Re, Spec)) else id(v)
            i = consts.get(k)
            if i is None:
                i = consts[k] = len(template)
                template.append(v)
            return i

        def conv(t, v):
            k = v[0]
            if k == 'c': return v[1]
            if k == 'fc': return self.dom.const(v[1], v[2])
            if k == 'u': return UNDEF if t[0] not in 'sa' else self.undef_agg(t)
            if k == 'g':
                p = self.global_ptr(fn.module, v[1])
                return (p[0], p[1] + v[2])
            if k == 'z':
                if t[0] == 's': return Agg([conv(x, ('z', x)) for x in t[1]])
                if t[0] == 'a': return Agg([conv(t[2], ('z', t[2])) for _ in range(t[1])])
                if t[0] in 'fd': return self.dom.const(0, t[0])
                return 0
            if k == 'agg': return Agg([conv(et, ev) for et, ev in v[1]])
            raise EngineError("constant %r" % (v,))

        def opnd(t, v):
            if v[0] == 'r': return reg(v[1])
            return const(conv(t, v))

        pregs = [reg(n) for t, n in fn.params]
        # split into blocks
        blocks = []
        cur = None
        name = None
        lines = fn.lines
        i = 0
        auto = None
        while i < len(lines):
            l = lines[i]
            i += 1
            if not l or l[0] == ';': continue
            if l[0] != ' ':
                m = re.match(r'^("[^"]*"|[-A-Za-z0-9_.$]+):', l)
                name = m.group(1).strip('"')
                cur = []
                blocks.append((name, cur))
                continue
            s = l.strip()
            if s[0] == ';': continue
            if cur is None:
                cur = []
                blocks.append(('__entry', cur))
            if s.startswith('switch'):
                while not s.rstrip().endswith(']') and ']' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            cur.append(s)
        ins = []
        starts = {}
        fix = []
        phis = {}      # block -> list of (dest, {pred: opnd})
        for name, body in blocks:
            starts[name] = len(ins)
            for s in body:
                try:
                    r = self.decode_ins(fn, s, reg, opnd, const, name, phis)
                except ParseError as e:
                    r = (Executor.i_unsupported, s + ' : ' + str(e))
                if r is not None: ins.append(r)
        # resolve branch targets
        res = []
        def edge(src, dst):
            moves = tuple((d, m[src]) for d, m in phis.get(dst, []) )
            return (starts[dst], moves)
        for x in ins:
            f = x[0]
            if f is Executor.i_br: x = (f, edge(x[2], x[1]))
            elif f in (Executor.i_condbr, Executor.i_guard): x = (f, x[1], edge(x[4], x[2]), edge(x[4], x[3]))
            elif f is Executor.i_switch: x = (f, x[1], x[2], edge(x[5], x[3]), tuple((v, edge(x[5], b)) for v, b in x[4]))
            res.append(x)
        c = Code()
        c.ins = res; c.starts = starts; c.template = template; c.pregs = pregs; c.name = fn.name
        return c

    def undef_agg(self, t):
        if t[0] == 's': return Agg([self.undef_agg(x) for x in t[1]])
        if t[0] == 'a': return Agg([self.undef_agg(t[2]) for _ in range(t[1])])
        return UNDEF

    CASTS = {'trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'freeze'}
    BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
    FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
    FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'inbounds', 'samesign', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'nusw'}

    def decode_ins(self, fn, s, reg, opnd, const, block, phis):
        E = Executor
        k = s.find(', !')
        if k >= 0: s = s[:k]
        p = P(tokenize(s))
        dest = None
        if p.peek()[0] == '%' and p.peek(1) == '=':
            dest = reg(p.next()[1:].strip('"'))
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        while p.peek() in self.FLAGS: p.next()
        if op == 'call':
            return self.decode_call(fn, p, dest, opnd)
        if op == 'load':
            p.accept('volatile')
            t = p.type(); p.expect(','); pt = p.type(); a = opnd(pt, p.value(pt))
            return (E.i_load, dest, a, t, tsize(t), t[0])
        if op == 'store':
            p.accept('volatile')
            t = p.type(); v = opnd(t, p.value(t)); p.expect(','); pt = p.type(); a = opnd(pt, p.value(pt))
            return (E.i_store, v, a, tsize(t), t)
        if op == 'alloca':
            t = p.type()
            return (E.i_alloca, dest, tsize(t))
        if op == 'br':
            if p.accept('label'): return (E.i_br, p.next()[1:].strip('"'), block)
            t = p.type(); c = opnd(t, p.value(t)); p.expect(','); p.expect('label'); a = p.next()[1:].strip('"'); p.expect(','); p.expect('label'); b = p.next()[1:].strip('"')
            return (E.i_guard if 'panic' in a or 'panic' in b else E.i_condbr, c, a, b, block)
        if op == 'switch':
            t = p.type(); v = opnd(t, p.value(t)); p.expect(','); p.expect('label'); d = p.next()[1:].strip('"'); p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cases.append((cv[1], p.next()[1:].strip('"')))
            return (E.i_switch, v, t[1], d, cases, block)
        if op == 'ret':
            t = p.type()
            if t[0] == 'v': return (E.i_ret, None)
            return (E.i_ret, opnd(t, p.value(t)))
        if op == 'unreachable': return (E.i_unreachable,)
        if op == 'getelementptr':
            t = p.type(); p.expect(','); pt = p.type(); b = opnd(pt, p.value(pt))
            off = 0
            dyn = []
            first = True
            cur = t
            while p.accept(','):
                it = p.type(); v = p.value(it)
                if first:
                    es = tsize(cur); first = False
                elif cur[0] == 'a':
                    cur = cur[2]; es = tsize(cur)
                else:
                    iv = v[1]
                    off += soffsets(cur)[iv]; cur = cur[1][iv]
                    continue
                if v[0] == 'c':
                    iv = v[1]
                    if iv >> (it[1] - 1): iv -= 1 << it[1]
                    off += iv * es
                else:
                    dyn.append((opnd(it, v), es, it[1]))
            return (E.i_gep, dest, b, off, tuple(dyn))
        if op in self.CASTS:
            t = p.type(); v = opnd(t, p.value(t))
            if op == 'freeze': return (E.i_mov, dest, v)
            p.expect('to'); t2 = p.type()
            return (getattr(E, 'i_' + op), dest, v, t, t2)
        if op == 'icmp':
            while p.peek() in self.FLAGS: p.next()
            pred = p.next()
            t = p.type(); a = opnd(t, p.value(t)); p.expect(','); b = opnd(t, p.value(t))
            return (E.i_icmp, dest, pred, a, b, t[1] if t[0] == 'i' else 64)
        if op == 'fcmp':
            while p.peek() in self.FLAGS: p.next()
            pred = p.next()
            t = p.type(); a = opnd(t, p.value(t)); p.expect(','); b = opnd(t, p.value(t))
            return (E.i_fcmp, dest, pred, a, b)
        if op == 'select':
            t = p.type(); c = opnd(t, p.value(t)); p.expect(','); t1 = p.type(); a = opnd(t1, p.value(t1)); p.expect(','); t2 = p.type(); b = opnd(t2, p.value(t2))
            return (E.i_select, dest, c, a, b)
        if op == 'phi':
            t = p.type()
            m = {}
            while p.accept('['):
                v = opnd(t, p.value(t)); p.expect(','); l = p.next()[1:].strip('"'); p.expect(']'); p.accept(',')
                m[l] = v
            phis.setdefault(block, []).append((dest, m))
            return None
        if op == 'extractvalue':
            t = p.type(); a = opnd(t, p.value(t))
            idx = []
            while p.accept(','): idx.append(int(p.next()))
            return (E.i_extract, dest, a, idx)
        if op == 'insertvalue':
            t = p.type(); a = opnd(t, p.value(t)); p.expect(','); t2 = p.type(); v = opnd(t2, p.value(t2))
            idx = []
            while p.accept(','): idx.append(int(p.next()))
            return (E.i_insert, dest, a, v, idx)
        if op in self.BIN:
            t = p.type(); a = opnd(t, p.value(t)); p.expect(','); b = opnd(t, p.value(t))
            if t[0] != 'i': raise ParseError("vector arithmetic")
            return (getattr(E, 'b_' + op), dest, a, b, t[1])
        if op in self.FBIN:
            t = p.type(); a = opnd(t, p.value(t)); p.expect(','); b = opnd(t, p.value(t))
            if t[0] not in 'fd': raise ParseError("vector arithmetic")
            return (E.i_fbin, dest, op, a, b)
        if op == 'fneg':
            t = p.type(); a = opnd(t, p.value(t))
            return (E.i_fneg, dest, a)
        raise ParseError("instruction " + op)

    def decode_call(self, fn, p, dest, opnd):
        E = Executor
        # skip calling convention and attributes up to the return type
        p.attrs()
        rt = p.type()
        if p.peek() == '(':       # function type
            d = 0
            while True:
                y = p.next()
                if y == '(': d += 1
                elif y == ')':
                    d -= 1
                    if d == 0: break
        callee = p.next()
        args = []
        p.expect('(')
        while not p.accept(')'):
            t = p.type()
            if t[0] == 'm':
                # metadata argument: skip to , or )
                while p.peek() not in (',', ')'): p.next()
                p.accept(',')
                continue
            p.attrs()
            args.append((opnd(t, p.value(t)), t))
            p.accept(',')
        if callee[0] == '%':
            return (E.i_callptr, dest, opnd(('p',), ('r', callee[1:].strip('"'))), tuple(a for a, t in args), rt)
        name = callee[1:].strip('"')
        if name.startswith('llvm.'):
            base = name[5:]
            if base.startswith(('lifetime', 'assume', 'experimental.noalias', 'dbg', 'prefetch', 'donothing')): return None
            return (E.i_intrinsic, dest, base, tuple(a for a, t in args), tuple(t for a, t in args), rt)
        b = self.find_builtin(fn.module, name)
        if b is not None:
            return (E.i_builtin, dest, b, tuple(a for a, t in args), name, rt)
        target = fn.module.functions.get(name) or self.funcs.get(name)
        if target is None:
            return (E.i_external, name, self.names.get(name, name))
        return (E.i_call, dest, target, tuple(a for a, t in args))

    PANIC = re.compile(r'core::panicking|unwrap_failed|expect_failed|slice_(start|end|index)|_fail\b|panic|copy_from_slice_impl::len_mismatch')

    def find_builtin(self, module, name):
        if name in self.builtin_cache: return self.builtin_cache[name]
        r = None
        if name.startswith('vp_'):
            r = getattr(self, 'x_' + name[3:], None)
            if r is None: raise EngineError("unknown harness primitive " + name)
        else:
            dm = self.names.get(name, '')
            m = re.match(r'^(?:libm::math::(?:.*::)?|libm::)(\w+)$', dm)
            if not m:
                m = re.search(r'4libm4math(?:\d+\w+?)*?(\d+)([a-z0-9_]+)$', name)
                fnm = m.group(2) if m else None
                if fnm and m and len(fnm) != int(m.group(1)): fnm = fnm[-int(m.group(1)):] if len(fnm) > int(m.group(1)) else fnm
            else:
                fnm = m.group(1)
            if fnm and self.dom.has_libm(fnm):
                r = ('libm', fnm)
            elif dm and self.PANIC.search(dm) and name not in module.functions:
                r = ('panic', dm)
            elif dm.startswith('core::panicking') or dm.startswith('<core::fmt') and False:
                r = ('panic', dm)
        self.builtin_cache[name] = r
        return r

    # ------------------------------------------------------------------ instructions
    def i_unsupported(self, st, fr, x):
        raise EngineError("unsupported instruction: " + x[1])

    def i_mov(self, st, fr, x):
        fr.regs[x[1]] = fr.regs[x[2]]

    def i_load(self, st, fr, x):
        p = fr.regs[x[2]]
        if type(p) is tuple:
            o = st.mem.get(p[0])
            if o is not None:
                c = o.cells.get(p[1])
                if c is not None and c[0] == x[4]:
                    v = c[1]
                    if type(v) is int and x[5] == 'i' and x[3][1] == 8 * x[4]:
                        fr.regs[x[1]] = v
                        return
        if x[5] in 'sa':
            fr.regs[x[1]] = self.load_agg(st, p, x[3])
            return
        fr.regs[x[1]] = self.load(st, p, x[3])

    def load_agg(self, st, p, t):
        if t[0] == 's':
            return Agg([self.load_agg(st, (p[0], p[1] + o), x) for o, x in zip(soffsets(t), t[1])])
        if t[0] == 'a':
            es = tsize(t[2])
            return Agg([self.load_agg(st, (p[0], p[1] + i * es), t[2]) for i in range(t[1])])
        return self.load(st, p, t)

    def store_agg(self, st, p, v, t):
        if t[0] == 's':
            for o, x, y in zip(soffsets(t), t[1], v): self.store_agg(st, (p[0], p[1] + o), y, x)
        elif t[0] == 'a':
            es = tsize(t[2])
            for i, y in enumerate(v): self.store_agg(st, (p[0], p[1] + i * es), y, t[2])
        else:
            self.store(st, p, v, tsize(t))

    def i_store(self, st, fr, x):
        v = fr.regs[x[1]]
        if type(v) is Agg:
            self.store_agg(st, fr.regs[x[2]], v, x[4])
            return
        if type(v) is SB: v = self.concretize(st, v, 1)
        self.store(st, fr.regs[x[2]], v, x[3])

    def i_alloca(self, st, fr, x):
        p = self.alloc(st, x[2])
        fr.objs.append(p[0])
        fr.regs[x[1]] = p

    def jump(self, fr, e):
        fr.ip = e[0]
        mv = e[1]
        if mv:
            regs = fr.regs
            vals = [regs[s] for d, s in mv]
            for (d, s), v in zip(mv, vals): regs[d] = v
        return True

    def i_br(self, st, fr, x):
        return self.jump(fr, x[1])

    def i_condbr(self, st, fr, x):
        c = fr.regs[x[1]]
        if type(c) is not int:
            c = self.i1(st, c)
        return self.jump(fr, x[2] if c else x[3])

    def i_guard(self, st, fr, x):
        self.stats['guards'] += 1
        return self.i_condbr(st, fr, x)

    def i1(self, st, c):
        if c is True: return 1
        if c is False: return 0
        if type(c) is int: return c & 1
        if type(c) is SB: return 1 if self.decide(st, c) else 0
        if c is UNDEF: raise EngineError("branch on undefined value")
        return self.concretize(st, c, 1)

    def i_switch(self, st, fr, x):
        v = fr.regs[x[1]]
        if type(v) is not int:
            if type(v) is SB: v = 1 if self.decide(st, v) else 0
            else:
                bv = self.tobv(v, x[2])
                for cv, e in x[4]:
                    if self.decide(st, self.simpb(bv == cv)): return self.jump(fr, e)
                return self.jump(fr, x[3])
        for cv, e in x[4]:
            if v == cv: return self.jump(fr, e)
        return self.jump(fr, x[3])

    def i_ret(self, st, fr, x):
        v = fr.regs[x[1]] if x[1] is not None else None
        st.frames.pop()
        mem = st.mem
        for o in fr.objs: mem.pop(o, None)
        if not st.frames: raise PathEnd()
        c = st.frames[-1]
        if fr.dest is not None: c.regs[fr.dest] = v
        c.ip += 1
        return True

    def i_unreachable(self, st, fr, x):
        raise EngineError("reached `unreachable` in " + fr.fn.name)

    def i_gep(self, st, fr, x):
        p = fr.regs[x[2]]
        off = x[3]
        for r, es, w in x[4]:
            v = fr.regs[r]
            if type(v) is not int: v = self.concretize(st, v, w)
            if v >> (w - 1): v -= 1 << w
            off += v * es
        if type(p) is tuple: fr.regs[x[1]] = (p[0], p[1] + off)
        elif type(p) is int: fr.regs[x[1]] = p + off
        else: raise EngineError("gep on %r" % (p,))

    # casts
    def i_trunc(self, st, fr, x):
        v = fr.regs[x[2]]
        w = x[4][1]
        if type(v) is int: fr.regs[x[1]] = v & ((1 << w) - 1)
        elif v is UNDEF: fr.regs[x[1]] = v
        elif type(v) is SB: fr.regs[x[1]] = v
        elif type(v) is Pc and w % 8 == 0: fr.regs[x[1]] = self.join(self.cut(v, 0, w // 8))
        else:
            e = z3.Extract(w - 1, 0, self.tobv(v, x[3][1]))
            fr.regs[x[1]] = self.simpb(e == 1) if w == 1 else self.simp(e)

    def cut(self, v, off, n):
        out, cur = [], 0
        for q in v.p:
            a, b = max(off, cur), min(off + n, cur + q[2])
            if a < b: out.append((q[0], q[1] + a - cur, b - a, q[3]))
            cur += q[2]
        return out

    def i_zext(self, st, fr, x):
        v = fr.regs[x[2]]
        if type(v) is int: fr.regs[x[1]] = v
        elif v is True or v is False: fr.regs[x[1]] = int(v)
        elif v is UNDEF: fr.regs[x[1]] = v
        elif type(v) is SB: fr.regs[x[1]] = 1 if self.decide(st, v) else 0
        elif type(v) is Pc:
            n = (x[4][1] - 8 * v.size()) // 8
            fr.regs[x[1]] = Pc(v.p + [(0, 0, n, n)]) if n > 0 else v
        else: fr.regs[x[1]] = self.simp(z3.ZeroExt(x[4][1] - x[3][1], self.tobv(v, x[3][1])))

    def i_sext(self, st, fr, x):
        v = fr.regs[x[2]]
        w, w2 = x[3][1], x[4][1]
        if type(v) is SB: v = 1 if self.decide(st, v) else 0
        if type(v) is int:
            if v >> (w - 1): v -= 1 << w
            fr.regs[x[1]] = v & ((1 << w2) - 1)
        else: fr.regs[x[1]] = self.simp(z3.SignExt(w2 - w, self.tobv(v, w)))

    def i_bitcast(self, st, fr, x):
        v = fr.regs[x[2]]
        fr.regs[x[1]] = self.bitcast(st, v, x[3], x[4])

    def bitcast(self, st, v, t, t2):
        if t2[0] in 'fd' and t[0] == 'i':
            if type(v) is int: return self.dom.const(v, t2[0])
            if type(v) is Pc:
                j = self.join(v.p)
                if isinstance(j, (FN, Re, Spec)): return j
            return self.dom.from_bits(v, t2[0])
        if t2[0] == 'i' and t[0] in 'fd':
            c = self.dom.const_bits(v)
            if c is not None: return c
            n = tsize(t)
            return Pc([(v, 0, n, n)])
        return v

    def i_ptrtoint(self, st, fr, x):
        v = fr.regs[x[2]]
        fr.regs[x[1]] = v

    def i_inttoptr(self, st, fr, x):
        fr.regs[x[1]] = fr.regs[x[2]]

    def i_uitofp(self, st, fr, x):
        fr.regs[x[1]] = self.dom.int2f(self, st, fr.regs[x[2]], x[3][1], False, x[4][0])

    def i_sitofp(self, st, fr, x):
        fr.regs[x[1]] = self.dom.int2f(self, st, fr.regs[x[2]], x[3][1], True, x[4][0])

    def i_fptoui(self, st, fr, x):
        fr.regs[x[1]] = self.dom.f2int(self, st, fr.regs[x[2]], x[4][1], False)

    def i_fptosi(self, st, fr, x):
        fr.regs[x[1]] = self.dom.f2int(self, st, fr.regs[x[2]], x[4][1], True)

    def i_fpext(self, st, fr, x):
        fr.regs[x[1]] = self.dom.fpext(fr.regs[x[2]])

    def i_fptrunc(self, st, fr, x):
        fr.regs[x[1]] = self.dom.fptrunc(fr.regs[x[2]])

    # comparisons
    def i_icmp(self, st, fr, x):
        a, b = fr.regs[x[3]], fr.regs[x[4]]
        fr.regs[x[1]] = self.icmp(st, x[2], a, b, x[5])

    def icmp(self, st, pred, a, b, w):
        if type(a) is int and type(b) is int:
            if pred == 'eq': return 1 if a == b else 0
            if pred == 'ne': return 1 if a != b else 0
            if pred[0] == 's':
                if a >> (w - 1): a -= 1 << w
                if b >> (w - 1): b -= 1 << w
            p = pred[1:]
            if p == 'lt': return 1 if a < b else 0
            if p == 'le': return 1 if a <= b else 0
            if p == 'gt': return 1 if a > b else 0
            return 1 if a >= b else 0
        if type(a) is tuple or type(b) is tuple:
            if type(a) is tuple and type(b) is tuple:
                if pred == 'eq': return 1 if a == b else 0
                if pred == 'ne': return 1 if a != b else 0
                if a[0] == b[0]: return self.icmp(st, pred, a[1], b[1], w)
            else:
                if pred == 'eq': return 0
                if pred == 'ne': return 1
            raise EngineError("pointer comparison")
        if w == 1 and (type(a) is SB or type(b) is SB):
            if type(b) is int: a, b = b, a
            if type(a) is int:
                if pred == 'eq': return b if a else snot(b)
                if pred == 'ne': return snot(b) if a else b
            a = self.i1(st, a); b = self.i1(st, b)
            return self.icmp(st, pred, a, b, 1)
        r = self.dom.icmp_special(self, st, pred, a, b, w)
        if r is not None: return r
        x, y = self.tobv(a, w), self.tobv(b, w)
        if pred == 'eq': e = x == y
        elif pred == 'ne': e = x != y
        elif pred == 'ult': e = z3.ULT(x, y)
        elif pred == 'ule': e = z3.ULE(x, y)
        elif pred == 'ugt': e = z3.UGT(x, y)
        elif pred == 'uge': e = z3.UGE(x, y)
        elif pred == 'slt': e = x < y
        elif pred == 'sle': e = x <= y
        elif pred == 'sgt': e = x > y
        else: e = x >= y
        r = self.simpb(e)
        return int(r) if isinstance(r, bool) else r

    def i_fcmp(self, st, fr, x):
        r = self.dom.fcmp(self, st, x[2], fr.regs[x[3]], fr.regs[x[4]])
        fr.regs[x[1]] = int(r) if r is True or r is False else r

    def i_select(self, st, fr, x):
        c = fr.regs[x[2]]
        if type(c) is not int: c = self.i1(st, c)
        fr.regs[x[1]] = fr.regs[x[3]] if c else fr.regs[x[4]]

    def i_extract(self, st, fr, x):
        v = fr.regs[x[2]]
        for i in x[3]: v = v[i]
        fr.regs[x[1]] = v

    def i_insert(self, st, fr, x):
        v = fr.regs[x[2]]
        fr.regs[x[1]] = self.insert(v, x[4], fr.regs[x[3]])

    def insert(self, agg, idx, v):
        a = Agg(agg)
        if len(idx) == 1: a[idx[0]] = v
        else: a[idx[0]] = self.insert(a[idx[0]], idx[1:], v)
        return a

    # integer arithmetic
    def binop(self, st, fr, x, conc, sym):
        a, b = fr.regs[x[2]], fr.regs[x[3]]
        w = x[4]
        if type(a) is int and type(b) is int:
            fr.regs[x[1]] = conc(a, b, w) & ((1 << w) - 1)
            return
        if a is UNDEF or b is UNDEF:
            fr.regs[x[1]] = UNDEF
            return
        if w == 1:
            fr.regs[x[1]] = conc(self.i1(st, a), self.i1(st, b), 1) & 1
            return
        fr.regs[x[1]] = self.simp(sym(self.tobv(a, w), self.tobv(b, w)))

    def b_add(self, st, fr, x):
        a, b = fr.regs[x[2]], fr.regs[x[3]]
        if type(a) is tuple and type(b) is int:
            fr.regs[x[1]] = (a[0], a[1] + sgn(b, 64)); return
        self.binop(st, fr, x, lambda a, b, w: a + b, lambda a, b: a + b)

    def b_sub(self, st, fr, x):
        a, b = fr.regs[x[2]], fr.regs[x[3]]
        if type(a) is tuple:
            if type(b) is tuple and a[0] == b[0]:
                fr.regs[x[1]] = (a[1] - b[1]) & ((1 << 64) - 1); return
            if type(b) is int:
                fr.regs[x[1]] = (a[0], a[1] - sgn(b, 64)); return
        self.binop(st, fr, x, lambda a, b, w: a - b, lambda a, b: a - b)

    def b_mul(self, st, fr, x): self.binop(st, fr, x, lambda a, b, w: a * b, lambda a, b: a * b)
    def b_udiv(self, st, fr, x): self.binop(st, fr, x, lambda a, b, w: a // b, z3.UDiv)
    def b_urem(self, st, fr, x): self.binop(st, fr, x, lambda a, b, w: a % b, z3.URem)
    def b_sdiv(self, st, fr, x): self.binop(st, fr, x, lambda a, b, w: tdiv(sgn(a, w), sgn(b, w)), lambda a, b: a / b)
    def b_srem(self, st, fr, x): self.binop(st, fr, x, lambda a, b, w: sgn(a, w) - sgn(b, w) * tdiv(sgn(a, w), sgn(b, w)), z3.SRem)

    def b_shl(self, st, fr, x):
        a, b, w = fr.regs[x[2]], fr.regs[x[3]], x[4]
        if type(a) is Pc and type(b) is int and b % 8 == 0:
            n = w // 8
            k = b // 8
            fr.regs[x[1]] = self.join(([(0, 0, k, k)] if k else []) + self.cut(a, 0, n - k)); return
        self.binop(st, fr, x, lambda a, b, w: a << b if b < w else 0, lambda a, b: a << b)

    def b_lshr(self, st, fr, x):
        a, b, w = fr.regs[x[2]], fr.regs[x[3]], x[4]
        if type(a) is Pc and type(b) is int and b % 8 == 0:
            n = w // 8
            k = b // 8
            fr.regs[x[1]] = self.join(self.cut(a, k, n - k) + ([(0, 0, k, k)] if k else [])); return
        self.binop(st, fr, x, lambda a, b, w: a >> b if b < w else 0, z3.LShR)

    def b_ashr(self, st, fr, x): self.binop(st, fr, x, lambda a, b, w: sgn(a, w) >> b, lambda a, b: a >> b)

    def b_and(self, st, fr, x):
        a, b, w = fr.regs[x[2]], fr.regs[x[3]], x[4]
        if w == 1 and (type(a) is not int or type(b) is not int):
            fr.regs[x[1]] = b2v(sand(v2b(a), v2b(b))); return
        if type(b) is Pc and type(a) is int: a, b = b, a
        if type(a) is Pc and type(b) is int:
            r = self.dom.and_special(self, st, a, b, w)
            if r is not None:
                fr.regs[x[1]] = r; return
            bs = bytes_of_int(b, w // 8)
            if all(y in (0, 255) for y in bs):
                out = []
                for i, y in enumerate(bs):
                    out += self.cut(a, i, 1) if y else [(0, 0, 1, 1)]
                fr.regs[x[1]] = self.join(out); return
        self.binop(st, fr, x, lambda a, b, w: a & b, lambda a, b: a & b)

    def b_or(self, st, fr, x):
        a, b, w = fr.regs[x[2]], fr.regs[x[3]], x[4]
        if w == 1 and (type(a) is not int or type(b) is not int):
            fr.regs[x[1]] = b2v(sor(v2b(a), v2b(b))); return
        if type(a) is Pc or type(b) is Pc:
            r = self.dom.or_special(self, st, a, b, w)
            if r is not None:
                fr.regs[x[1]] = r; return
            n = w // 8
            pa = a if type(a) is Pc else Pc([(a, 0, n, n)])
            pb = b if type(b) is Pc else Pc([(b, 0, n, n)])
            out, ok = [], True
            for i in range(n):
                ba, bb = self.join(self.cut(pa, i, 1)), self.join(self.cut(pb, i, 1))
                if type(bb) is int and bb == 0: out += self.cut(pa, i, 1)
                elif type(ba) is int and ba == 0: out += self.cut(pb, i, 1)
                else: ok = False; break
            if ok:
                fr.regs[x[1]] = self.join(out); return
        self.binop(st, fr, x, lambda a, b, w: a | b, lambda a, b: a | b)

    def b_xor(self, st, fr, x):
        a, b, w = fr.regs[x[2]], fr.regs[x[3]], x[4]
        if w == 1 and (type(a) is not int or type(b) is not int):
            if type(a) is int: a, b = b, a
            if type(b) is int:
                fr.regs[x[1]] = b2v(snot(v2b(a))) if b else a
                return
            p = self.i1(st, a)
            fr.regs[x[1]] = b2v(snot(v2b(b))) if p else b
            return
        if type(b) is Pc and type(a) is int: a, b = b, a
        if type(a) is Pc and type(b) is int:
            r = self.dom.xor_special(self, st, a, b, w)
            if r is not None:
                fr.regs[x[1]] = r; return
        self.binop(st, fr, x, lambda a, b, w: a ^ b, lambda a, b: a ^ b)

    def i_fbin(self, st, fr, x):
        fr.regs[x[1]] = self.dom.fbin(self, st, x[2], fr.regs[x[3]], fr.regs[x[4]])

    def i_fneg(self, st, fr, x):
        fr.regs[x[1]] = self.dom.neg(fr.regs[x[2]])

    # calls
    def i_call(self, st, fr, x):
        regs = fr.regs
        self.push(st, x[2], [regs[i] for i in x[3]], x[1])
        return True

    def push(self, st, fn, args, dest):
        c = self.codes.get(id(fn))
        if c is None: c = self.code_of(fn)
        f = Frame.__new__(Frame)
        f.fn = fn; f.code = c.ins; f.ip = 0; f.regs = c.template[:]; f.dest = dest; f.objs = []
        for r, v in zip(c.pregs, args): f.regs[r] = v
        st.frames.append(f)
        if len(st.frames) > 400: raise EngineError("call depth")

    def i_callptr(self, st, fr, x):
        p = fr.regs[x[2]]
        if type(p) is tuple and type(p[0]) is tuple and p[0][0] == 'fn':
            t = self.funcs.get(p[0][1])
            if t is None: raise EngineError("indirect call to " + p[0][1])
            self.push(st, t, [fr.regs[i] for i in x[3]], x[1])
            return True
        raise EngineError("indirect call")

    def i_external(self, st, fr, x):
        raise EngineError("call to unknown external function " + x[2])

    def i_builtin(self, st, fr, x):
        b = x[2]
        if type(b) is tuple:
            if b[0] == 'panic':
                self.panic(st, b[1])
                raise PathEnd()
            fr.regs[x[1]] = self.dom.libm(self, st, b[1], [fr.regs[i] for i in x[3]])
            return
        r = b(st, [fr.regs[i] for i in x[3]], fr, x)
        if x[1] is not None: fr.regs[x[1]] = r

    def i_intrinsic(self, st, fr, x):
        n = x[2]
        a = [fr.regs[i] for i in x[3]]
        r = self.intrinsic(st, n, a, x[4])
        if x[1] is not None: fr.regs[x[1]] = r

    def intrinsic(self, st, n, a, ts):
        if n.startswith('memcpy') or n.startswith('memmove'):
            k = self.concretize(st, a[2], 64)
            return self.memcpy(st, a[0], a[1], k)
        if n.startswith('memset'):
            k = self.concretize(st, a[2], 64)
            v = self.concretize(st, a[1], 8)
            o = self.wobj(st, a[0])
            if a[0][1] + k > o.size: raise EngineError("memset out of bounds")
            self.clear(o, a[0][1], k)
            for i in range(k): o.cells[a[0][1] + i] = (1, v)
            return None
        m = re.match(r'(uadd|usub|umul|sadd|ssub|smul)\.with\.overflow\.i(\d+)', n)
        if m:
            op, w = m.group(1), int(m.group(2))
            return self.with_overflow(op, w, a[0], a[1])
        m = re.match(r'(uadd|usub|sadd|ssub)\.sat\.i(\d+)', n)
        if m:
            op, w = m.group(1), int(m.group(2))
            if type(a[0]) is int and type(a[1]) is int:
                if op[0] == 'u':
                    r = a[0] + a[1] if op == 'uadd' else a[0] - a[1]
                    return max(0, min((1 << w) - 1, r))
                x, y = sgn(a[0], w), sgn(a[1], w)
                r = x + y if op == 'sadd' else x - y
                return max(-(1 << (w - 1)), min((1 << (w - 1)) - 1, r)) & ((1 << w) - 1)
            x, y = self.tobv(a[0], w), self.tobv(a[1], w)
            if op == 'uadd': return self.simp(z3.If(z3.BVAddNoOverflow(x, y, False), x + y, z3.BitVecVal(-1, w)))
            if op == 'usub': return self.simp(z3.If(z3.UGE(x, y), x - y, z3.BitVecVal(0, w)))
            raise EngineError("intrinsic " + n)
        m = re.match(r'(umin|umax|smin|smax)\.i(\d+)', n)
        if m:
            op, w = m.group(1), int(m.group(2))
            pred = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[op]
            c = self.icmp(st, pred, a[0], a[1], w)
            return a[0] if self.i1(st, c) else a[1]
        if n.startswith('expect.'): return a[0]
        if n.startswith('is.constant'): return 0
        m = re.match(r'(ctlz|cttz|ctpop|bswap|bitreverse|abs)\.i(\d+)', n)
        if m:
            w = int(m.group(2))
            v = self.concretize(st, a[0], w)
            op = m.group(1)
            if op == 'ctlz': return w - v.bit_length()
            if op == 'cttz': return w if v == 0 else (v & -v).bit_length() - 1
            if op == 'ctpop': return bin(v).count('1')
            if op == 'bswap': return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
            if op == 'bitreverse': return int(bin(v)[2:].zfill(w)[::-1], 2)
            return abs(sgn(v, w)) & ((1 << w) - 1)
        m = re.match(r'(fshl|fshr)\.i(\d+)', n)
        if m:
            w = int(m.group(2))
            x, y, s = [self.concretize(st, v, w) for v in a]
            s %= w
            full = (x << w) | y
            return ((full << s) >> w) & ((1 << w) - 1) if m.group(1) == 'fshl' else (full >> s) & ((1 << w) - 1)
        m = re.match(r'(u|s)cmp\.i(\d+)\.i(\d+)', n)
        if m:
            wr, w = int(m.group(2)), int(m.group(3))
            p = m.group(1)
            if self.i1(st, self.icmp(st, p + 'lt', a[0], a[1], w)): return (1 << wr) - 1
            return 0 if self.i1(st, self.icmp(st, 'eq', a[0], a[1], w)) else 1
        if n in ('trap', 'debugtrap', 'ubsantrap'):
            self.panic(st, 'trap')
            raise PathEnd()
        r = self.dom.intrinsic(self, st, n, a, ts)
        if r is None: raise EngineError("intrinsic " + n)
        return r

    def with_overflow(self, op, w, a, b):
        if type(a) is int and type(b) is int:
            if op[0] == 'u':
                r = a + b if op == 'uadd' else (a - b if op == 'usub' else a * b)
                return Agg([r & ((1 << w) - 1), 1 if r < 0 or r >> w else 0])
            x, y = sgn(a, w), sgn(b, w)
            r = x + y if op == 'sadd' else (x - y if op == 'ssub' else x * y)
            return Agg([r & ((1 << w) - 1), 0 if -(1 << (w - 1)) <= r < (1 << (w - 1)) else 1])
        x, y = self.tobv(a, w), self.tobv(b, w)
        ext = z3.ZeroExt if op[0] == 'u' else z3.SignExt
        X, Y = ext(w, x), ext(w, y)
        full = X + Y if op.endswith('add') else (X - Y if op.endswith('sub') else X * Y)
        lo = z3.Extract(w - 1, 0, full)
        o = self.simpb(full != ext(w, lo))
        return Agg([self.simp(lo), int(o) if isinstance(o, bool) else o])

    # ------------------------------------------------------------------ harness primitives
    def rdstr(self, st, p, n):
        o = self.obj(st, p)
        return bytes(o.cells[p[1] + i][1] for i in range(n)).decode()

    def x_f32(self, st, a, fr, x):
        return self.dom.new_input(self, st, 'f32', None, None)

    def x_fin(self, st, a, fr, x):
        return self.dom.new_input(self, st, 'fin', None, None)

    def x_range(self, st, a, fr, x):
        return self.dom.new_input(self, st, 'range', a[0], a[1])

    def x_unit(self, st, a, fr, x):
        n = self.concretize(st, a[0], 32)
        vs = self.dom.new_unit(self, st, n)
        for i, v in enumerate(vs): self.store(st, (a[1][0], a[1][1] + 4 * i), v, 4)

    def sym_int(self, st, kind, w):
        i = len(st.inputs)
        v = z3.BitVec('%s_%d' % (kind, i), w)
        st.inputs.append((kind, v))
        return v

    def x_u8(self, st, a, fr, x): return self.sym_int(st, 'u8', 8)
    def x_i8(self, st, a, fr, x): return self.sym_int(st, 'i8', 8)
    def x_u16(self, st, a, fr, x): return self.sym_int(st, 'u16', 16)
    def x_i32(self, st, a, fr, x): return self.sym_int(st, 'i32', 32)

    def x_pin(self, st, a, fr, x): return self.concretize(st, a[0], 8)

    def x_choose(self, st, a, fr, x):
        n = self.concretize(st, a[0], 8)
        k = st.nchoice
        st.nchoice += 1
        if k < len(self.prefix):
            if k < len(self.dims) and n > self.dims[k]: raise EngineError("the job split leaves out cases: %d of %d" % (self.dims[k], n))
            v = self.prefix[k]
            if v >= n: raise PathEnd()
            st.inputs.append(('choice', v))
            return v
        for v in range(n - 1, 0, -1):
            c = self.clone(st)
            c.inputs.append(('choice', v))
            f = c.frames[-1]
            f.regs[x[1]] = v
            f.ip += 1
            self.work.append(c)
        st.inputs.append(('choice', 0))
        return 0

    def x_assume(self, st, a, fr, x):
        c = a[0]
        if type(c) is int:
            if not c & 1: raise PathEnd()
            return
        self.assume_b(st, v2b(c))

    def x_tier(self, st, a, fr, x):
        return 1 if self.opts.get('tier') == 'thorough' else 0

    def x_check(self, st, a, fr, x):
        cid = self.rdstr(st, a[1], self.concretize(st, a[2], 64))
        c = a[0]
        self.stats['checks'] += 1
        if type(c) is int: c = bool(c & 1)
        self.dom.check(self, st, v2b(c) if not isinstance(c, bool) else c, cid)

    def x_close(self, st, a, fr, x):
        cid = self.rdstr(st, a[3], self.concretize(st, a[4], 64))
        self.stats['checks'] += 1
        self.dom.check_close(self, st, a[0], a[1], a[2], cid)

    def x_same(self, st, a, fr, x):
        """Bit-for-bit equality (bit-precise semantics), exact equality (real semantics)."""
        cid = self.rdstr(st, a[2], self.concretize(st, a[3], 64))
        self.stats['checks'] += 1
        self.dom.check_same(self, st, a[0], a[1], cid)

    def x_reach(self, st, a, fr, x):
        rid = self.rdstr(st, a[0], self.concretize(st, a[1], 64))
        if rid in st.reached: return
        st.reached = st.reached | {rid}
        r = self.reach.setdefault(rid, dict(hits=0, model=None, tries=0))
        r['hits'] += 1
        if r['model'] is None and r['tries'] < self.opts.get('reach_tries', 2):
            unk = self.stats['unknown']
            r['model'] = self.dom.find_inputs(self, st, [])
            if self.stats['unknown'] > unk: r['tries'] += 1
            else: r['tries'] += 0.05
        elif r['model'] is None and r['hits'] & (r['hits'] - 1) == 0:
            r['model'] = self.dom.quick_inputs(self, st)

    def panic(self, st, what):
        if self.opts.get('panic') == 'ignore': return
        where = ' <- '.join(self.names.get(f.fn.name, f.fn.name) for f in reversed(st.frames[-3:]))
        self.dom.violation(self, st, [], 'panic', 'panic: %s in %s' % (what, where))

    # ------------------------------------------------------------------ main loop
    def run(self, entry, prefix=(), deadline=None):
        self.prefix = list(prefix)
        self.deadline = deadline
        st = State.__new__(State)
        st.frames = []; st.mem = {}; st.uid = self.next_uid; self.next_uid += 1
        st.pc = []; st.known = {}; st.signs = {}; st.inputs = []; st.nchoice = 0; st.fresh = 0; st.reached = frozenset()
        st.trace = []; st.signpc = []
        fn = self.funcs.get(entry)
        if fn is None: raise EngineError("no entry " + entry)
        self.push(st, fn, [], None)
        self.work = [st]
        part = self.opts.get('part')
        if part:
            # every part explores the same shallow paths, then takes its share of the open ones
            i, n = part
            while self.work and len(self.work) < 16 * n and self.stats['paths'] < 40 * n:
                if len(self.candidates) >= 4 and self.stop_on_candidate: break
                self.step(self.work.pop(0))
            if i:
                for k in ('paths', 'instructions', 'forks', 'checks', 'guards', 'trivial'): self.stats[k] = 0
            self.work = self.work[i::n]
        while self.work:
            if len(self.candidates) >= 4 and self.stop_on_candidate: break
            st = self.work.pop()
            self.step(st)
        return self

    def step(self, st):
        n = nxt = 0
        S = self.stats
        try:
            while True:
                fr = st.frames[-1]
                code = fr.code
                while True:
                    x = code[fr.ip]
                    n += 1
                    if x[0](self, st, fr, x) is None:
                        fr.ip += 1
                    else:
                        break
                if n < nxt: continue
                nxt = n + 4000
                if n > 5_000_000: raise EngineError("path too long")
                if self.deadline and time.time() > self.deadline:
                    raise EngineError("time budget exceeded in symbolic execution")
        except PathEnd:
            S['paths'] += 1
            S['instructions'] += n
            if S['paths'] > self.max_paths: raise EngineError("path budget exceeded")
            if S['instructions'] > self.max_steps: raise EngineError("instruction budget exceeded")
            if self.deadline and time.time() > self.deadline: raise EngineError("time budget exceeded in symbolic execution")


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def v2b(v):
    if v is True or v is False: return v
    if type(v) is int: return bool(v & 1)
    if type(v) is SB: return v
    if isinstance(v, z3.BitVecRef): return SB('z', z3.simplify(v == 1))
    raise EngineError("not a boolean: %r" % (v,))


def b2v(b):
    return int(b) if b is True or b is False else b
