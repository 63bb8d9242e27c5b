"""The checksum functions, decided in the domain of affine forms over GF(2).

A value is a list of bits, each bit an exclusive-or of input bits (and 1).  Exclusive or, shifts, masks and lookups in
affine tables stay in this domain.  The loop over the data is decided by induction: once the register can hold any value
it is renamed to sixteen fresh bits, and one further round has to lead from the register after k bytes to the register
after k+1 bytes."""
from .core import *
from .engine import Incomplete
from .roots import RootEngine, fresh_state, decide
from .xroots import Root
from .lin import fresh

FIRST = 40          # bit numbers below are kept for the register at the loop head


class Bits(Atomic):
    """number whose bit i is the form f[i]: an int, bit 0 the constant, bit k the variable k"""
    __slots__ = ('f',)

    def __init__(self, f):
        f = list(f)
        while f and f[-1] == 0:
            f.pop()
        self.f = tuple(f)

    def __eq__(self, o):
        return type(o) is Bits and o.f == self.f

    def __hash__(self):
        return hash(self.f)

    def __repr__(self):
        return 'bits[%d]' % len(self.f)


def const_bits(c, n):
    return [(c >> i) & 1 for i in range(n)]


def step_reg(reg, byte):
    """one byte of the reflected CRC with polynomial 0x8408, on forms"""
    r = list(reg)
    for i in range(8):
        r[i] ^= byte[i]
    for _ in range(8):
        lsb = r[0]
        r = r[1:] + [0]
        for i in range(16):
            if (0x8408 >> i) & 1:
                r[i] ^= lsb
    return r


SPEC = {'x25': (0xffff, lambda r: [x ^ 1 for x in r[8:] + r[:8]], 'CRC-16/X.25, bytes swapped'),
        'kermit': (0, lambda r: list(r), 'CRC-16/Kermit')}


def ech(rows):
    """echelon form of (form, combination) rows"""
    out = []
    for f, c in rows:
        for p, g, d in out:
            if f & p:
                f, c = f ^ g, c ^ d
        if f >> 1:
            out.append((1 << (f.bit_length() - 1), f, c))
    return out


class CrcEngine(RootEngine):
    """RootEngine with bit vectors"""
    nextvar = FIRST

    # ---- constraints
    def red(self, st, f):
        for p, g in st.ghosts.get('$gf2', ()):
            if f & p:
                f ^= g
        return f

    def fork(self, f):
        def mk(v):
            def alt(st):
                g = self.red(st, f) ^ v
                if g == 0:
                    return True
                if g == 1:
                    return False
                st.ghosts['$gf2'] = st.ghosts.get('$gf2', ()) + ((1 << (g.bit_length() - 1), g),)
                return True
            return alt
        self.forks = getattr(self, 'forks', 0) + 1
        if self.forks > 60000:
            raise Incomplete('too many cases')
        raise Split([[mk(0)], [mk(1)]])

    def forms(self, st, v, n):
        """the n low bits of a value, None if not known"""
        if isinstance(v, Bits):
            r = [self.red(st, x) for x in v.f[:n]]
            return r + [0] * (n - len(r))
        if isinstance(v, bool):
            return const_bits(int(v), n)
        if isinstance(v, Lin):
            e = st.store.norm(v)
            if not e.t:
                return const_bits(e.c % (1 << n), n)
        return None

    def mkbits(self, st, fs):
        fs = [self.red(st, x) for x in fs]
        if all(x in (0, 1) for x in fs):
            return C(sum(x << i for i, x in enumerate(fs)))
        return Bits(fs)

    # ---- operations
    def prod(self, a, b):
        if a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1 or a == b:
            return a
        if a == b ^ 1:
            return 0
        self.fork(a)

    def add(self, a, b, c):
        out = []
        for x, y in zip(a, b):
            out.append(x ^ y ^ c)
            if x == y:
                c = x
            elif x == c:
                pass
            elif y == c:
                c = y
            elif x == y ^ 1:
                pass
            elif x == c ^ 1:
                c = y
            elif y == c ^ 1:
                c = x
            else:
                self.fork(x if x > 1 else y)
        return out

    def arith(self, st, i, a, b):
        if not isinstance(a, Bits) and not isinstance(b, Bits):
            return RootEngine.arith(self, st, i, a, b)
        for v in (a, b):
            if isinstance(v, Cond):
                raise Split([[v.atom()], [v.neg().atom()]])
        n = i.ty.n
        op = i.op
        x, y = self.forms(st, a, n), self.forms(st, b, n)
        if x is None or y is None:
            st.lose('bits mixed with other values')
            return Top('bits')
        if op in ('shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem', 'mul'):
            if op == 'mul' and all(v < 2 for v in x) and not all(v < 2 for v in y):
                x, y = y, x
            for v in reversed(y):
                if v > 1:
                    self.fork(v)
            k = sum(v << j for j, v in enumerate(y))
            if op == 'mul':
                r = [0] * n
                for j in range(n):
                    if (k >> j) & 1:
                        r = self.add(r, ([0] * j + x)[:n], 0)
                return self.mkbits(st, r)
            if 'div' in op or 'rem' in op:
                if op[0] == 's' and x[-1] != 0 or k & (k - 1) or not k:
                    st.lose('division')
                    return Top('division')
                k = k.bit_length() - 1
                if 'rem' in op:
                    return self.mkbits(st, x[:k])
                op = 'lshr'
            if k >= n:
                st.lose('shift')
                return Top('shift')
            if op == 'shl':
                return self.mkbits(st, ([0] * k + x)[:n])
            return self.mkbits(st, x[k:] + [x[-1] if op == 'ashr' else 0] * k)
        if op == 'xor':
            return self.mkbits(st, [p ^ q for p, q in zip(x, y)])
        if op == 'and':
            return self.mkbits(st, [self.prod(p, q) for p, q in zip(x, y)])
        if op == 'or':
            return self.mkbits(st, [p ^ q ^ self.prod(p, q) for p, q in zip(x, y)])
        if op == 'add':
            return self.mkbits(st, self.add(x, y, 0))
        if op == 'sub':
            return self.mkbits(st, self.add(x, [q ^ 1 for q in y], 1))
        st.lose(op)
        return Top(op)

    def icmp(self, st, pred, a, b, ty, ins):
        if not isinstance(a, Bits) and not isinstance(b, Bits):
            return RootEngine.icmp(self, st, pred, a, b, ty, ins)
        for v in (a, b):
            if isinstance(v, Cond):
                raise Split([[v.atom()], [v.neg().atom()]])
        n = ty.n
        x, y = self.forms(st, a, n), self.forms(st, b, n)
        if x is None or y is None:
            st.lose('comparison of bits')
            return Cond('any', 0)
        if pred in ('eq', 'ne'):
            d = [p ^ q for p, q in zip(x, y)]
            if any(v == 1 for v in d):
                return pred == 'ne'
            for v in d:
                if v:
                    self.fork(v)
            return pred == 'eq'
        if pred[0] == 's':
            x, y = x[:-1] + [x[-1] ^ 1], y[:-1] + [y[-1] ^ 1]
        for p, q in zip(reversed(x), reversed(y)):
            if p == q:
                continue
            for v in (p, q):
                if v > 1:
                    self.fork(v)
            return {'g': p > q, 'l': p < q}[pred[1]]
        return pred[2] == 'e'

    def truth(self, st, v, ins):
        if isinstance(v, Bits):
            f = self.forms(st, v, 1)[0]
            if f > 1:
                self.fork(f)
            return bool(f)
        return RootEngine.truth(self, st, v, ins)

    def cast(self, st, i, v):
        if not isinstance(v, Bits):
            return RootEngine.cast(self, st, i, v)
        src, n = i.a[0].ty.n, i.ty.n
        x = self.forms(st, v, src)
        if i.op == 'trunc':
            return self.mkbits(st, x[:n])
        if i.op == 'sext':
            x = x + [x[-1]] * (n - src)
        return self.mkbits(st, x)

    def opaque(self, st, op, n, a, b):
        return RootEngine.opaque(self, st, op, n, a, b)

    def gep(self, st, sty, vals, tys, ins):
        if any(isinstance(v, Bits) for v in vals[1:]):
            nv = [vals[0]]
            for v, ty in zip(vals[1:], tys[1:]):
                if isinstance(v, Bits):
                    x = self.forms(st, v, ty.n)
                    hi = len(Bits(x).f)
                    if hi >= ty.n or hi > 24:
                        st.lose('index')
                        return Top('index')
                    w = self.mkbits(st, x)
                    if isinstance(w, Bits):
                        lo = sum(1 << j for j, f in enumerate(x) if f == 1)
                        t = st.sym('idx', lo, sum(1 << j for j, f in enumerate(x) if f))
                        st.ghosts['$bind'] = st.ghosts.get('$bind', ()) + ((t.t[0][0], w),)
                        v = t
                    else:
                        v = w
                nv.append(v)
            vals = nv
        return RootEngine.gep(self, st, sty, vals, tys, ins)

    def load(self, st, p, ty, ins):
        if isinstance(p, Ptr) and ty.k == 'int' and p.oid in st.mem:
            v = self.part(st, st.mem[p.oid], st.store.norm(p.off), ty.size())
            if v is not None:
                return v
        v = RootEngine.load(self, st, p, ty, ins)
        if not isinstance(p, Ptr) or not isinstance(v, Lin) or ty.k != 'int':
            return v
        o = st.mem.get(p.oid)
        if o.attrs.get('crcin'):
            fs = []
            for k in range(ty.size()):
                fs += self.inbyte(st, st.store.norm(p.off + k))
            return self.mkbits(st, fs)
        off = st.store.norm(p.off)
        bind = dict(st.ghosts.get('$bind', ()))
        hit = [(s, c) for s, c in off.t if s in bind]
        if not hit:
            return v
        if len(hit) > 1 or len(off.t) > 1 or hit[0][1] != ty.size() or o.kind != 'global' or o.attrs.get('mutable') or o.log is not None:
            st.lose('access at a computed place')
            return Top('lookup')
        s, c = hit[0]
        return self.lookup(st, o, off.c, ty.size(), bind[s])

    def part(self, st, o, off, size):
        """bytes of stored bit vectors"""
        if off.t or o.log is not None or not any(isinstance(v, Bits) for s, v in o.cells.values()):
            return None
        fs = []
        for k in range(off.c, off.c + size):
            for a, (s, v) in o.cells.items():
                if a <= k < a + s:
                    x = self.forms(st, v, 8 * s)
                    if x is None:
                        return None
                    fs += x[8 * (k - a):8 * (k - a + 1)]
                    break
            else:
                return None
        return self.mkbits(st, fs)

    def inbyte(self, st, off):
        by = st.ghosts.get('$bytes', ())
        if len(by) > 40:
            by = by[-20:]
        for o, v in reversed(by):
            if st.store.eq(o - off):
                return [1 << (v + k) for k in range(8)]
        up = st.ghosts['$upto']
        if not st.store.ge(off - up):
            st.lose('a byte is read again in a later round')
        v = CrcEngine.nextvar
        CrcEngine.nextvar += 8
        st.ghosts['$bytes'] = by + ((off, v),)
        # the reference register follows as far as the bytes are known
        adv = True
        while adv:
            adv = False
            for o, v2 in reversed(st.ghosts['$bytes']):
                if st.store.eq(o - st.ghosts['$upto']):
                    st.ghosts['$reg'] = Bits(step_reg(self.reg(st), [1 << (v2 + k) for k in range(8)]))
                    st.ghosts['$upto'] = st.store.norm(st.ghosts['$upto'] + 1)
                    adv = True
        return [1 << (v + k) for k in range(8)]

    def reg(self, st):
        r = st.ghosts['$reg']
        return self.forms(st, r, 16)

    def lookup(self, st, o, base, size, ix):
        x = self.forms(st, ix, 24)
        var = [j for j, f in enumerate(x) if f > 1]
        fix = sum(f << j for j, f in enumerate(x) if f == 1)

        def ent(i):
            c = o.cells.get(base + i * size)
            if c is None:
                return 0 if o.base[0] == 'cdata' else None
            return c[1].c % (1 << 8 * size) if c[0] == size and isinstance(c[1], Lin) and not c[1].t else None
        t0 = ent(fix)
        ds = []
        ok = t0 is not None
        for j in var:
            e = ent(fix | 1 << j)
            if e is None:
                ok = False
                break
            ds.append(e ^ t0)
        if not ok:
            st.lose('table')
            return Top('table')
        span = [(fix, t0)]
        for j, d in zip(var, ds):
            span += [(i | 1 << j, e ^ d) for i, e in span]
        for i, e in span:
            if ent(i) != e:
                # not affine: every entry by itself
                if len(var) > 8 or self.opts.get('symbolic'):
                    raise Incomplete('table of %s is not affine' % o.name)
                self.fork(x[var[-1]])
        fs = []
        for k in range(8 * size):
            f = (t0 >> k) & 1
            for j, d in zip(var, ds):
                if (d >> k) & 1:
                    f ^= x[j]
            fs.append(f)
        return self.mkbits(st, fs)

    # ---- merging
    def merge(self, states):
        again = True
        while again and len(states) > 1:
            again = False
            out = []
            for s in states:
                for k, t in enumerate(out):
                    m = self.merge2(t, s)
                    if m is not None:
                        out[k] = m
                        again = True
                        break
                else:
                    out.append(s)
            states = out
        return states

    def merge2(self, a, b):
        ga, gb = a.ghosts.get('$gf2', ()), b.ghosts.get('$gf2', ())
        if len(ga) != len(gb) or not ga or ga[:-1] != gb[:-1] or ga[-1][1] ^ gb[-1][1] != 1:
            return None
        if len(a.frames) != len(b.frames) or a.trace != b.trace or a.nulled != b.nulled:
            return None
        if set(a.mem) != set(b.mem) or any(a.mem[o] is not b.mem[o] for o in a.mem):
            return None
        if not self.samestore(a, b):
            return None
        pre = ga[:-1]
        g = ga[-1][1]

        def red(f):
            for p, h in pre:
                if f & p:
                    f ^= h
            return f

        def mix(x, y):
            if isinstance(x, Lin) and isinstance(y, Lin):
                x, y = a.store.norm(x), b.store.norm(y)
            if x == y:
                return x
            fx = x.f if isinstance(x, Bits) else None
            fy = y.f if isinstance(y, Bits) else None
            if fx is None and isinstance(x, Lin) and not x.t and x.c >= 0:
                fx = const_bits(x.c, x.c.bit_length())
            if fy is None and isinstance(y, Lin) and not y.t and y.c >= 0:
                fy = const_bits(y.c, y.c.bit_length())
            if fx is None or fy is None:
                raise Weak2()
            n = max(len(fx), len(fy))
            fx, fy = list(fx) + [0] * (n - len(fx)), list(fy) + [0] * (n - len(fy))
            r = []
            for p, q in zip(fx, fy):
                d = red(p ^ q)
                if d == 0:
                    r.append(p)
                elif d == 1 or d == g ^ 1 or d == g:
                    r.append(p ^ (g if d in (1, g) else 0))
                else:
                    raise Weak2()
            return Bits(r)
        m = a.copy()
        try:
            for i, (fa, fb) in enumerate(zip(a.frames, b.frames)):
                if set(fa) != set(fb):
                    return None
                m.frames[i] = {k: mix(fa[k], fb[k]) for k in fa}
            for k in set(a.ghosts) | set(b.ghosts):
                if k in ('$gf2', '$bind'):
                    continue
                m.ghosts[k] = mix(a.ghosts.get(k), b.ghosts.get(k))
        except Weak2:
            return None
        m.ghosts['$gf2'] = pre
        m.ghosts['$bind'] = ()
        return m

    def merge_states(self, states, fn, block):
        states = self.merge(states)
        if len(states) > 600:
            raise Incomplete('too many states')
        return states

    # ---- loops
    def run_unrolled(self, fn, head, body, states, rets):
        out = {}
        for r in range(self.opts.get('rounds', 6000)):
            if not states:
                self.stats['loops'] += 1
                return out
            pending = {head: states}
            self.exec_seq(fn, [head] + list(body), pending, rets)
            states = self.merge(pending.pop(head, []))
            for t, ss in pending.items():
                out.setdefault(t, []).extend(ss)
        raise Incomplete('a loop in %s does not end' % fn.key)

    def run_loop(self, fn, el, states, rets):
        if not self.opts.get('symbolic') or self.opts.get('inner'):
            self.opts['unroll'] = self.opts.get('unroll') or 1
            return self.run_unrolled(fn, el[0], el[1], states, rets)
        out = {}

        def add(o):
            for t, ss in o.items():
                out.setdefault(t, []).extend(ss)
        gen = []
        for r in range(6):
            new = []
            for s in states:
                (gen if self.canonical(s) else new).append(s)
            if not new:
                break
            pend = {el[0]: new}
            self.opts['inner'] = True
            try:
                self.exec_seq(fn, [el[0]] + list(el[1]), pend, rets)
            finally:
                self.opts['inner'] = False
            states = self.merge(pend.pop(el[0], []))
            add(pend)
        else:
            self.partial = 'the register is not established in %s' % fn.key
        self.opts['unroll'] = 0
        if gen:
            try:
                add(RootEngine.run_loop(self, fn, el, gen, rets))
            except Incomplete as x:
                # what left the loop in the rounds executed one by one is still judged
                self.partial = str(x)
        return out

    partial = None

    def loop_body(self, fn, head, body, pend, rr):
        self.opts['inner'] = True
        try:
            RootEngine.loop_body(self, fn, head, body, pend, rr)
        finally:
            self.opts['inner'] = False
        if head in pend:
            pend[head] = self.merge(pend[head])

    def normalize(self, st):
        RootEngine.normalize(self, st)
        if self.opts.get('symbolic') and '$reg' in st.ghosts and not self.canonical(st):
            raise Incomplete('the register is not free at a loop head')

    def canonical(self, st):
        """express every bit vector by the bits of the reference register; False if that does not range over all values"""
        reg = self.reg(st)
        if reg == [1 << (k + 1) for k in range(16)] and not st.ghosts.get('$gf2') and not st.ghosts.get('$bytes'):
            return True
        rows = ech([(f & ~1, (1 << (k + 1)) | (f & 1)) for k, f in enumerate(reg)])
        if len(rows) < 16:
            return False

        def ex(v):
            if not isinstance(v, Bits):
                return v
            out = []
            for f in v.f:
                f = self.red(st, f)
                c = f & 1
                f &= ~1
                for p, g, d in rows:
                    if f & p:
                        f, c = f ^ g, c ^ d
                if f:
                    return Top('bits of a single byte')
                out.append(c)
            return self.mkbits2(out)
        for k, fr in enumerate(st.frames):
            st.frames[k] = {n: ex(v) for n, v in fr.items()}
        for oid in list(st.mem):
            o = st.mem[oid]
            if any(isinstance(v, Bits) for s, v in o.cells.values()) or o.log:
                o = st.wobj(oid)
                for a, (s, v) in list(o.cells.items()):
                    o.cells[a] = (s, ex(v))
                if o.log:
                    o.log = [(e[0], e[1], e[2], ex(e[3])) if e[0] == 'c' else e for e in o.log]
        if any(g for g in st.ghosts.get('$gf2', ())):
            st.lose('case distinction on the data')
        st.ghosts['$reg'] = Bits([1 << (k + 1) for k in range(16)])
        st.ghosts['$gf2'] = ()
        st.ghosts['$bytes'] = ()
        st.ghosts['$bind'] = ()
        return True

    def mkbits2(self, fs):
        if all(x in (0, 1) for x in fs):
            return C(sum(x << i for i, x in enumerate(fs)))
        return Bits(fs)


class Weak2(Exception):
    pass


class CrcRoot(Root):
    """sml_crc16_calculate, sml_crc16kermit_calculate"""
    cat = 'C15'

    def __init__(self, prog, specs, fn, which, opts=None):
        Root.__init__(self, prog, specs, fn, opts)
        self.which = which

    def engine(self):
        return CrcEngine

    def start(self, n):
        e = self.e
        st = fresh_state()
        n = st.sym('len', 0, 1 << 30) if n is None else C(n)
        o = Obj('heap', n, ('op', new_cid()), 'data')
        o.attrs['borrowed'] = o.attrs['crcin'] = o.attrs['input'] = 1
        p = st.add(o)
        st.ghosts['$reg'] = Bits(const_bits(SPEC[self.which][0], 16))
        st.ghosts['$upto'] = ZERO
        return st, p, n

    def run(self):
        e = self.e
        e.opts['unroll'] = 1
        bad = False
        for n in [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 300] + [1500, 5000]:
            st, p, ln = self.start(n)
            try:
                self.outs(st, [p, ln], lambda s, v: self.exit(s, v, ln, n))
            except Incomplete as x:
                e.note('length %d: %s' % (n, x))
            if e.findings:
                return self
        # any length
        e.opts['symbolic'] = True
        st, p, ln = self.start(None)
        self.outs(st, [p, ln], lambda s, v: self.exit(s, v, ln, None))
        if e.partial:
            raise Incomplete(e.partial)
        return self

    def exit(self, st, v, ln, n):
        e = self.e
        if isinstance(v, Cond):
            raise Split([[v.atom()], [v.neg().atom()]])
        what = SPEC[self.which][2]
        if not e.prove(st, self.cat, st.store.eq(st.store.norm(ln - st.ghosts['$upto'])),
                       'the result for %s bytes covers only the first %s bytes' % ('any number of' if n is None else n, st.store.norm(st.ghosts['$upto']))):
            return
        f = e.forms(st, v, 16)
        if f is None:
            st.lose('result')
            e.prove(st, self.cat, False, 'the result cannot be followed')
            return
        self.case('every length' if n is None else 'length %d' % n)
        want = [e.red(st, x) for x in SPEC[self.which][1](e.reg(st))]
        e.prove(st, self.cat, f == want, 'the result for %s bytes is not the %s of the data' % ('any number of' if n is None else n, what))
