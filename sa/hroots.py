"""Conversion helpers (C23) and transaction ids (C27)."""
from .core import *
from .spec import *
from .ir import Ty
from .engine import Incomplete
from .roots import RootEngine, fresh_state, decide, cond, fieldval, MAXIN
from .xroots import Root, PAIRS
import struct

HEXCH = {ord(c): int(c, 16) for c in '0123456789abcdefABCDEF'}
RANGES = ((48, 57, 48), (65, 70, 55), (97, 102, 87))


class HelperEngine(RootEngine):
    """remembers which bytes of the watched blocks have been written since they were last judged ($pend)"""
    root = None

    def on_vla(self, st, size, ins):
        self.oblig['C24'] = self.oblig.get('C24', 0) + 1

    def base_read(self, st, o, off, size, isptr, ins):
        n = o.attrs.get('string')
        if n is None or size != 1 or isptr:
            return RootEngine.base_read(self, st, o, off, size, isptr, ins)
        if st.store.eq(off - n):
            return ZERO
        if not st.store.ge(n - off - 1):
            raise Split([[('ge', n - off - 1)], [('eq', off - n)]])
        b = st.byte(o.base[1], off)
        if not st.store.neq(b):
            st.store.add_ne(b)
        return b

    def merge_rets(self, outs):
        return self.merge_vals(outs, 120, 240)       # the classes of characters stay apart

    def merge_states(self, states, fn, block):
        return [s for s, _ in self.merge_vals([(s, None) for s in states], 120, 240)]

    def pre_merge(self, st, v):
        return self.compact(st, v)

    def watched(self, st, o):
        return False

    def on_write(self, st, o, off, size, v, ins):
        if not self.watched(st, o):
            return
        if st.store.eq(size - 1):
            p = st.ghosts.get('$pend', ())
            off = st.store.norm(off)
            if (o.oid, off) not in p:
                st.ghosts['$pend'] = p + ((o.oid, off),)
        else:
            st.lose('blocks written to %s' % (o.name or o.kind))

    def write_region(self, st, oid, lo, hi, kind, data):
        o = st.mem[oid]
        if kind in ('init', 'copy') and self.watched(st, o) and not getattr(self, 'folding', 0):
            self.region(st, o, lo, hi, kind, data)
        RootEngine.write_region(self, st, oid, lo, hi, kind, data)

    def region(self, st, o, lo, hi, kind, data):
        st.lose('blocks written to %s' % (o.name or o.kind))

    def normalize(self, st):
        self.folding = getattr(self, 'folding', 0) + 1
        try:
            return RootEngine.normalize(self, st)
        finally:
            self.folding -= 1

    def settle(self, st):
        """judge the pending bytes; may split"""

    def at_back(self, st, fn, head, kname):
        if '$mon' not in st.ghosts:
            return RootEngine.at_back(self, st, fn, head, kname)
        out, work = [], [st]
        while work:
            s = work.pop()
            try:
                bk = s.copy()
                self.settle(s)
            except Split as sp:
                work.extend(self.split(s if getattr(sp, 'mut', False) else bk, sp))
                continue
            except Kill:
                continue
            RootEngine.at_back(self, s, fn, head, kname)
            out.append(s)
        return out


class HelperRoot(Root):
    cat = 'C23'
    ENGINE = HelperEngine

    def engine(self):
        return self.ENGINE

    def nonempty(self, st, v):
        """the object a pointer result refers to"""
        v = self.e.nz(st, v)
        if isinstance(v, Ptr) and v.oid in st.mem and st.mem[v.oid].mnull is not None:
            raise Split([[('nonnull', v.oid)], [('null', v.oid)]])
        return v

    def fill(self, st, p):
        sp = self.specs.get('octet_string')
        self.e.read(st, st.mem[p.oid], C(sp.byname['str'].off), 8, ptrty(), None)

    def octet(self, st, o):
        """length and data of an octet string"""
        e = self.e
        sp = self.specs.get('octet_string')
        d = e.nz(st, e.read(st, o, C(sp.byname['str'].off), 8, ptrty(), None))
        if isinstance(d, Ptr) and d.oid in st.mem and st.mem[d.oid].mnull is not None:
            raise Split([[('nonnull', d.oid)], [('null', d.oid)]])
        n = e.read(st, o, C(sp.byname['len'].off), sp.byname['len'].size, None, None)
        return (e.sview(st, n, 32) if isinstance(n, Lin) else n), d


def ptrty():
    from .xroots import ptrty as f
    return f()


def string(st, name, n):
    """a terminated string of n characters"""
    o = Obj('heap', n + 1, ('op', new_cid()), name)
    o.attrs['borrowed'] = o.attrs['input'] = 1
    o.attrs['strlen'] = n
    o.attrs['string'] = n
    return st.add(o)


# ---------------------------------------------------------------- numbers
class DoubleRoot(HelperRoot):
    """sml_value_to_double: the number the type announces, at its width and with its sign"""

    def run(self):
        for sign in (True, False):
            for w in (1, 2, 4, 8):
                st = fresh_state()
                d = Obj('heap', C(w), ('op', new_cid()), 'number')
                d.attrs['borrowed'] = d.attrs['input'] = 1
                p = st.add(d)
                cid = d.base[1]
                v = self.value(st, C((0x50 if sign else 0x60) + w), p)
                self.outs(st, [v], lambda s, r: self.exit(s, r, cid, w, sign))
        st = fresh_state()
        t = st.sym('type', 0, 255)
        for k in (0x51, 0x52, 0x54, 0x58, 0x61, 0x62, 0x64, 0x68):
            st.store.add_ne(t - k)
        v = self.value(st, t, NULL)
        self.outs(st, [v], lambda s, r: self.other(s, r))
        return self

    def value(self, st, t, p):
        sp = self.specs.get('sml_value')
        o = Obj('heap', C(sp.size), ('undef',), 'value')
        o.attrs['borrowed'] = o.attrs['input'] = 1
        for f in sp.fields.values():
            o.cells[f.off] = (f.size, t if f.name == 'type' else p)
        return st.add(o)

    def other(self, st, r):
        self.case('other')
        self.e.prove(st, self.cat, r is not UNDEF, 'the result for an unknown type is not initialised')

    def exit(self, st, r, cid, w, sign):
        e = self.e
        self.case('%s%d' % ('int' if sign else 'uint', 8 * w))
        what = 'a value of type 0x%02x' % ((0x50 if sign else 0x60) + w)
        if r is UNDEF:
            e.prove(st, self.cat, False, what + ': the result is not initialised')
            return
        x = real(r) if isinstance(r, Flt) else None
        if x is None:
            st.lose('arithmetic on numbers that are not integers')
            e.prove(st, self.cat, False, what + ' is not converted to its number')
            return
        v, bits = x
        b = st.byte(cid, ZERO, w)
        want = e.sview(st, b, 8 * w) if sign else e.uview(st, b, 8 * w)
        e.prove(st, self.cat, st.store.eq(st.store.norm(v - want)), what + ' is not converted to its number')
        e.prove(st, self.cat, bits >= min(8 * w, 53), what + ' loses precision')


def real(f):
    """the number a floating point term stands for, and the bits of precision it went through"""
    t = f.t
    op = t[0]
    if op in ('sitofp', 'uitofp'):
        return (t[1], 24 if len(t) > 3 and t[3] == 32 else 53) if isinstance(t[1], Lin) else None
    if op == 'const' and isinstance(t[1], (int, float)) and t[1] == int(t[1]):
        return C(int(t[1])), 53
    a = [real(x) if isinstance(x, Flt) else None for x in t[1:]]
    if any(x is None for x in a):
        return None
    if op == 'fpext':
        return a[0]
    if op == 'fptrunc':
        return a[0][0], 24
    if op == 'fneg':
        return ZERO - a[0][0], a[0][1]
    if op in ('fadd', 'fsub'):
        return (a[0][0] + a[1][0] if op == 'fadd' else a[0][0] - a[1][0]), min(a[0][1], a[1][1])
    if op == 'fmul':
        for x, y in (a, a[::-1]):
            if not y[0].t:
                return x[0] * y[0].c, min(x[1], y[1])
    if op == 'fdiv' and not a[1][0].t and a[1][0].c == 1:
        return a[0]
    return None


# ---------------------------------------------------------------- comparison
class CmpRoot(HelperRoot):
    """sml_octet_string_cmp: zero exactly for strings of equal length and content"""

    def run(self):
        st = fresh_state()
        a = self.e.typed(st, 'octet_string', 'parsed', name='first')
        b = self.e.typed(st, 'octet_string', 'parsed', name='second')
        self.fill(st, a)
        self.fill(st, b)
        for o in st.mem.values():
            o.attrs['input'] = 1
        self.outs(st, [a, b], lambda s, v: self.exit(s, v, a, b))
        return self

    def exit(self, st, v, a, b):
        n1, d1 = self.octet(st, st.mem[a.oid])
        n2, d2 = self.octet(st, st.mem[b.oid])
        self.equal(st, v, n1, d1, n2, d2, 'the octet strings')

    def equal(self, st, v, n1, d1, n2, d2, what):
        e = self.e
        if v is UNDEF:
            e.prove(st, self.cat, False, 'the result is not initialised')
            return
        z = cond(e, st, Cond('eq', e.sview(st, v, 32)))
        self.case('equal' if z else 'different')
        if not st.store.eq(n1 - n2) and not st.store.neq(n1 - n2):
            if z:
                e.prove(st, self.cat, False, what + ' are reported equal whatever their lengths are', n1 - n2)
                return
            raise Split([[('eq', n1 - n2)], [('ne', n1 - n2)]])
        same = st.store.eq(n1 - n2)
        if not same:
            e.prove(st, self.cat, not z, what + ' are reported equal although their lengths differ')
            return
        if st.store.eq(n1):
            e.prove(st, self.cat, z, 'empty octet strings are reported different')
            return
        if not st.store.ge(n1 - 1):
            raise Split([[('ge', n1 - 1)], [('ge', -n1)]])
        r = self.compared(st, d1, d2, n1)
        if r is None and self.loops():
            st.lose('compared in a loop')
        if r == 'eq' or r == 'ne':
            e.prove(st, self.cat, z == (r == 'eq'), what + ' of equal length are reported %s whatever they contain' % ('equal' if z else 'different'))
            return
        if not isinstance(r, Lin):
            e.prove(st, self.cat, False, what + ' of equal length are not compared over their whole length')
            return
        e.prove(st, self.cat, st.store.eq(r) if z else st.store.neq(r), what + ' of equal length are reported %s whatever they contain' % ('equal' if z else 'different'))

    def loops(self):
        """is there a loop in what is called to compare (functions that answer with an int)?"""
        for f in [self.fn] + [self.prog.funcs.get(k) for k in self.prog.reach(self.fn)]:
            if f is not None and f.ret.k == 'int' and any(not isinstance(x, str) for x in f.wto):
                return True
        return False

    def compared(self, st, d1, d2, n):
        """result of the comparison of the first n bytes"""
        if not isinstance(d1, Ptr) or not isinstance(d2, Ptr):
            return None
        for ev in st.trace:
            if ev[0] == 'memcmp' and {ev[1][0], ev[2][0]} == {d1.oid, d2.oid} and st.store.eq(ev[1][1]) and st.store.eq(ev[2][1]) \
                    and st.store.eq(ev[3] - n):
                return ev[4]
        nn = st.store.norm(n)
        if nn.t or nn.c > 32:
            return None
        e = self.e
        xs = []
        for k in range(nn.c):
            x = e.read(st, st.mem[d1.oid], st.store.norm(d1.off + k), 1, None, None)
            y = e.read(st, st.mem[d2.oid], st.store.norm(d2.off + k), 1, None, None)
            if not isinstance(x, Lin) or not isinstance(y, Lin):
                return None
            xs.append(e.uview(st, x, 8) - e.uview(st, y, 8))
        if all(st.store.eq(x) for x in xs):
            return 'eq'
        if any(st.store.neq(x) for x in xs):
            return 'ne'
        return None


# ---------------------------------------------------------------- hexadecimal input
class HexEngine(HelperEngine):
    """every byte of a block of half the length of the string is the one two digits stand for"""

    def watched(self, st, o):
        h = st.ghosts.get('$half')
        return h is not None and o.kind in ('heap', 'stack') and o.size is not None and not o.attrs.get('borrowed') \
            and o.base[0] != 'typed' and st.store.eq(st.store.norm(o.size - h)) and o.name != 'octet_string'

    def on_write(self, st, o, off, size, v, ins):
        if self.watched(st, o) and st.store.eq(size - 1) and isinstance(v, Lin) and st.store.ge(off):
            p = st.ghosts.get('$pend', ())
            for g in st.ghosts.get('$good', ()):       # taken over from a block that holds the right bytes
                go = st.mem.get(g)
                if g != o.oid and go is not None and not go.freed and not any(x == g for x, _ in p) and st.store.ge(go.size - off - 1):
                    x = self.read(st, go, off, 1, None, None)
                    if isinstance(x, Lin) and st.store.eq(v - x):
                        st.ghosts['$good'] = tuple(i for i in st.ghosts['$good'] if i != o.oid) + (o.oid,)
                        return
        HelperEngine.on_write(self, st, o, off, size, v, ins)

    def region(self, st, o, lo, hi, kind, data):
        if kind == 'copy' and self.good(st, data[0], data[1] - lo):
            return              # a copy of bytes that are right
        st.lose('blocks written to %s' % (o.name or o.kind))

    def good(self, st, o, off=ZERO):
        """o holds the right bytes, at this distance"""
        for _ in range(4):
            if o.oid in st.ghosts.get('$bad', ()):
                return False
            if o.base[0] == 'copy' and o.log is None and not o.cells:
                off = off + o.base[2]
                o = o.base[1]
                continue
            if o.log is not None:
                cp = [en for en in o.log if en[0] == 'r' and en[3] == 'copy']
                if len(cp) == 1 and len(o.log) == 1 and st.store.eq(cp[0][1]):
                    off = off + cp[0][4][1]
                    o = cp[0][4][0]
                    continue
            break
        return o.oid in st.ghosts.get('$good', ()) and st.store.eq(off)

    def digit(self, st, b):
        """value of a character, None if it is no digit"""
        for lo, hi, d in RANGES:
            if st.store.ge(b - lo) and st.store.ge(-b + hi):
                return b - d
        out = [[('ge', b - lo), ('ge', -b + hi)] for lo, hi, d in RANGES]
        for lo, hi in ((0, 47), (58, 64), (71, 96), (103, 255)):
            if st.store.ge(b - lo) and st.store.ge(-b + hi):
                return None
            out.append([('ge', b - lo), ('ge', -b + hi)])
        raise Split(out)

    def memcpy(self, st, d, s, n, ins):
        if isinstance(d, Ptr) and isinstance(s, Ptr) and d.oid in st.mem and s.oid in st.mem and d.oid not in st.nulled \
                and self.watched(st, st.mem[d.oid]) and self.good(st, st.mem[s.oid], s.off - d.off):
            p = st.ghosts.get('$pend')
            HelperEngine.memcpy(self, st, d, s, n, ins)
            st.ghosts.pop('$pend', None)
            if p:
                st.ghosts['$pend'] = p
            g = st.ghosts.get('$good', ())
            if d.oid not in g:
                st.ghosts['$good'] = g + (d.oid,)
            return
        if isinstance(d, Ptr) and isinstance(s, Ptr) and d.oid in st.mem and s.oid in st.mem and d.oid not in st.nulled and d.oid != s.oid \
                and self.watched(st, st.mem[d.oid]) and self.watched(st, st.mem[s.oid]) and st.store.eq(d.off - s.off):
            # a copy of bytes of which none is known to be right
            lossy = st.lossy
            HelperEngine.memcpy(self, st, d, s, n, ins)
            st.lossy = lossy
            st.ghosts['$bad'] = st.ghosts.get('$bad', ()) + (d.oid,)
            return
        HelperEngine.memcpy(self, st, d, s, n, ins)

    def settle(self, st):
        try:
            while st.ghosts.get('$pend'):
                self.judge(st, *st.ghosts['$pend'][0])
                st.ghosts['$pend'] = st.ghosts['$pend'][1:]
            st.ghosts.pop('$pend', None)
        except Split as sp:
            sp.mut = True
            raise

    def judge(self, st, oid, off):
        o = st.mem.get(oid)
        if o is None:
            return
        so = st.mem[st.ghosts['$str'].oid]
        v = self.read(st, o, off, 1, None, None)
        k = st.store.norm(off * 2)
        x = self.uview(st, self.read(st, so, k, 1, None, None), 8)
        y = self.uview(st, self.read(st, so, st.store.norm(k + 1), 1, None, None), 8)
        a, b = self.digit(st, x), self.digit(st, y)
        if a is not None and b is not None:
            ok = isinstance(v, Lin) and st.store.eq(st.store.norm(self.uview(st, v, 8) - a * 16 - b))
            self.prove(st, 'C23', ok, 'a byte made from hexadecimal digits is not the one the digits stand for')
        g = st.ghosts.get('$good', ())
        if oid not in g:
            st.ghosts['$good'] = g + (oid,)

    def event(self, st, ev, ins=None):
        if ev[0] == 'memcmp' and '$half' in st.ghosts:
            self.settle(st)
            (a, ao), (b, bo), n = ev[1], ev[2], ev[3]
            d = st.ghosts.get('$data')
            if not isinstance(d, Ptr):
                d = Ptr(-1)
            ok = 0
            if b == d.oid and st.store.eq(bo):
                (a, ao), (b, bo) = (b, bo), (a, ao)
            if a == d.oid and st.store.eq(ao) and st.store.eq(bo) and self.good(st, st.mem[b]):
                ok = 1
            st.ghosts['$cmp'] = (ok, n, ev[4])
            return
        HelperEngine.event(self, st, ev, ins)


class FromHexRoot(HelperRoot):
    ENGINE = HexEngine

    def start(self, st):
        n = st.sym('strlen', 0, MAXIN)
        s = string(st, 'hexadecimal string', n)
        st.ghosts['$str'] = s
        st.ghosts['$mon'] = 1
        h = st.store.floordiv(n, 2)
        st.ghosts['$half'] = h
        return s, n, h

    def run(self):
        e = self.e
        for odd in (False, True):
            st = fresh_state()
            s, n, h = self.start(st)
            if odd:
                st.assume(('eq', n - h * 2 - 1))
            else:
                st.assume(('eq', n - h * 2))
            self.go(st, s, n, h, odd)
        return self

    def go(self, st, s, n, h, odd):
        self.outs(st, [s], lambda t, v: self.exit(t, v, n, h, odd))

    def exit(self, st, v, n, h, odd):
        e = self.e
        e.settle(st)
        v = self.nonempty(st, v)
        if v is NULL:
            self.case('refused')
            e.prove(st, self.cat, odd, 'a string of an even number of hexadecimal digits is refused')
            self.noleak(st)
            return
        ok = isinstance(v, Ptr) and v.oid in st.mem and not st.mem[v.oid].freed and st.store.eq(v.off)
        e.prove(st, self.cat, ok, 'the result is no octet string')
        if not ok:
            return
        self.case('converted')
        e.prove(st, self.cat, not odd, 'a string with half a byte at its end is accepted')
        if odd:
            return
        ln, d = self.octet(st, st.mem[v.oid])
        e.prove(st, self.cat, isinstance(ln, Lin) and st.store.eq(ln - h), 'the octet string does not have half as many bytes as there are digits')
        own = [v.oid]
        if not st.store.eq(h):
            if not st.store.ge(h - 1):
                raise Split([[('ge', h - 1)], [('ge', -h)]])
            ok = isinstance(d, Ptr) and d.oid in st.mem and not st.mem[d.oid].freed and st.store.eq(d.off)
            e.prove(st, self.cat, ok, 'the octet string has no data')
            if ok:
                own.append(d.oid)
                o = st.mem[d.oid]
                e.prove(st, self.cat, o.kind == 'heap' and o.size is not None and st.store.ge(o.size - h), 'the data of the octet string is shorter than its length')
                e.prove(st, self.cat, e.content_init(st, o, ZERO, h, None) is not False, 'the data of the octet string is not completely initialised')
                e.prove(st, self.cat, e.good(st, o), 'the data of the octet string is not what the digits stand for')
        elif isinstance(d, Ptr):
            own.append(d.oid)
        self.noleak(st, own)


class CmpHexRoot(FromHexRoot):
    def __init__(self, prog, specs, fn, opts=None):
        FromHexRoot.__init__(self, prog, specs, fn, opts, bigcmp=1)

    def go(self, st, s, n, h, odd):
        a = self.e.typed(st, 'octet_string', 'parsed', name='octet string')
        st.mem[a.oid].attrs['borrowed'] = st.mem[a.oid].attrs['input'] = 1
        self.a = a
        self.fill(st, a)
        for t, _, (n1, d1) in decide(self.e, [(st, None)], lambda x, _: self.octet(x, x.mem[a.oid])):
            if isinstance(d1, Ptr):
                t.mem[d1.oid].attrs['borrowed'] = t.mem[d1.oid].attrs['input'] = 1
            t.ghosts['$data'] = d1
            self.outs(t, [a, s], lambda u, v, n1=n1, d1=d1: self.exit2(u, v, n1, d1, h, odd))

    def exit2(self, st, v, n1, d1, h, odd):
        e = self.e
        z = cond(e, st, Cond('eq', e.sview(st, v, 32)))
        self.case('equal' if z else 'different')
        own = [d1.oid] if isinstance(d1, Ptr) else []
        for o in self.alive(st, own + [self.a.oid]):
            e.prove(st, 'C02', False, 'leak: the %s allocated at %s is not released' % (o.hint or o.name, o.site))
        if odd:
            e.prove(st, self.cat, not z, 'an octet string is reported equal to a string with half a byte at its end')
            return
        same = st.store.eq(n1 - h)
        if not same and not st.store.neq(n1 - h):
            if z:
                e.prove(st, self.cat, False, 'an octet string is reported equal to digits whatever their number', n1 - h)
                return
            raise Split([[('eq', n1 - h)], [('ne', n1 - h)]])
        if not same:
            e.prove(st, self.cat, not z, 'an octet string is reported equal to digits for another number of bytes')
            return
        if st.store.eq(h):
            e.prove(st, self.cat, z, 'an empty octet string is reported different from no digits')
            return
        if not st.store.ge(h - 1):
            raise Split([[('ge', h - 1)], [('ge', -h)]])
        c = st.ghosts.get('$cmp')
        if c is None:
            st.lose('compared without memcmp')
        ok = c is not None and c[0] == 1 and st.store.eq(c[1] - h)
        e.prove(st, self.cat, ok, 'an octet string is not compared with all bytes the digits stand for')
        if ok:
            e.prove(st, self.cat, st.store.eq(c[2]) if z else st.store.neq(c[2]),
                    'an octet string is reported %s whatever the digits stand for' % ('equal' if z else 'different'))


# ---------------------------------------------------------------- hexadecimal output
class StrhexEngine(HelperEngine):
    """$k bytes of the string have been turned into $o characters; $m of them, the first ones, were taken over as they are"""

    def watched(self, st, o):
        return st.ghosts.get('$out') == o.oid

    def on_alloc(self, st, n, ins, old=None):
        pass

    def new_heap(self, st, n, ins, zero=False, name='block'):
        p = HelperEngine.new_heap(self, st, n, ins, zero, name)
        if '$mon' in st.ghosts and st.ghosts.get('$out') is None:
            st.ghosts['$out'] = p.oid
        return p

    def invariants(self, st):
        g = st.ghosts
        return (g['$o'] - g['$k'] * 3 + g['$m'] * 2,) if '$o' in g else ()

    def localtable(self, st, o, off, size):
        """complete, constant, one byte each"""
        c = o.cells
        if o.kind != 'stack' or size != 1 or o.size is None or o.size.t or not 16 <= o.size.c <= 64 or len(c) != o.size.c:
            return False
        if not all(k in c and c[k][0] == 1 and isinstance(c[k][1], Lin) and not c[k][1].t for k in range(o.size.c)):
            return False
        o.cells = {k: c[k] for k in range(o.size.c)}
        return True

    def nibble(self, st, v, x, nm):
        """v is the character of the digit x"""
        if not isinstance(v, Lin):
            return False
        v = st.store.norm(self.uview(st, v, 8))
        if not v.t:
            h = HEXCH.get(v.c)
            return h is not None and st.store.eq(x - h)
        s = v.t[0][0]
        if len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0 and s in DEF and DEF[s][0] == 'tab':
            _, name, off, size = DEF[s]
            if isinstance(name, tuple):
                return size == 1 and len(name) >= 16 and all(HEXCH.get(name[k] % 256) == k for k in range(16)) and st.store.eq(st.store.norm(off - x))
            for o in st.mem.values():
                if o.name == name and o.attrs.get('const') or o.name == name and o.base[0] == 'cdata':
                    tab = {a: c[1].c % 256 for a, c in o.cells.items() if c[0] == 1 and isinstance(c[1], Lin) and not c[1].t}
                    good = all(HEXCH.get(tab.get(k)) == k for k in range(16))
                    return good and st.store.eq(st.store.norm(off - x))
        if not st.store.ge(x - 10) and not st.store.ge(-x + 9):
            raise Split([[('ge', x - 10)], [('ge', -x + 9)]])
        if st.store.ge(-x + 9):
            return st.store.eq(v - x - 48)
        return st.store.eq(v - x - 87) or st.store.eq(v - x - 55)

    def settle(self, st):
        try:
            self.convert(st)
        except Split as sp:
            sp.mut = True
            raise

    def convert(self, st):
        g = st.ghosts
        p = [off for oid, off in g.get('$pend', ()) if oid == g.get('$out')]
        while p:
            o = st.mem[g['$out']]
            at = g['$o']
            hit = [x for x in p if st.store.eq(x - at)]
            if not hit:
                break
            k = g['$k']
            n = g['$len']
            if not st.store.ge(n - k - 1):
                if st.store.ge(k - n):
                    break                      # the terminator
                raise Split([[('ge', n - k - 1)], [('ge', k - n)]])
            b = self.uview(st, self.read(st, st.mem[g['$data'].oid], st.store.norm(g['$data'].off + k), 1, None, None), 8)
            v = self.read(st, o, at, 1, None, None)
            two = [x for x in p if st.store.eq(x - at - 1)]
            if two:
                w = self.read(st, o, st.store.norm(at + 1), 1, None, None)
                hi = st.store.floordiv(b, 16)
                lo = st.store.norm(b - hi * 16)
                self.prove(st, 'C23', self.nibble(st, v, hi, 'high'), 'the first character for a byte is not its high digit')
                self.prove(st, 'C23', self.nibble(st, w, lo, 'low'), 'the second character for a byte is not its low digit')
                sp = [x for x in p if st.store.eq(x - at - 2)]
                x = self.read(st, o, st.store.norm(at + 2), 1, None, None) if sp else None
                self.prove(st, 'C23', isinstance(x, Lin) and st.store.eq(self.uview(st, x, 8) - 32), 'the digits of a byte are not followed by a space')
                g['$ph'] = 'hex'
                step = 3
            else:
                self.prove(st, 'C23', g['$mixed'], 'a byte is taken over as it is although digits are asked for')
                self.prove(st, 'C23', g['$ph'] == 'raw', 'a byte is taken over as it is behind digits')
                ok = isinstance(v, Lin) and st.store.eq(st.store.norm(self.uview(st, v, 8) - b))
                self.prove(st, 'C23', ok, 'a character that is no digit is not the byte of the string')
                if ok:
                    self.prove(st, 'C23', st.store.ge(b - 32) and st.store.ge(-b + 126), 'a byte that is no printable character is taken over as it is')
                g['$m'] = st.store.norm(g['$m'] + 1)
                step = 1
            p = [x for x in p if not any(st.store.eq(x - at - j) for j in range(step))]
            g['$k'] = st.store.norm(k + 1)
            g['$o'] = st.store.norm(at + step)
            g['$pend'] = tuple((g['$out'], x) for x in p)
        if p:
            g['$pend'] = tuple((g['$out'], x) for x in p)
        else:
            g.pop('$pend', None)


class StrhexRoot(HelperRoot):
    ENGINE = StrhexEngine

    def run(self):
        e = self.e
        sp, so = self.specs.get('sml_value'), self.specs.get('octet_string')
        for mixed in (False, True):
            for kind in ('null', 'nobytes', 'nostr', 'empty', 'string'):
                st = fresh_state()
                res = Obj('heap', C(8), ('op', new_cid()), 'result')
                res.attrs['borrowed'] = 1
                res.cells[0] = (8, NULL)
                rp = st.add(res)
                n = ZERO
                d = NULL
                v = NULL
                if kind != 'null':
                    b = NULL
                    if kind != 'nobytes':
                        if kind in ('string', 'empty'):
                            n = st.sym('len', 1, MAXIN // 4) if kind == 'string' else ZERO
                            x = Obj('heap', n if kind == 'string' else ONE, ('op', new_cid()), 'string')
                            x.attrs['borrowed'] = x.attrs['input'] = 1
                            d = st.add(x)
                        x = Obj('heap', C(so.size), ('zero',), 'octet_string')
                        x.attrs['borrowed'] = x.attrs['input'] = 1
                        x.cells[so.byname['str'].off] = (8, d)
                        x.cells[so.byname['len'].off] = (4, n)
                        b = st.add(x)
                    x = Obj('heap', C(sp.size), ('undef',), 'value')
                    x.attrs['borrowed'] = x.attrs['input'] = 1
                    for f in sp.fields.values():
                        x.cells[f.off] = (f.size, ZERO if f.name == 'type' else b)
                    v = st.add(x)
                st.ghosts.update({'$mon': 1, '$k': ZERO, '$o': ZERO, '$m': ZERO, '$ph': 'raw', '$mixed': mixed, '$len': n, '$data': d, '$out': None})
                self.outs(st, [v, rp, C(int(mixed))], lambda s, r: self.exit(s, r, rp, kind))
        return self

    def exit(self, st, v, rp, kind):
        e = self.e
        e.settle(st)
        g = st.ghosts
        v = self.nonempty(st, v)
        res = e.nz(st, e.read(st, st.mem[rp.oid], ZERO, 8, ptrty(), None))
        if kind in ('null', 'nobytes', 'nostr'):
            self.case('nothing')
            e.prove(st, self.cat, v is NULL, 'a string is returned for a value that holds none')
            return
        self.case('string' if kind == 'string' else 'empty')
        ok = isinstance(v, Ptr) and v.oid in st.mem and st.mem[v.oid].kind == 'heap' and not st.mem[v.oid].freed and st.store.eq(v.off)
        e.prove(st, self.cat, ok, 'no string is returned')
        if not ok:
            return
        e.prove(st, self.cat, isinstance(res, Ptr) and res.oid == v.oid and st.store.eq(res.off), 'the string is not stored where the caller asked for it')
        o = st.mem[v.oid]
        if v.oid != g['$out']:
            st.lose('result is another block')
        at = g['$o']
        e.prove(st, self.cat, st.store.eq(st.store.norm(g['$k'] - g['$len'])), 'not every byte of the string is converted, once and in order', g['$k'] - g['$len'])
        x = e.read(st, o, at, 1, None, None)
        e.prove(st, self.cat, isinstance(x, Lin) and st.store.eq(e.uview(st, x, 8)), 'the characters are not followed by a terminator')
        self.noleak(st, [v.oid])


# ---------------------------------------------------------------- output
class HexdumpRoot(HelperRoot):
    def run(self):
        for empty in (False, True):
            st = fresh_state()
            n = ZERO if empty else st.sym('len', 1, MAXIN)
            p = NULL
            if not empty:
                x = Obj('heap', n, ('op', new_cid()), 'bytes')
                x.attrs['borrowed'] = x.attrs['input'] = 1
                p = st.add(x)
            self.outs(st, [p, n], lambda s, r: self.case('empty' if empty else 'bytes'))
        return self


class PrintRoot(Root):
    """sml_file_print on every file the parser delivers"""

    def run(self):
        st = fresh_state()
        p = self.e.typed(st, 'sml_file', 'parsed', name='file')
        self.outs(st, [p], lambda s, r: self.case('file'))
        return self


# ---------------------------------------------------------------- transaction ids
class UuidEngine(RootEngine):
    """$rnd: the bytes the random source gave"""
    MAXCLASS = 64

    def b_read(self, st, a, ins):
        # a read that gives all it is asked for is a case of its own
        n = self.num(st, a[2], 64, ins, 'length')
        if not st.store.ge(n - 1):
            return RootEngine.b_read(self, st, a, ins)
        self.target(st, a[1], ins, 'write', n)
        full = st.copy()
        off = full.store.norm(a[1].off)
        self.write_region(full, a[1].oid, off, off + n, 'init', new_cid())
        self.event(full, ('read', self.num(full, a[0], 32, ins, signed=True), a[1].oid, off, n, full.store.norm(n)))
        outs = RootEngine.b_read(self, st, a, ins)
        outs = [(s, r) for s, r in outs if not s.store.eq(r - n) and (s.store.neq(r - n) or s.store.add_ne(r - n))]
        return outs + [(full, n)]

    def builtin(self, st, name, args, ins):
        outs = RootEngine.builtin(self, st, name, args, ins)
        if name == 'close' and len(outs) == 1:
            # a failure is a case of its own: the program may distrust what it has read
            bad = outs[0][0].copy()
            bad.ghosts['$badclose'] = True
            return [(outs[0][0], ZERO), (bad, C(-1))]
        return outs

    def event(self, st, ev, ins=None):
        if ev[0] == 'read' and isinstance(ev[5], Lin) and st.store.eq(ev[5] - 16) and ev[2] in st.mem:
            bs = [self.read(st, st.mem[ev[2]], st.store.norm(ev[3] + k), 1, None, ins) for k in range(16)]
            st.ghosts['$rnd'] = tuple(st.store.norm(self.uview(st, b, 8)) if isinstance(b, Lin) else None for b in bs)
        RootEngine.event(self, st, ev, ins)


class UuidRoot(Root):
    """sixteen initialised bytes, whatever the random source does; without libuuid marked as version 4, variant 1"""
    cat = 'C27'

    def engine(self):
        return UuidEngine

    def __init__(self, prog, specs, fn, lib, opts=None):
        self.lib = lib
        Root.__init__(self, prog, specs, fn, opts)

    def run(self):
        st = fresh_state()
        self.whole = False
        self.outs(st, [], self.exit)
        if not self.lib and not self.e.undecided:
            self.e.prove(fresh_state(), self.cat, self.whole, 'no run takes all bytes of a transaction id from the random source')
        return self

    def exit(self, st, v):
        e = self.e
        v = e.nz(st, v)
        if isinstance(v, Ptr) and v.oid in st.mem and st.mem[v.oid].mnull is not None:
            raise Split([[('nonnull', v.oid)], [('null', v.oid)]])
        got = ZERO
        for ev in st.trace:
            if ev[0] == 'read':
                got = got + ev[5] if isinstance(ev[5], Lin) else got
            elif ev[0] not in ('open', 'close'):
                self.whole = self.whole or ev[0] in ('rep', 'fread', 'getrandom')
        if '$badclose' not in st.ghosts and st.feasible([('ge', got - 16)]) is not None:
            self.whole = True
        opened = [ev for ev in st.trace if ev[0] == 'open']
        full = '$badclose' not in st.ghosts and any(ev[0] == 'read' and st.store.eq(ev[5] - 16) for ev in st.trace)
        self.case('libuuid' if self.lib else 'full' if full else 'failing')
        fds = [ev[2] for ev in opened if isinstance(ev[2], Lin) and not st.store.eq(ev[2] + 1)]
        shut = [ev[1] for ev in st.trace if ev[0] == 'close']
        for fd in fds:
            n = sum(1 for x in shut if isinstance(x, Lin) and st.store.eq(x - fd))
            e.prove(st, self.cat, n >= 1, 'the random source is not closed')
            e.prove(st, self.cat, n <= 1, 'the random source is closed twice')
        e.prove(st, self.cat, len(shut) <= len(fds), 'a descriptor is closed that was not opened')
        for ev in opened:
            e.prove(st, self.cat, ev[1] in ('/dev/urandom', '/dev/random'), 'the random bytes do not come from the system random source')
        ok = isinstance(v, Ptr) and v.oid in st.mem and not st.mem[v.oid].freed and st.store.eq(v.off)
        e.prove(st, self.cat, ok, 'no octet string is returned')
        if not ok:
            return
        sp = self.specs.get('octet_string')
        o = st.mem[v.oid]
        n = fieldval(e, st, o, sp.byname['len'])
        d = e.nz(st, fieldval(e, st, o, sp.byname['str']))
        ok = isinstance(n, Lin) and st.store.eq(n - 16) and isinstance(d, Ptr) and d.oid in st.mem and st.store.eq(d.off)
        e.prove(st, self.cat, ok, 'a transaction id does not have 16 bytes')
        own = [v.oid]
        if ok:
            own.append(d.oid)
            so = st.mem[d.oid]
            ok = so.size is not None and st.store.ge(so.size - 16) and e.content_init(st, so, ZERO, C(16), None) is not False
            e.prove(st, self.cat, ok, 'the bytes of a transaction id are not all initialised')
            if ok:
                bs = [e.read(st, so, C(k), 1, None, None) for k in range(16)]
                for k, b in enumerate(bs):
                    self.idbyte(st, k, b, full)
        for x in self.alive(st, own):
            e.prove(st, self.cat, False, 'leak: the %s allocated at %s is not released' % (x.hint or x.name, x.site))
        e.prove(st, self.cat, True, '')

    def idbyte(self, st, k, b, full):
        e = self.e
        if not isinstance(b, Lin):
            e.prove(st, self.cat, False, 'byte %d of a transaction id is not initialised' % k)
            return
        b = st.store.norm(e.uview(st, b, 8))
        if not self.lib and k == 6:
            e.prove(st, self.cat, st.store.eq(st.store.floordiv(b, 16) - 4), 'a transaction id is not marked as version 4')
            self.keeps(st, k, b, 16, full)
        elif not self.lib and k == 8:
            e.prove(st, self.cat, st.store.eq(st.store.floordiv(b, 64) - 2), 'a transaction id is not marked as variant 1')
            self.keeps(st, k, b, 64, full)
        elif self.lib or full:
            r = st.ghosts.get('$rnd')
            if r is not None:
                ok = isinstance(r[k], Lin) and st.store.eq(b - r[k])
            else:
                ok = len(b.t) == 1 and b.c == 0 and b.t[0][1] == 1 and b.t[0][0] in DEF and DEF[b.t[0][0]][0] == 'byte'
            e.prove(st, self.cat, ok, 'byte %d of a transaction id is not the one the random source gave' % k)

    def keeps(self, st, k, b, m, full):
        r = st.ghosts.get('$rnd')
        if not full or r is None or not isinstance(r[k], Lin):
            return
        d = st.store.norm(b - st.store.floordiv(b, m) * m - r[k] + st.store.floordiv(r[k], m) * m)
        self.e.prove(st, self.cat, st.store.eq(d), 'byte %d of a transaction id does not keep the random bits' % k)


# ---------------------------------------------------------------- the example server
class ServerEngine(HelperEngine):
    """the receiver, over what the parser promises"""
    MAXCLASS = 100

    def contract(self, st, callee, args, ins):
        if callee.name == 'sml_file_parse':
            p = self.nz(st, args[0])
            n = self.num(st, args[1], 64, ins, 'length')
            o = self.target(st, p, ins, 'read')
            if not (st.store.ge(p.off) and st.store.ge(n) and st.store.ge(o.size - p.off - n)):
                self.report(st, 'oob-read', ins, 'bytes outside of the frame are parsed', o.size - p.off - n)
            return [(st, self.typed(st, 'sml_file', 'parsed', name='file'))]
        if callee.mod.server and self.lookup(callee):
            kinds = set()
            self.opts['unroll'] = 400
            try:
                for s, v in self.exec_fn(callee, args, st.copy(), ins):
                    v = self.nz(s, v)
                    o = s.mem.get(v.oid) or {o.oid: o for o in self.globobj.values()}.get(v.oid) if isinstance(v, Ptr) else None
                    kinds.add(0 if v is NULL else 1 if o is not None and self.text(o) and s.store.eq(v.off) else 2)
            finally:
                self.opts.pop('unroll')
            outs = []
            if kinds & {0}:
                outs.append((st.copy(), NULL))
            if kinds & {1}:
                s = st.copy()
                o = Obj('global', None, ('op', new_cid()), 'text')
                o.attrs['cstring'] = 1
                outs.append((s, s.add(o)))
            if kinds and kinds <= {0, 1}:
                return outs
            return None
        if callee.name == 'sml_file_print':
            return [(st, None)]            # has a root of its own
        if callee.name == 'sml_value_to_double':
            v = self.present(st, args[0])
            if v is NULL:
                self.report(st, 'null', ins, 'sml_value_to_double of an absent value')
                raise Kill()
            return [(st, Flt(('value', v.oid)))]
        if callee.name == 'sml_value_to_strhex':
            # decided with the function itself
            v = self.present(st, args[0])
            if v is not NULL:
                v = self.present(st, self.load(st, Ptr(v.oid, v.off + self.specs.get('sml_value').byname['data'].off), Ty('ptr'), ins))
            if v is not NULL:
                sp = self.specs.get('octet_string')
                n = self.load(st, Ptr(v.oid, v.off + sp.byname['len'].off), Ty('int', 32), ins)
                v = self.present(st, self.load(st, Ptr(v.oid, v.off + sp.byname['str'].off), Ty('ptr'), ins))
            if v is NULL:
                return [(st, NULL)]
            r = self.new_heap(st, n * 3 + 1, ins, name='hex')
            w = st.wobj(r.oid)
            w.base = ('op', new_cid())
            w.attrs['cstring'] = 1
            self.storev(st, self.nz(st, args[1]), r, Ty('ptr'), ins)
            return [(st, r)]
        return HelperEngine.contract(self, st, callee, args, ins)


    def normalize(self, st):
        """entries that are left behind are complete: which of their fields have been looked at does not matter any more"""
        for oid in list(st.mem):           # a pointer to what is gone is as good as none
            o = st.mem[oid]
            if o.kind == 'stack' and o.base[0] == 'undef' and not o.log:
                gone = [k for k, (s, v) in o.cells.items() if isinstance(v, Ptr) and v.oid in st.mem and st.mem[v.oid].freed]
                if gone:
                    o = st.wobj(oid)
                    o.cells = {k: v for k, v in o.cells.items() if k not in gone}
        refs = self.refs(st)
        for oid in list(st.mem):
            o = st.mem.get(oid)
            if o is None or o.freed or o.base[0] != 'typed' or not o.cells or o.base[1] not in PAIRS and 'elem_of' not in o.attrs:
                continue
            nx = self.specs.off(o.base[1], PAIRS[o.base[1]]) if o.base[1] in PAIRS else None
            own = self.conform(st, oid, o.base[1], o.base[2], skip=('next',))
            if own is None or any(w[0] != 'o' or w[1] not in own for x in own if x != oid for w in refs.get(x, ())):
                continue
            w = st.wobj(oid)
            w.cells = {k: v for k, v in w.cells.items() if k == nx}
            for x in own:
                if x != oid:
                    del st.mem[x]
        return HelperEngine.normalize(self, st)

    @staticmethod
    def lookup(f):
        """takes numbers, gives a pointer, has no effects"""
        return f.ret.k == 'ptr' and f.params and all(t.k == 'int' for t, _ in f.params) \
            and not any(i.op == 'store' or i.op == 'call' and not (i.x.k == 'glob' and i.x.v.startswith('llvm.dbg')) for b in f.blocks.values() for i in b.insts)

    @staticmethod
    def text(o):
        return bool(o.attrs.get('cstring')) or o.base[0] == 'cdata' and any(isinstance(v, Lin) and not v.t and v.c == 0 for s, v in o.cells.values())

    def present(self, st, p):
        p = self.nz(st, p)
        if isinstance(p, Ptr) and p.oid in st.mem and st.mem[p.oid].mnull is not None:
            raise Split([[('nonnull', p.oid)], [('null', p.oid)]])
        return p

    def event(self, st, ev, ins=None):
        pass


class ServerRoot(Root):
    """the receiver of sml_server on every frame sml_transport_read delivers"""
    cat = 'C26'

    def engine(self):
        return ServerEngine

    def run(self):
        st = fresh_state()
        n = st.sym('length', 16, MAXIN)
        d = Obj('heap', n, ('op', new_cid()), 'frame')
        d.attrs['borrowed'] = d.attrs['input'] = 1
        p = st.add(d)
        self.outs(st, [p, n], lambda s, v: self.exit(s, v))
        return self

    def exit(self, st, v):
        e = self.e
        self.case('frame')
        for x in self.alive(st):
            e.prove(st, self.cat, False, 'leak: the %s allocated at %s is not released' % (x.hint or x.name, x.site))
        e.prove(st, self.cat, True, '')
