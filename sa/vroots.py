"""Entry points decided on the exact bytes: type-length fields, numbers, booleans."""
from .core import *
from .spec import *
from .engine import Incomplete
from .memory import MAXN
from .roots import RootEngine, ParseRoot, Mismatch, fresh_state, mkinput, decide, cond, fieldval, MAXIN
from .wroots import mkoutput, WriteRoot, WriteEngine
from .xroots import Root, same_bytes

INTMAX = (1 << 31) - 1


def setbyte(e, st, oid, off, v):
    st.wobj(oid)
    e.write(st, oid, st.store.norm(off), 1, v)


def bufstate(root, st, bp):
    """(cursor, error, length, data pointer) of the buffer on return"""
    e = root.e
    b = st.mem[bp.oid]
    sp = root.specs.get('sml_buffer')
    F = lambda n: e._fld(st, b, sp.byname[n])
    c, er, L, d = F('cursor'), F('error'), F('buffer_len'), e.nz(st, F('buffer'))
    if isinstance(er, bool):
        er = C(int(er))
    if isinstance(er, Cond):
        raise Split([[er.atom()], [er.neg().atom()]])
    return e.uview(st, c, 64) if isinstance(c, Lin) else None, er, L, d


def failed(root, st, er):
    return cond(root.e, st, Cond('ne', root.e.sview(st, er, 32)))


class TLDecodeRoot(Root):
    """sml_buf_get_next_length: safety for every input, the exact value for every number of header bytes"""
    cat = 'C13'
    MAXK = 12

    def run(self):
        e = self.e
        # arbitrary input
        for dirty in (False, True):
            st = fresh_state()
            bp, dp, L, c0 = mkinput(e, st)
            if dirty:
                fe = self.specs.get('sml_buffer').byname['error']
                er = st.sym('err0', -(1 << 31), INTMAX)
                st.store.add_ne(er)
                st.wobj(bp.oid).cells[fe.off] = (fe.size, er)
            self.outs(st, [bp], lambda s, v: self.anyinput(s, v, bp, dp, L, c0, dirty))
        e.opts['unroll'] = self.MAXK + 2
        for lst in (False, True):
            for k in range(1, self.MAXK + 1):
                for whole in (True, False):
                    st = fresh_state()
                    bp, dp, L, c0 = mkinput(e, st)
                    if whole:
                        st.store.add_ge(L - c0 - k)
                    else:
                        st.store.add_eq(L - c0 - k)
                    raw = ZERO
                    for i in range(k):
                        d = st.sym('d%d' % i, 0, 15)
                        b = d + (0 if whole and i == k - 1 else 0x80)
                        if i == 0:
                            if lst:
                                b = b + 0x70
                            else:
                                ty = st.sym('ty', 0, 6)
                                b = b + ty * 16
                        raw = raw * 16 + d
                        setbyte(e, st, dp.oid, c0 + i, b)
                    self.outs(st, [bp], lambda s, v: self.exact(s, v, bp, dp, L, c0, k, raw, lst, whole))
        e.opts.pop('unroll')
        return self

    def result(self, st, v):
        e = self.e
        if not isinstance(v, Lin):
            if isinstance(v, Cond):
                raise Split([[v.atom()], [v.neg().atom()]])
            e.prove(st, self.cat, False, 'the result is not a number')
            raise Kill()
        return st.store.norm(e.sview(st, v, 32))

    def common(self, st, bp, dp, L, c0):
        e = self.e
        c1, er, L1, d = bufstate(self, st, bp)
        if c1 is None or not isinstance(er, Lin):
            e.prove(st, 'C01', False, 'the buffer is not intact on return')
            raise Kill()
        e.prove(st, 'C20', isinstance(d, Ptr) and d.oid == dp.oid and st.store.eq(d.off) and isinstance(L1, Lin) and st.store.eq(L1 - L),
                'the buffer the caller gave has been exchanged')
        e.prove(st, 'C01', st.store.ge(L - c1), 'the read position may lie beyond the end of the buffer on return', L - c1)
        return c1, er

    def anyinput(self, st, v, bp, dp, L, c0, dirty):
        e = self.e
        c1, er = self.common(st, bp, dp, L, c0)
        bad = failed(self, st, er)
        if dirty:
            self.case('with a pending error')
            e.prove(st, 'C04', bad, 'an error flag set before the call is cleared')
            return
        if bad:
            self.case('error')
            n = self.result(st, v)
            e.prove(st, 'C04', st.store.ge(-n - 1), 'a length is returned together with an error', -n - 1)
            return
        self.case('length')
        e.prove(st, 'C05', st.store.ge(c1 - c0 - 1), 'success without consuming the header', c1 - c0 - 1)

    def exact(self, st, v, bp, dp, L, c0, k, raw, lst, whole):
        e = self.e
        c1, er = self.common(st, bp, dp, L, c0)
        want = raw if lst else raw - k
        what = 'header of %d byte%s%s' % (k, 's' if k > 1 else '', ' of a list' if lst else '')
        if failed(self, st, er):
            self.case('rejected')
            if whole:
                # only what does not fit may be rejected
                low = st.store.norm(INTMAX - raw)
                ok = st.feasible([('ge', low)] + ([] if lst else [('ge', raw - k)])) is None
                e.prove(st, self.cat, ok, 'a valid %s is rejected' % what)
            return
        if not whole:
            e.prove(st, 'C04', False, 'a type-length field cut off after %d bytes is accepted' % k)
            return
        self.case('decoded')
        if st.feasible([('ge', raw - INTMAX - 1)]) is not None:
            e.prove(st, self.cat, False, 'the length of a %s is accepted although it does not fit' % what)
            return
        n = self.result(st, v)
        e.prove(st, self.cat, st.store.eq(st.store.norm(n - want)), 'the length of a %s is decoded wrongly' % what)
        e.prove(st, self.cat, st.store.eq(st.store.norm(c1 - c0 - k)), 'not exactly the bytes of a %s are consumed' % what)


class OutRoot(Root):
    """functions that write to a buffer at its end"""
    cat = 'C12'

    def outbuf(self, st):
        bp, dp, L, c0 = mkoutput(self.e, st)
        # the content before the write position, as it was
        o = st.mem[dp.oid]
        r = Obj('heap', c0, o.base, 'before')
        r.attrs['borrowed'] = 1
        return bp, dp, L, c0, st.add(r)

    def common(self, st, bp, L, c0, ref):
        """the buffer is intact, what was written before is unchanged; (cursor, data object or None)"""
        e = self.e
        c1, er, L1, d = bufstate(self, st, bp)
        ok = isinstance(d, Ptr) and d.oid in st.mem and not st.mem[d.oid].freed and st.store.eq(d.off) and st.mem[d.oid].kind == 'heap'
        e.prove(st, 'C12', ok, 'the output buffer refers to released or foreign memory on return')
        if c1 is None or not ok or not isinstance(L1, Lin):
            e.prove(st, 'C12', False, 'the output buffer is not intact on return')
            raise Kill()
        L1 = e.uview(st, L1, 64)
        do = st.mem[d.oid]
        if do.size is not None:
            e.prove(st, 'C12', st.store.ge(do.size - L1), 'the output buffer claims more bytes than it has', do.size - L1)
        e.prove(st, 'C12', st.store.ge(L1 - c1), 'the write position lies beyond the end of the output buffer', L1 - c1)
        e.prove(st, 'C11', isinstance(er, Lin) and st.store.eq(er), 'the error flag is set by writing')
        if st.store.ge(c0 - 1):
            same_bytes(self, st, d.oid, ZERO, ref.oid, ZERO, c0, 'C11', 'what was written before is changed')
        elif not st.store.eq(c0):
            raise Split([[('eq', c0)], [('ge', c0 - 1)]])
        self.noleak(st, {d.oid})
        return c1, st.mem[d.oid], L1

    def byte(self, st, do, off):
        e = self.e
        b = e.read(st, do, st.store.norm(off), 1, None, None)
        if isinstance(b, Cond):
            b = cond(e, st, b)
        if isinstance(b, bool):
            b = C(int(b))
        return st.store.norm(e.uview(st, b, 8)) if isinstance(b, Lin) else None


class TLEncodeRoot(OutRoot):
    """sml_buf_set_type_and_length: the shortest field, byte by byte"""
    TYPES = ((0x00, 'an octet string'), (0x40, 'a boolean'), (0x50, 'a signed integer'), (0x60, 'an unsigned integer'), (0x70, 'a list'))

    def run(self):
        e = self.e
        e.opts['unroll'] = 40
        # any argument: memory safety only
        st = fresh_state()
        bp, dp, L, c0, ref = self.outbuf(st)
        ty, l = st.sym('type', 0, 255), st.sym('l', 0, (1 << 32) - 1)
        self.outs(st, [bp, ty, l], lambda s, v: self.safe(s, bp, L, c0, ref))
        for t, name in self.TYPES:
            for k in range(1, 9):
                st = fresh_state()
                bp, dp, L, c0, ref = self.outbuf(st)
                ds = [st.sym('d%d' % i, 0, 15) for i in range(k)]
                E = ZERO
                for i in range(k):
                    E = E + ds[i] * (1 << (4 * i))
                l = E if t == 0x70 else E - k
                st.store.add_ge(l)
                st.store.add_ge(C(INTMAX - 16) - E)
                if k > 1:
                    # no shorter field will do
                    if t == 0x70:
                        st.store.add_ge(ds[k - 1] - 1)
                    else:
                        st.store.add_ge(l + (k - 1) - (1 << (4 * (k - 1))))
                if st.store.bad:
                    continue
                self.outs(st, [bp, C(t), l], lambda s, v: self.exact(s, bp, L, c0, ref, t, name, k, ds))
        return self

    def safe(self, st, bp, L, c0, ref):
        self.case('any length')
        c1, do, L1 = self.common(st, bp, L, c0, ref)
        self.e.prove(st, 'C11', st.store.ge(c1 - c0 - 1), 'no type-length field is written', c1 - c0 - 1)

    def exact(self, st, bp, L, c0, ref, t, name, k, ds):
        e = self.e
        self.case('encoded')
        c1, do, L1 = self.common(st, bp, L, c0, ref)
        what = 'the type-length field of %s with %d byte%s' % (name, k, 's' if k > 1 else '')
        n = e.prove(st, 'C13', st.store.eq(st.store.norm(c1 - c0 - k)), what + ' does not have this length')
        if not n:
            return
        for i in range(k):
            b = self.byte(st, do, c0 + i)
            want = ds[k - 1 - i] + (t if i == 0 else 0) + (0x80 if i < k - 1 else 0)
            e.prove(st, 'C13', b is not None and st.store.eq(st.store.norm(b - want)), 'byte %d of %s is wrong' % (i, what))


class ReserveRoot(OutRoot):
    """sml_buf_reserve"""

    def run(self):
        st = fresh_state()
        bp, dp, L, c0, ref = self.outbuf(st)
        n = st.sym('bytes', 0, 1 << 32)
        self.outs(st, [bp, n], lambda s, v: self.exit(s, v, bp, L, c0, ref, n))
        return self

    def exit(self, st, v, bp, L, c0, ref, n):
        e = self.e
        c1, do, L1 = self.common(st, bp, L, c0, ref)
        self.case('reserved')
        e.prove(st, 'C12', st.store.eq(st.store.norm(c1 - c0)), 'reserving space moves the write position')
        e.prove(st, 'C12', st.store.ge(L1 - c0 - n), 'less space than asked for is reserved', L1 - c0 - n)
        e.prove(st, 'C12', st.store.ge(L1 - L), 'the output buffer shrinks', L1 - L)
        if isinstance(v, Cond):
            v = cond(e, st, v)
        v = C(int(v)) if isinstance(v, bool) else v
        e.prove(st, 'C12', isinstance(v, Lin) and not st.feasible([('eq', e.sview(st, v, 32))]), 'failure is reported although the space is there')


class SkipRoot(OutRoot):
    """sml_buf_optional_write"""

    def run(self):
        st = fresh_state()
        bp, dp, L, c0, ref = self.outbuf(st)
        self.outs(st, [bp], lambda s, v: self.exit(s, bp, L, c0, ref))
        return self

    def exit(self, st, bp, L, c0, ref):
        e = self.e
        c1, do, L1 = self.common(st, bp, L, c0, ref)
        self.case('skip marker')
        ok = e.prove(st, 'C11', st.store.eq(st.store.norm(c1 - c0 - 1)), 'the skip marker is not written as one byte')
        if ok:
            b = self.byte(st, do, c0)
            e.prove(st, 'C11', b is not None and st.store.eq(b - 1), 'the skip marker is not the byte 0x01')


# ---------------------------------------------------------------- numbers, booleans
class NumAny(ParseRoot):
    """sml_number_parse on any input, one field size"""

    def __init__(self, prog, specs, fn, ty, mx, opts):
        self.ty, self.mx = ty, mx
        ParseRoot.__init__(self, prog, specs, fn, '%s%d' % ('i' if ty == TYPE_INT else 'u', 8 * mx), 'num%d' % mx, opts=opts)

    def args(self, st, bp):
        return [bp, C(self.ty), C(self.mx)]


class Multi:
    """several roots over one engine budget, seen as one"""

    def __init__(self, roots):
        self.roots = roots
        self.e = roots[0].e
        self.cases = {}

    def run(self):
        e = self.e
        for r in self.roots:
            r.run()
            for k, v in r.cases.items():
                self.cases[k] = self.cases.get(k, 0) + v
            if r.e is e:
                continue
            for a in ('findings', 'undecided', 'notes'):
                for k, v in getattr(r.e, a).items():
                    getattr(e, a).setdefault(k, v)
            for k, v in r.e.oblig.items():
                e.oblig[k] = e.oblig.get(k, 0) + v
            for k, v in r.e.stats.items():
                e.stats[k] = e.stats.get(k, 0) + v
            e.fnseen |= r.e.fnseen
            e.callsites |= r.e.callsites
            e.exits += r.e.exits
        return self


class ExactParse(Root):
    """a parse function of simple types on inputs whose header bytes are known and whose content bytes are symbols"""
    cat = 'C14'
    INLINE = ('sml_buf_get_next_length',)

    def __init__(self, prog, specs, fn, opts=None):
        Root.__init__(self, prog, specs, fn, opts)
        self.e.opts['inline'] = tuple(self.e.opts.get('inline', ())) + self.INLINE
        self.e.opts['unroll'] = 24

    def input(self, bts, room):
        """room: bytes after the given ones (None: some), negative: cut off"""
        e = self.e
        st = fresh_state()
        bp, dp, L, c0 = mkinput(e, st)
        if room is None:
            st.store.add_ge(L - c0 - len(bts) - 1)
        else:
            st.store.add_eq(L - c0 - len(bts) - room)
        for i, b in enumerate(bts):
            if room is not None and room < 0 and i >= len(bts) + room:
                break
            v = b(st) if callable(b) else b
            bts[i] = v if isinstance(v, Lin) else C(v)
            setbyte(e, st, dp.oid, c0 + i, bts[i])
        return st, bp, dp, L, c0

    def end(self, st, v, bp, dp, L, c0):
        """(result, consumed) of a successful parse, None after an error"""
        e = self.e
        c1, er, L1, d = bufstate(self, st, bp)
        if c1 is None or not isinstance(er, Lin):
            e.prove(st, 'C01', False, 'the buffer is not intact on return')
            raise Kill()
        if failed(self, st, er):
            return None
        v = e.nz(st, v)
        if isinstance(v, Ptr) and v.oid in st.mem and st.mem[v.oid].mnull is not None:
            raise Split([[('nonnull', v.oid)], [('null', v.oid)]])
        return v, st.store.norm(c1 - c0)

    def byte(self, st, p, i):
        e = self.e
        o = st.mem.get(p.oid)
        if o is None or o.freed or o.size is None or not st.store.ge(o.size - p.off - i - 1):
            return None
        b = e.read(st, o, st.store.norm(p.off + i), 1, None, None)
        if isinstance(b, Cond):
            b = cond(e, st, b)
        if isinstance(b, bool):
            b = C(int(b))
        return st.store.norm(e.uview(st, b, 8)) if isinstance(b, Lin) else None


class NumParseRoot(ExactParse):
    """sml_number_parse: every encoded size into every field size"""

    def __init__(self, prog, specs, fn, ty, opts=None):
        ExactParse.__init__(self, prog, specs, fn, opts)
        self.ty = ty

    def run(self):
        ty = self.ty
        for mx in (1, 2, 4, 8):
            for hdr in (1, 2):
                for n in range(0, 11):
                    for room in (None, 0, -1):
                        if room == -1 and n == 0:
                            continue
                        self.case1(ty, mx, hdr, n, room)
            self.foreign(ty, mx)
        return self

    def data(self, n):
        out = []
        self.hi = []
        for i in range(n):
            if i == 0:
                def f(st):
                    h, l = st.sym('sign', 0, 1), st.sym('b0', 0, 127)
                    self.hi.append(h)
                    return h * 128 + l
                out.append(f)
            else:
                out.append(lambda st, i=i: st.sym('b%d' % i, 0, 255))
        return out

    def case1(self, ty, mx, hdr, n, room):
        if hdr == 1 and n + 1 > 15:
            return
        head = [ty + n + 1] if hdr == 1 else [0x80 + ty + (n + 2 >> 4), n + 2 & 15]
        bts = head + self.data(n)
        st, bp, dp, L, c0 = self.input(bts, room)
        self.outs(st, [bp, C(ty), C(mx)], lambda s, v: self.exit(s, v, bp, dp, L, c0, ty, mx, hdr, n, room, bts))

    def exit(self, st, v, bp, dp, L, c0, ty, mx, hdr, n, room, bts):
        e = self.e
        what = 'a %ssigned integer of %d bytes for a field of %d bytes' % ('' if ty == TYPE_INT else 'un', n, mx)
        r = self.end(st, v, bp, dp, L, c0)
        if r is None:
            self.case('rejected')
            if n <= mx and room is None:
                e.prove(st, self.cat, False, what + ' is rejected')
            return
        v, used = r
        self.case('accepted')
        if n > mx:
            e.prove(st, self.cat, False, what + ' is accepted')
            return
        if room == -1:
            e.prove(st, 'C01', False, what + ' is accepted although it is cut off')
            return
        if not isinstance(v, Ptr):
            e.prove(st, self.cat, False, what + ' is dropped')
            return
        e.prove(st, 'C05', st.store.eq(used - hdr - n), what + ' is not consumed exactly', used)
        s = None
        if ty == TYPE_INT and 0 < n < mx:
            h = self.hi[-1]
            if not st.store.eq(h) and not st.store.eq(h - 1):
                raise Split([[('eq', h)], [('eq', h - 1)]])
            s = C(255) if st.store.eq(h - 1) else ZERO
        for k in range(mx):
            b = self.byte(st, v, k)
            want = bts[hdr + n - 1 - k] if k < n else (s if s is not None else ZERO)
            e.prove(st, self.cat, b is not None and st.store.eq(st.store.norm(b - want)),
                    '%s: byte %d of the value (least significant first) is wrong' % (what, k))

    def foreign(self, ty, mx):
        """an element of any other type is not taken for this one"""
        for t in range(0, 8):
            if t * 16 == ty:
                continue
            for more in (0, 0x80):
                bts = [lambda st: st.sym('d', 0, 15) + t * 16 + more]
                st, bp, dp, L, c0 = self.input(bts, None)
                if t == 0 and not more:
                    st.store.add_ne(bts[0] - 1)
                self.outs(st, [bp, C(ty), C(mx)], lambda s, v: self.noexit(s, v, bp, dp, L, c0, 'an integer', t))

    def noexit(self, st, v, bp, dp, L, c0, what, t):
        r = self.end(st, v, bp, dp, L, c0)
        self.case('foreign type')
        self.e.prove(st, self.cat, r is None, '%s is accepted from an element of type 0x%x0' % (what, t))


class BoolParseRoot(ExactParse):
    """sml_boolean_parse: false exactly for the byte 0"""

    def run(self):
        for val in ('zero', 'other'):
            for room in (None, 0, -1):
                for hdr in (1, 2):
                    bts = ([0x42] if hdr == 1 else [0xc0, 0x03]) + [lambda st: st.sym('b', *((0, 0) if val == 'zero' else (1, 255)))]
                    st, bp, dp, L, c0 = self.input(bts, room)
                    self.outs(st, [bp], lambda s, v: self.exit(s, v, bp, dp, L, c0, val, hdr, room))
        for n in (0, 2, 3, 8):
            bts = [0x41 + n] + [lambda st: st.sym('b', 0, 255)] * n
            st, bp, dp, L, c0 = self.input(bts, None)
            self.outs(st, [bp], lambda s, v: self.sized(s, v, bp, dp, L, c0, n))
        for t in (0, 1, 2, 3, 5, 6, 7):
            for more in (0, 0x80):
                bts = [lambda st: st.sym('d', 0, 15) + t * 16 + more]
                st, bp, dp, L, c0 = self.input(bts, None)
                if t == 0 and not more:
                    st.store.add_ne(bts[0] - 1)
                self.outs(st, [bp], lambda s, v: self.noexit(s, v, bp, dp, L, c0, t))
        return self

    def noexit(self, st, v, bp, dp, L, c0, t):
        self.case('foreign type')
        self.e.prove(st, self.cat, self.end(st, v, bp, dp, L, c0) is None, 'a boolean is accepted from an element of type 0x%x0' % t)

    def sized(self, st, v, bp, dp, L, c0, n):
        self.case('wrong size')
        self.e.prove(st, self.cat, self.end(st, v, bp, dp, L, c0) is None, 'a boolean of %d bytes is accepted' % n)

    def exit(self, st, v, bp, dp, L, c0, val, hdr, room):
        e = self.e
        r = self.end(st, v, bp, dp, L, c0)
        if r is None:
            self.case('rejected')
            if room is None:
                e.prove(st, self.cat, False, 'a boolean is rejected')
            return
        v, used = r
        if room == -1:
            e.prove(st, 'C01', False, 'a boolean is accepted although it is cut off')
            return
        self.case('accepted')
        if not isinstance(v, Ptr):
            e.prove(st, self.cat, False, 'a boolean is dropped')
            return
        e.prove(st, 'C05', st.store.eq(used - hdr - 1), 'a boolean is not consumed exactly', used)
        b = self.byte(st, v, 0)
        ok = b is not None and (st.store.eq(b) if val == 'zero' else st.store.ge(b - 1))
        e.prove(st, self.cat, ok, 'a boolean whose byte is %s does not become %s' % (val, 'false' if val == 'zero' else 'true'))


class ExactWrite(OutRoot):
    cat = 'C14'
    INLINE = ('sml_buf_set_type_and_length', 'sml_buf_reserve', 'sml_buf_optional_write')

    def __init__(self, prog, specs, fn, opts=None):
        Root.__init__(self, prog, specs, fn, opts)
        self.e.opts['inline'] = tuple(self.e.opts.get('inline', ())) + self.INLINE
        self.e.opts['unroll'] = 40

    def number(self, st, n, vals):
        o = Obj('heap', C(n), ('zero',), 'number')
        o.hint = 'num%d' % n
        o.attrs['borrowed'] = 1
        p = st.add(o)
        for i, v in enumerate(vals):
            setbyte(self.e, st, p.oid, C(i), v)
        return p

    def absent(self, st, bp, L, c0, ref):
        e = self.e
        self.case('absent')
        c1, do, L1 = self.common(st, bp, L, c0, ref)
        if e.prove(st, 'C11', st.store.eq(c1 - c0 - 1), 'an absent element is not written as one byte'):
            b = self.byte(st, do, c0)
            e.prove(st, 'C11', b is not None and st.store.eq(b - 1), 'an absent element is not written as 0x01')

    def bytes(self, st, bp, L, c0, ref, want, what):
        e = self.e
        self.case('written')
        c1, do, L1 = self.common(st, bp, L, c0, ref)
        if not e.prove(st, self.cat, st.store.eq(c1 - c0 - len(want)), '%s is not written with %d bytes' % (what, len(want)), st.store.norm(c1 - c0)):
            return
        for i, w in enumerate(want):
            b = self.byte(st, do, c0 + i)
            w = w if isinstance(w, Lin) else C(w)
            e.prove(st, self.cat, b is not None and st.store.eq(st.store.norm(b - w)), 'byte %d of %s is wrong' % (i, what))


class NumWriteRoot(ExactWrite):
    """sml_number_write: big-endian bytes at the full width"""

    def run(self):
        for ty in (TYPE_INT, TYPE_UINT):
            for n in (1, 2, 4, 8):
                st = fresh_state()
                bp, dp, L, c0, ref = self.outbuf(st)
                vals = [st.sym('b%d' % i, 0, 255) for i in range(n)]
                p = self.number(st, n, vals)
                what = '%s integer of %d bytes' % ('a signed' if ty == TYPE_INT else 'an unsigned', n)
                self.outs(st, [p, C(ty), C(n), bp], lambda s, v: self.bytes(s, bp, L, c0, ref, [ty + n + 1] + vals[::-1], what))
                st = fresh_state()
                bp, dp, L, c0, ref = self.outbuf(st)
                self.outs(st, [NULL, C(ty), C(n), bp], lambda s, v: self.absent(s, bp, L, c0, ref))
        return self


class BoolWriteRoot(ExactWrite):
    """sml_boolean_write: zero exactly for false"""

    def run(self):
        for lo, hi in ((0, 0), (1, 255)):
            st = fresh_state()
            bp, dp, L, c0, ref = self.outbuf(st)
            p = self.number(st, 1, [st.sym('b', lo, hi)])
            self.outs(st, [p, bp], lambda s, v: self.exit(s, bp, L, c0, ref, lo))
        st = fresh_state()
        bp, dp, L, c0, ref = self.outbuf(st)
        self.outs(st, [NULL, bp], lambda s, v: self.absent(s, bp, L, c0, ref))
        return self

    def exit(self, st, bp, L, c0, ref, true):
        e = self.e
        self.case('written')
        c1, do, L1 = self.common(st, bp, L, c0, ref)
        if not e.prove(st, 'C11', st.store.eq(c1 - c0 - 2), 'a boolean is not written with 2 bytes', st.store.norm(c1 - c0)):
            return
        b = self.byte(st, do, c0)
        e.prove(st, 'C11', b is not None and st.store.eq(b - 0x42), 'a boolean does not start with the byte 0x42')
        b = self.byte(st, do, c0 + 1)
        ok = b is not None and (st.store.ge(b - 1) if true else st.store.eq(b))
        e.prove(st, self.cat, ok, 'a boolean that is %s is written as the opposite' % ('true' if true else 'false'))


class NumInitRoot(ExactWrite):
    """sml_number_init: the low bytes of the number, in a block of exactly this size"""

    def run(self):
        e = self.e
        for ty in (TYPE_INT, TYPE_UINT):
            for n in (1, 2, 4, 8):
                st = fresh_state()
                bs = [st.sym('b%d' % i, 0, 255) for i in range(8)]
                num = ZERO
                for i in range(8):
                    num = num + bs[i] * (1 << 8 * i)
                self.outs(st, [num, C(ty), C(n)], lambda s, v: self.exit(s, v, n, bs))
        return self

    def exit(self, st, v, n, bs):
        e = self.e
        v = e.nz(st, v)
        self.case('made')
        if not isinstance(v, Ptr) or v.oid not in st.mem or st.mem[v.oid].size is None:
            e.prove(st, 'C29', False, 'no number is made')
            return
        o = st.mem[v.oid]
        e.prove(st, 'C29', st.store.eq(o.size - n) and not o.freed, 'the block of a number of %d bytes has %s bytes' % (n, o.size))
        self.noleak(st, {v.oid})
        for i in range(n):
            b = self.byte(st, o, C(i))
            e.prove(st, 'C29', b is not None and st.store.eq(st.store.norm(b - bs[i])), 'byte %d of a number of %d bytes is not that of the value given' % (i, n))


class NumFreeRoot(Root):
    """sml_number_free: releases the block, accepts NULL"""
    mode = 'free'

    def run(self):
        st = fresh_state()
        self.outs(st, [NULL], lambda s, v: self.case('absent'))
        st = fresh_state()
        o = Obj('heap', st.sym('n', 1, 8), ('op', new_cid()), 'number')
        p = st.add(o)
        self.outs(st, [p], lambda s, v: self.exit(s, p))
        return self

    def exit(self, st, p):
        self.case('released')
        self.noleak(st)


class ValueExact(ExactParse):
    """sml_value_parse / sml_status_parse with everything below it: type mark, width and content of every simple element"""
    INLINE = ('sml_buf_get_next_length', 'sml_number_parse', 'sml_boolean_parse', 'sml_octet_string_parse')

    def __init__(self, prog, specs, fn, spec, opts=None):
        ExactParse.__init__(self, prog, specs, fn, opts)
        self.spec = spec
        self.fs = sorted(specs.get(spec).fields.values(), key=lambda f: f.off)

    def run(self):
        status = self.spec == 'sml_status'
        what = 'status' if status else 'value'
        for ty in (TYPE_UINT,) if status else (TYPE_UINT, TYPE_INT):
            for n in range(1, 15):
                for room in (None, 0, -1):
                    hi = []
                    bts = [ty + n + 1] + NumParseRoot.data(self, n)
                    st, bp, dp, L, c0 = self.input(bts, room)
                    self.outs(st, [bp], lambda s, v: self.number(s, v, bp, dp, L, c0, ty, n, room, bts, what))
        if not status:
            for lo, hi in ((0, 0), (1, 255)):
                bts = [0x42, lambda st: st.sym('b', lo, hi)]
                st, bp, dp, L, c0 = self.input(bts, None)
                self.outs(st, [bp], lambda s, v: self.boolean(s, v, bp, dp, L, c0, lo))
            for n in (0, 1, 3, 14):
                bts = [n + 1] + [lambda st, i=i: st.sym('b%d' % i, 0, 255) for i in range(n)]
                if n == 0:
                    continue
                st, bp, dp, L, c0 = self.input(bts, None)
                self.outs(st, [bp], lambda s, v: self.octets(s, v, bp, dp, L, c0, n, bts))
        for t in (1, 2, 3, 7) + ((0, 4, 5) if status else ()):
            for more in (0, 0x80):
                bts = [lambda st: st.sym('d', 0, 15) + t * 16 + more]
                st, bp, dp, L, c0 = self.input(bts, None)
                if t == 0 and not more:
                    st.store.add_ne(bts[0] - 1)
                self.outs(st, [bp], lambda s, v: self.noexit(s, v, bp, dp, L, c0, t, what))
        return self

    def noexit(self, st, v, bp, dp, L, c0, t, what):
        self.case('foreign type')
        self.e.prove(st, 'C09', self.end(st, v, bp, dp, L, c0) is None, 'a %s is accepted from an element of type 0x%x0' % (what, t))

    def parts(self, st, v, what):
        """(type, data) of the result"""
        e = self.e
        o = st.mem.get(v.oid)
        t = fieldval(e, st, o, self.fs[0])
        t = ZERO if t is NULL else t
        if isinstance(t, Cond):
            raise Split([[t.atom()], [t.neg().atom()]])
        d = fieldval(e, st, o, self.fs[1])
        if isinstance(d, Ptr) and d.oid in st.mem and st.mem[d.oid].mnull is not None:
            raise Split([[('nonnull', d.oid)], [('null', d.oid)]])
        if not isinstance(t, Lin) or not isinstance(d, Ptr) or d.oid not in st.mem or st.mem[d.oid].freed:
            e.prove(st, self.cat, False, what + ' has no type or no content')
            raise Kill()
        return st.store.norm(e.uview(st, t, 8)), d

    def number(self, st, v, bp, dp, L, c0, ty, n, room, bts, kind):
        e = self.e
        what = 'a %s of %ssigned type with %d bytes' % (kind, '' if ty == TYPE_INT else 'un', n)
        r = self.end(st, v, bp, dp, L, c0)
        if r is None:
            self.case('rejected')
            if n <= 8 and room is None:
                e.prove(st, self.cat, False, what + ' is rejected')
            return
        v, used = r
        if n > 8 or room == -1 or not isinstance(v, Ptr):
            e.prove(st, 'C01' if room == -1 else self.cat, False, what + (' is accepted' if isinstance(v, Ptr) else ' is dropped'))
            return
        self.case('accepted')
        t, d = self.parts(st, v, what)
        w = 1 if n == 1 else 2 if n == 2 else 4 if n <= 4 else 8
        e.prove(st, 'C09', st.store.eq(t - ty - w), '%s gets the type %r' % (what, t))
        e.prove(st, 'C05', st.store.eq(used - 1 - n), what + ' is not consumed exactly', used)
        o = st.mem[d.oid]
        if not e.prove(st, 'C09', o.size is not None and st.store.eq(o.size - d.off - w), 'the content of %s has %s bytes' % (what, o.size)):
            return
        s = ZERO
        if ty == TYPE_INT and n < w:
            h = self.hi[-1]
            if not st.store.eq(h) and not st.store.eq(h - 1):
                raise Split([[('eq', h)], [('eq', h - 1)]])
            s = C(255) if st.store.eq(h - 1) else ZERO
        for k in range(w):
            b = self.byte(st, d, k)
            want = bts[n - k] if k < n else s
            e.prove(st, self.cat, b is not None and st.store.eq(st.store.norm(b - want)), 'byte %d of %s is wrong' % (k, what))

    def boolean(self, st, v, bp, dp, L, c0, true):
        e = self.e
        r = self.end(st, v, bp, dp, L, c0)
        if r is None or not isinstance(r[0], Ptr):
            e.prove(st, self.cat, False, 'a boolean value is rejected')
            return
        self.case('accepted')
        t, d = self.parts(st, r[0], 'a boolean value')
        e.prove(st, 'C09', st.store.eq(t - 0x40), 'a boolean value gets the type %r' % t)
        b = self.byte(st, d, 0)
        e.prove(st, self.cat, b is not None and (st.store.ge(b - 1) if true else st.store.eq(b)), 'a boolean value becomes its opposite')

    def octets(self, st, v, bp, dp, L, c0, n, bts):
        e = self.e
        r = self.end(st, v, bp, dp, L, c0)
        if r is None or not isinstance(r[0], Ptr):
            e.prove(st, self.cat, False, 'a string value of %d bytes is rejected' % n)
            return
        self.case('accepted')
        t, d = self.parts(st, r[0], 'a string value')
        e.prove(st, 'C09', st.store.eq(t), 'a string value gets the type %r' % t)
        sp = self.specs.get('octet_string')
        o = st.mem[d.oid]
        ln, s = fieldval(e, st, o, sp.byname['len']), fieldval(e, st, o, sp.byname['str'])
        if not e.prove(st, self.cat, isinstance(ln, Lin) and st.store.eq(ln - n) and isinstance(s, Ptr), 'a string value of %d bytes has another length' % n):
            return
        for k in range(n):
            b = self.byte(st, s, k)
            e.prove(st, self.cat, b is not None and st.store.eq(st.store.norm(b - bts[1 + k])), 'byte %d of a string value is wrong' % k)
