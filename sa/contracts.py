"""What the functions of the library promise to each other (checked for each of them as a root of its own)."""
from .core import *
from .spec import *
from .ir import Ty

MAXOUT = (1 << 31) - (1 << 16)          # encoded output stays below 2 GiB

# result absent only when the element was skipped
NULLABLE_KINDS = {'octet', 'bool', 'status', 'value', 'time', 'list', 'tree', 'treepath', 'ppv', 'period', 'tupel'}
NULL_ON_ERR = {'message', 'elem'}        # nothing is returned together with an error; other functions may return an object then
NUMT = {TYPE_INT: 'i', TYPE_UINT: 'u'}


class Iface:
    """what debug information says about a function"""
    __slots__ = ('fn', 'ret', 'params', 'role', 'spec', 'kind', 'extra')


def interfaces(prog, specs):
    """function key -> Iface for everything in the program"""
    out = {}
    for key, f in prog.funcs.items():
        t = f.mod.di.ftype(f)
        if t is None:
            continue
        it = Iface()
        it.fn, it.role, it.spec, it.kind, it.extra = f, None, None, None, 0
        di = f.mod.di
        it.ret = desc(di, specs, t[0])
        it.params = [desc(di, specs, p) for p in t[1]]
        P = it.params
        isbuf = lambda d: d == ('ptr', 'sml_buffer')
        if P and isbuf(P[0]) and it.ret[0] == 'ptr' and all(p[0] == 'int' for p in P[1:]):
            s = it.ret[1]
            if s in LAYOUT or s in SPEC_KIND or s == 'num1' and 'parse' in f.name:
                it.role, it.spec, it.extra = 'parse', s, len(P) - 1
                it.kind = 'bool' if s == 'num1' else SPEC_KIND.get(s, s)
            elif s == 'void':
                it.role, it.extra = 'parse*', len(P) - 1
        elif len(P) == 1 and P[0][0] == 'ptr' and it.ret[0] == 'void' and f.name.rstrip('_').endswith('_free'):
            it.role, it.spec = 'free', P[0][1]
            if it.spec == 'void':
                it.role = 'free*'
        elif len(P) == 2 and P[0][0] == 'ptr' and isbuf(P[1]) and it.ret[0] == 'void':
            s = P[0][1]
            it.role, it.spec = 'write', s
            it.kind = 'bool' if s == 'num1' else SPEC_KIND.get(s, s)
            if s == 'void':
                it.role = 'write*'
        if not f.mod.server:
            out[key] = it
    return out


def desc(di, specs, t):
    if t in (None, 'null'):
        return ('void',)
    s = di.strip(t)
    if s[0] == 'ptr':
        s2 = di.strip(s[1])
        if s2[0] == 'fn':
            return ('fnptr',)
        if s2[0] == 'ptr':
            return ('ptr', '*')
        r = specs.ref(di, s[1])
        return ('ptr', r or 'void')
    if s[0] == 'int':
        return ('int', s[1])
    return (s[0],)


class Buf:
    __slots__ = ('oid', 'o', 'dp', 'd', 'L', 'c', 'err')


class ContractMixin:
    NAMED = {'sml_number_parse': 'c_number_parse', 'sml_number_write': 'c_number_write', 'sml_number_free': 'c_number_free',
             'sml_sequence_parse': 'c_seq_parse', 'sml_sequence_write': 'c_seq_write', 'sml_sequence_free': 'c_seq_free',
             'sml_buf_get_next_length': 'c_next_length', 'sml_buf_set_type_and_length': 'c_set_tl',
             'sml_buf_reserve': 'c_reserve', 'sml_buf_optional_write': 'c_optional',
             'sml_crc16_calculate': 'c_crc', 'sml_crc16kermit_calculate': 'c_crc'}

    def iface(self):
        p = self.prog
        if not hasattr(p, '_ifaces'):
            p._ifaces = interfaces(p, self.specs)
        return p._ifaces

    def contract(self, st, callee, args, ins):
        if callee.name in self.opts.get('inline', ()):
            return None
        if not callee.internal:
            m = self.NAMED.get(callee.name)
            if callee.name in self.opts.get('adds', ()):
                return self.c_add(st, callee, args, ins)
            if m is not None:
                if callee is self.opts.get('rootfn') and not self.opts.get('recroot'):
                    return None
                return getattr(self, m)(st, callee, args, ins)
        it = self.iface().get(callee.key)
        if it is None or it.role is None:
            return None
        if (callee.internal or callee.name not in self.prog.api) and callee not in self.inlining:
            return None           # helpers are looked into
        if it.role == 'parse':
            return self.parse_contract(st, args[0], it.kind, it.spec, ins, self.nullable(it.kind))
        if it.role == 'free' and it.spec != 'sml_buffer':
            return self.free_contract(st, args[0], it.spec, ins, callee)
        if it.role == 'write':
            return self.write_contract(st, args[0], args[1], it.kind, it.spec, ins)
        return None

    def c_add(self, st, callee, args, ins):
        """an add function whose own root has shown that it does this: one more element, the last one, in a block that holds them"""
        arr, cnt = self.opts['adds'][callee.name]
        sp = self.specs.get(self.iface()[callee.key].params[0][1])
        fa, fc = sp.byname[arr], sp.byname[cnt]
        p = self.nz(st, args[0])
        self.target(st, p, ins, 'write', sp.size)
        ity = Ty('int', fc.size * 8)
        n = self.load(st, Ptr(p.oid, p.off + fc.off), ity, ins)
        a = self.load(st, Ptr(p.oid, p.off + fa.off), Ty('ptr'), ins)
        b = self.b_realloc(st, [a, (n + 1) * 8], ins)
        self.storev(st, Ptr(b.oid, b.off + n * 8), args[1], Ty('ptr'), ins)
        self.storev(st, Ptr(p.oid, p.off + fa.off), b, Ty('ptr'), ins)
        self.storev(st, Ptr(p.oid, p.off + fc.off), n + 1, ity, ins)
        return [(st, None)]

    def recursive(self, st, callee, args, i):
        it = self.iface().get(callee.key)
        if it is not None and it.role == 'parse':
            return self.parse_contract(st, args[0], it.kind, it.spec, i, self.nullable(it.kind))
        st.lose('recursion')
        self.note('recursive call of %s' % callee.key, i)
        return [(st, Top('recursion'))]

    def nullable(self, kind):
        return kind in NULLABLE_KINDS

    # ------------------------------------------------------------ buffers
    def bufview(self, st, p, ins):
        o = self.target(st, p, ins, 'read', 40)
        sp = self.specs.get('sml_buffer')
        b = Buf()
        b.oid = p.oid
        F = lambda n: self.read(st, st.mem[p.oid], C(sp.byname[n].off), sp.byname[n].size, None, ins)
        b.dp = self.nz(st, F('buffer'))
        vs = []
        for n in ('buffer_len', 'cursor', 'error'):
            v = F(n)
            if v is UNDEF:
                self.report(st, 'uninit', ins, 'buffer->%s is not initialised' % n)
                raise Kill()
            if isinstance(v, bool):
                v = C(int(v))
            if isinstance(v, Cond):
                raise Split([[v.atom()], [v.neg().atom()]])
            if not isinstance(v, Lin):
                st.lose('buffer field ' + n)
                v = st.sym(n, 0, None)
            vs.append(st.store.norm(v))
        b.L, b.c, b.err = vs
        b.L, b.c = self.uview(st, b.L, 64), self.uview(st, b.c, 64)
        b.o = st.mem[p.oid]
        b.d = None
        if isinstance(b.dp, Ptr):
            b.d = st.mem.get(b.dp.oid)
            if b.d is not None and b.d.freed:
                self.report(st, 'uaf', ins, 'buffer holds memory freed at %s' % b.d.freed)
                raise Kill()
        elif b.dp is UNDEF:
            self.report(st, 'uninit', ins, 'buffer->buffer is not initialised')
            raise Kill()
        if b.d is not None and b.d.size is not None:
            self.require(st, b.d.size - b.dp.off - b.L, 'oob-read', ins, 'buffer claims more bytes than it has')
        self.require(st, b.L - b.c, 'oob-read', ins, 'read position beyond the end of the buffer')
        return b

    def setbuf(self, st, b, **kw):
        sp = self.specs.get('sml_buffer')
        for n, v in kw.items():
            f = sp.byname[n]
            self.write(st, b.oid, C(f.off), f.size, v)

    def bufbyte(self, st, b, off, ins):
        if b.d is None:
            return None
        v = self.read(st, b.d, st.store.norm(b.dp.off + off), 1, None, ins)
        if v is UNDEF:
            self.report(st, 'uninit', ins, 'buffer content is not initialised')
            raise Kill()
        if not isinstance(v, Lin):
            return None
        return self.uview(st, v, 8)

    def errstate(self, st, b, c, val):
        e = st.copy()
        c2 = e.sym('cur', None, None)
        e.store.add_ge(c2 - c)
        e.store.add_ge(b.L - c2)
        self.setbuf(e, b, cursor=c2, error=ONE)
        e.trace = (('err',),)
        return e

    # ------------------------------------------------------------ parsing
    def parse_contract(self, st, bp, kind, spec, ins, nullable, elem=None):
        b = self.bufview(st, bp, ins)
        c = b.c
        if st.store.eq(b.err):
            pass
        elif st.store.neq(b.err):
            # called although an error is set: it stays set
            e = self.errstate(st, b, c, None)
            if e.store.bad:
                return []
            self.event(e, ('dirtycall', kind))
            if kind == 'elem':
                return [(e, NULL)]
            p = self.typed(e, spec, 'free', mnull=(), **({'elem': elem} if elem else {}))
            return [(e, p)]
        else:
            raise Split([[('eq', b.err)], [('ne', b.err)]])
        outs = []
        # failure
        e = self.errstate(st, b, c, None)
        if not e.store.bad:
            if kind not in NULL_ON_ERR:
                outs.append((e, self.typed(e, spec, 'free', mnull=(), **({'elem': elem} if elem else {}))))
            else:
                outs.append((e, NULL))
        # success
        if not st.store.ge(c - b.L):
            if st.store.assume_ge(b.L - c - 1):
                c2 = st.sym('cur', None, None)
                st.store.add_ge(c2 - c - 1)
                st.store.add_ge(b.L - c2)
                mn = None
                attrs = {}
                if kind == 'message':
                    mn = ()
                elif kind == 'list':
                    mn = ()
                elif nullable:
                    x = self.bufbyte(st, b, c, ins)
                    mn = (('eq', c2 - c - 1),) + ((('eq', x - 1),) if x is not None else ())
                p = self.typed(st, spec, 'parsed', mnull=mn, **({'elem': elem} if elem else {}))
                self.setbuf(st, b, cursor=c2)
                self.event(st, ('el', kind, c, c2, p), ins)
                if not st.store.bad:
                    outs.append((st, p))
        return outs

    def c_number_parse(self, st, callee, args, ins):
        ty = self.num(st, args[1], 8, ins)
        mx = self.num(st, args[2], 32, ins, signed=True)
        if ty.t:
            cand = [t for t in (0x50, 0x60) if st.feasible([('eq', ty - t)]) is not None]
            oth = [('ne', ty - t) for t in (0x50, 0x60)]
            if st.feasible(oth) is not None:
                return None
            raise Split([[('eq', ty - t)] for t in cand])
        if mx.t or mx.c not in (1, 2, 4, 8):
            return None
        kind = '%s%d' % (NUMT.get(ty.c, 't%02x_' % ty.c), 8 * mx.c)
        return self.parse_contract(st, args[0], kind, 'num%d' % mx.c, ins, True)

    def c_next_length(self, st, callee, args, ins):
        b = self.bufview(st, args[0], ins)
        c = b.c
        outs = []
        e = self.errstate(st, b, c, None)
        if st.store.ge(c - b.L):
            if not e.store.bad:
                outs.append((e, e.sym('tl', -(1 << 31), -1)))
            return outs
        if not st.store.ge(b.L - c - 1):
            raise Split([[('ge', b.L - c - 1)], [('ge', c - b.L)]])
        x = self.bufbyte(st, b, c, ins)
        lst = None
        if x is not None:
            t = self.andc(st, x, 0x70, 8)
            r = self.simp(st, Cond('eq', t - 0x70))
            if isinstance(r, Cond):
                raise Split([[r.atom()], [r.neg().atom()]])
            lst = r
        e = self.errstate(st, b, c, None)
        if not e.store.bad:
            outs.append((e, e.sym('tl', -(1 << 31), -1)))
        c2 = st.sym('cur', None, None)
        st.store.add_ge(c2 - c - 1)
        st.store.add_ge(b.L - c2)
        n = st.sym('tl', 0 if lst else -(1 << 31), (1 << 31) - 1)
        if x is not None:
            self.tl_known(st, x, lst, c, c2, n)
        self.setbuf(st, b, cursor=c2)
        self.event(st, ('tl', 'list' if lst else 'simple', c, c2, n), ins)
        outs.append((st, n))
        return outs

    def tl_known(self, st, x, lst, c, c2, n):
        pass

    def c_crc(self, st, callee, args, ins):
        n = self.num(st, args[1], 32, ins, signed=True)
        p = args[0]
        self.require(st, n, 'oob-read', ins, 'checksum of a negative number of bytes')
        if not st.store.eq(n):
            if not st.store.ge(n - 1):
                raise Split([[('ge', n - 1)], [('eq', n)]])
            o = self.target(st, p, ins, 'read', n)
            self.need_init(st, o, p.off, st.store.norm(p.off + n), ins, 'the checksum')
        else:
            v = self.nz(st, p)
            if not isinstance(v, Ptr):
                return [(st, st.sym('crc', 0, 65535))]
            o = st.mem.get(p.oid)
        which = 'kermit' if 'kermit' in callee.name else 'x25'
        off = st.store.norm(p.off)
        key = ('crc', which, o.oid, id(o.base), off, st.store.norm(n))
        v = None
        if not o.cells and not o.log:
            v = st.memo.get(key)
        if v is None:
            v = st.sym('crc', 0, 65535)
            if not o.cells and not o.log:
                st.memo[key] = v
        self.event(st, ('crc', which, Ptr(o.oid, off), st.store.norm(n), v), ins)
        return [(st, v)]

    # ------------------------------------------------------------ function arguments
    def role_call(self, st, role, args, ins):
        k = role[0]
        if k == 'parse':
            return self.parse_contract(st, args[0], 'elem', 'ABS', ins, True)
        if k == 'free':
            p = self.nz(st, args[0])
            if p is NULL:
                return [(st, None)]
            r = self.free_contract(st, p, role[1] or 'ABS', ins, None)
            if r is None:
                st.lose('element free of unknown object')
                return [(st, None)]
            return r
        if k == 'write':
            return self.write_contract(st, args[0], args[1], 'elem', role[1] or 'ABS', ins)
        if k == 'receiver':
            p, n = args
            m = self.num(st, n, 64, ins)
            o = self.target(st, p, ins, 'read', m)
            self.need_init(st, o, p.off, st.store.norm(p.off + m), ins, 'the receiver')
            self.event(st, ('recv', p, m))
            return [(st, None)]
        st.lose('call of unknown function')
        return [(st, Top('role'))]

    def c_seq_parse(self, st, callee, args, ins):
        P, F = self.nz(st, args[1]), self.nz(st, args[2])
        for v, w in ((P, 'parse'), (F, 'free')):
            if v is NULL:
                self.report(st, 'null', ins, 'no %s function for the elements of a sequence' % w)
                raise Kill()
        if not (isinstance(P, Fn) and isinstance(F, Fn)) or P.role or F.role or isinstance(P.f, str) or isinstance(F.f, str):
            return None
        es = self.parse_summary(P.f)
        if es is None:
            st.lose('element type of a sequence')
            return None
        if not self.free_summary(F.f, es):
            self.report(st, 'type', ins, 'the elements of this sequence are parsed as %s but not freed as such by %s' % (es, F.f.name))
        return self.parse_contract(st, args[0], 'seq:' + es, 'sml_sequence', ins, False, elem=es)

    def c_seq_write(self, st, callee, args, ins):
        s, W = self.nz(st, args[0]), self.nz(st, args[2])
        if W is NULL:
            self.report(st, 'null', ins, 'no write function for the elements of a sequence')
            raise Kill()
        if not isinstance(W, Fn) or W.role or isinstance(W.f, str):
            return None
        es = None
        if isinstance(s, Ptr):
            o = st.mem.get(s.oid)
            if o is None or o.base[0] != 'typed' or o.base[1] != 'sml_sequence':
                return None
            es = o.attrs.get('elem')
        if es is not None:
            ok = self.write_summary(W.f, es)
            if ok is not True:
                self.report(st, 'wrongwrite', ins, 'the elements of this sequence are %s but %s does not write that (%s)' % (es, W.f.name, ok))
        return self.write_contract(st, args[0], args[1], 'seq:%s' % es, 'sml_sequence', ins)

    def c_seq_free(self, st, callee, args, ins):
        return self.free_contract(st, args[0], 'sml_sequence', ins, callee)

    def sub(self, fn, kind):
        from .roots import subanalysis
        return subanalysis(self.prog, self.specs, fn, kind)

    def parse_summary(self, fn):
        c = self.prog.__dict__.setdefault('_psum', {})
        if fn.key not in c:
            c[fn.key] = None
            c[fn.key] = self.sub(fn, ('parse',))
        return c[fn.key]

    def free_summary(self, fn, es):
        c = self.prog.__dict__.setdefault('_fsum', {})
        k = (fn.key, es)
        if k not in c:
            c[k] = True
            c[k] = self.sub(fn, ('free', es))
        return c[k]

    def write_summary(self, fn, es):
        c = self.prog.__dict__.setdefault('_wsum', {})
        k = (fn.key, es)
        if k not in c:
            c[k] = True
            c[k] = self.sub(fn, ('write', es))
        return c[k]

    # ------------------------------------------------------------ releasing
    def c_number_free(self, st, callee, args, ins):
        p = self.nz(st, args[0])
        if isinstance(p, Ptr) and p.oid in st.mem:
            o = st.mem[p.oid]
            if o.kind == 'heap' and not o.freed and o.base[0] in ('op',) and not o.attrs.get('borrowed') and st.store.eq(p.off):
                w = st.wobj(p.oid)
                w.freed = self.where(ins)
                return [(st, None)]
        return None

    def free_contract(self, st, p, spec, ins, callee):
        p = self.nz(st, p)
        if p is NULL:
            return [(st, None)]
        if not isinstance(p, Ptr) or p.oid not in st.mem or spec is None:
            return None
        o = st.mem[p.oid]
        if o.freed:
            if callee is None:
                self.free(st, p, ins)
            return None
        if o.base[0] == 'var':
            if self.resolve_var(st, p.oid) is None:
                return None
            o = st.mem[p.oid]
        if o.base[0] in ('abs', 'elem') or spec == 'ABS' or spec == 'void':
            if o.base[0] == 'typed' and o.base[1] == 'ABS' or o.base[0] in ('abs', 'elem'):
                w = st.wobj(p.oid)
                w.freed = self.where(ins)
                return [(st, None)]
            return None
        if spec.startswith('num'):
            return self.c_number_free(st, callee, [p], ins)
        if o.base[0] == 'typed' and o.base[1] != spec:
            self.report(st, 'type', ins, 'a %s is released as %s' % (o.base[1], spec))
            raise Kill()
        own = self.conform(st, p.oid, spec, 'free')
        if own is None or not st.store.eq(p.off):
            return None
        for x in own:
            if x in st.mem:
                w = st.wobj(x)
                w.freed = self.where(ins)
        return [(st, None)]

    # ------------------------------------------------------------ writing
    def grow(self, st, b, c2, ins):
        """new buffer storage whose content before the old write position is unchanged"""
        L2 = st.sym('buffer_len', None, (1 << 40))
        st.store.add_ge(L2 - b.L)
        st.store.add_ge(L2 - c2)
        if b.d is None:
            d = Obj('heap', L2, ('op', new_cid()), 'bufdata')
            st.add(d)
        else:
            if not st.store.eq(b.dp.off):
                st.lose('buffer storage with an offset')
            old = b.d
            d = old.clone()
            d.oid = Obj('heap', None, ('undef',)).oid
            d.size = L2
            d.mnull = None
            d.attrs.pop('nn', None)
            d.freed = None
            w = st.wobj(old.oid)
            w.freed = 'growing the buffer at %s' % self.where(ins)
            st.add(d)
            if old.base[0] != 'op':
                self.to_log(d)
                if old.base[0] == 'zero':
                    d.log.insert(0, ('r', ZERO, L2, 'fill', ZERO))
                    d.base = ('undef',)
        return d, L2

    def write_contract(self, st, p, bp, kind, spec, ins):
        p = self.nz(st, p)
        if p is NULL:
            if not self.wnull(kind, spec):
                self.report(st, 'null', ins, 'NULL given to a write function that needs an object')
                raise Kill()
        elif p is UNDEF:
            self.report(st, 'uninit', ins, 'uninitialised pointer given to a write function')
            raise Kill()
        elif isinstance(p, Ptr):
            o = st.mem.get(p.oid)
            if o is None or o.freed:
                self.report(st, 'uaf', ins, 'released object given to a write function')
                raise Kill()
            if o.mnull is not None and not self.wnull(kind, spec):
                raise Split([[('nonnull', p.oid)], [('null', p.oid)]])
            if o.base[0] == 'var':
                if self.resolve_var(st, p.oid) is None:
                    return None
                o = st.mem[p.oid]
            if o.base[0] == 'typed' and o.base[1] != spec and spec not in ('void', 'ABS'):
                self.report(st, 'type', ins, 'a %s is written as %s' % (o.base[1], spec))
                raise Kill()
            if o.base[0] != 'typed' and o.mnull is None and spec not in ('void', 'ABS'):
                if self.conform(st, p.oid, spec, 'write') is None:
                    return None
        else:
            st.lose('write of unknown object')
        return self.emit(st, bp, ('wel', kind, p), ins)

    def wnull(self, kind, spec):
        return kind == 'elem' or spec in NULLABLE_WRITE or spec.startswith('num')

    def emit(self, st, bp, ev, ins, exact=None, hi=None):
        b = self.bufview(st, bp, ins)
        c = b.c
        c2 = st.sym('cur', None, MAXOUT)
        st.store.add_ge(c2 - c - 1)
        if hi:
            st.store.add_ge(c + hi - c2)
        if exact is not None:
            c2 = c + exact
        d, L2 = self.grow(st, b, c2, ins)
        self.write_tail(st, d, c, L2)
        self.setbuf(st, b, buffer=Ptr(d.oid), buffer_len=L2, cursor=c2)
        self.event(st, ev + (c, c2), ins)
        if st.store.bad:
            return []
        return [(st, None)]

    def write_tail(self, st, d, c, L2):
        lo = d.attrs.get('wlo')
        if lo is not None and d.log and d.log[-1][0] == 'r' and d.log[-1][3] == 'init' and st.store.eq(d.log[-1][1] - lo) \
                and st.store.ge(c - lo):
            self.log_pop(d)
            c = lo
        d.attrs['wlo'] = c
        self.write_region(st, d.oid, c, L2, 'init', new_cid())
        w = st.mem[d.oid]
        if w.log is None:
            w.attrs.pop('wlo', None)

    def log_pop(self, d):
        d.log = d.log[:-1]

    def c_number_write(self, st, callee, args, ins):
        ty = self.num(st, args[1], 8, ins)
        sz = self.num(st, args[2], 32, ins, signed=True)
        p = self.nz(st, args[0])
        if p is UNDEF:
            self.report(st, 'uninit', ins, 'uninitialised pointer given to a write function')
            raise Kill()
        if isinstance(p, Ptr):
            o = st.mem.get(p.oid)
            if o is None or o.freed:
                self.report(st, 'uaf', ins, 'released number given to a write function')
                raise Kill()
            if o.base[0] == 'var':
                return None
            if o.size is not None:
                if o.mnull is not None and not (st.store.ge(o.size - p.off - sz) and st.store.ge(sz - 1)):
                    raise Split([[('nonnull', p.oid)], [('null', p.oid)]])
                self.require(st, o.size - p.off - sz, 'oob-read', ins, 'number of more bytes than the object has')
                if not st.store.eq(o.size - p.off - sz):
                    self.event(st, ('narrow', kindof(ty, sz)), ins)
            self.require(st, sz - 1, 'oob-read', ins, 'number of no bytes')
        elif p is not NULL:
            st.lose('write of unknown number')
        ty, sz = st.store.norm(ty), st.store.norm(sz)
        if not ty.t and not sz.t:
            return self.emit(st, args[3], ('wel', kindof(ty, sz), p), ins)
        return self.emit(st, args[3], ('wnum', ty, p, sz), ins)

    def c_set_tl(self, st, callee, args, ins):
        ty = self.num(st, args[1], 32, ins)
        n = self.num(st, args[2], 32, ins)
        return self.emit(st, args[0], ('wtl', ty, n), ins, hi=8)

    def c_optional(self, st, callee, args, ins):
        return self.emit(st, args[0], ('wskip',), ins, exact=1)

    def c_reserve(self, st, callee, args, ins):
        b = self.bufview(st, args[0], ins)
        n = self.num(st, args[1], 64, ins)
        if not st.store.ge(C(1 << 40) - n):
            self.require(st, C(1 << 40) - n, 'oob-write', ins, 'reserves a negative number of bytes')
        d, L2 = self.grow(st, b, b.c + n, ins)
        self.setbuf(st, b, buffer=Ptr(d.oid), buffer_len=L2)
        return [(st, ONE)]

    # ------------------------------------------------------------ complete objects
    def conform(self, st, oid, spec, mode, skip=(), depth=0, seen=None):
        """the set of objects owned if oid is a complete object of the given type, else None"""
        r = self._conf(st, oid, spec, mode, skip, depth, seen if seen is not None else set())
        if r is not None and depth == 0:
            if len(r) != len(set(r)):
                self.why = 'one block is owned twice'
                return None
            return set(r)
        return r

    def fail(self, why):
        self.why = why
        return None

    def modeok(self, have, want):
        return have == want or have == 'parsed' and want in ('write', 'free') or have == 'write' and want == 'free'

    def _conf(self, st, oid, spec, mode, skip, depth, seen):
        o = st.mem.get(oid)
        if o is None:
            return self.fail('object is gone')
        if o.freed:
            return self.fail('%s was released at %s' % (o.name or 'object', o.freed))
        if oid in seen:
            return self.fail('object is used twice')
        seen.add(oid)
        if o.kind == 'lseg':
            if o.base[1] != spec or not self.modeok(o.base[2], mode):
                return self.fail('list of %s' % o.base[1])
            own = [oid]
            noff = self.specs.off(spec, 'next')
            c = o.cells.get(noff)
            if c is not None and 'next' not in skip:
                v = self.nz(st, c[1])
                if v is not NULL:
                    if not isinstance(v, Ptr):
                        return self.fail('next')
                    r = self._conf(st, v.oid, spec, mode, skip, depth + 1, seen)
                    if r is None:
                        return None
                    own += r
            return own
        if o.kind != 'heap' or o.attrs.get('borrowed'):
            return self.fail('%s is not an own heap block' % (o.name or o.kind))
        if spec == 'ABS':
            if o.base[0] in ('abs', 'elem') or o.base[0] == 'typed' and o.base[1] == 'ABS':
                return [oid]
            return self.fail('not an element')
        if spec.startswith('num'):
            n = int(spec[3:])
            if o.hint is not None and not o.hint.startswith('num') or o.base[0] in ('typed', 'var'):
                return self.fail('%s instead of a number' % o.hint)
            if o.size is None or not st.store.eq(o.size - n):
                return self.fail('number block of %r bytes instead of %d' % (o.size, n))
            if mode != 'free' and self.content_init(st, o, ZERO, C(n), None) is False:
                return self.fail('number is not initialised')
            return [oid]
        sp = self.specs.get(spec)
        if sp is None:
            return self.fail('unknown type ' + spec)
        if o.base[0] == 'var':
            # data whose type follows from its tag
            return self.fail('data of undetermined type')
        if o.base[0] == 'typed':
            if o.base[1] != spec:
                return self.fail('%s instead of %s' % (o.base[1], spec))
            if not self.modeok(o.base[2], mode):
                return self.fail('%s is not complete' % spec)
        elif o.size is None or not st.store.eq(o.size - sp.size):
            return self.fail('block of %r bytes instead of %s' % (o.size, spec))
        if o.log is not None:
            return self.fail('structure with unknown layout')
        own = [oid]
        if spec == 'octet_string':
            return self._c_octet(st, o, sp, mode, own)
        if spec in ('sml_value', 'sml_status'):
            return self._c_value(st, o, sp, spec, mode, own, seen)
        if spec in ('sml_proc_par_value', 'sml_message_body'):
            return self._c_tagged(st, o, sp, spec, mode, own, seen)
        ARR = {'sml_sequence': ('elems', 'elems_len', o.attrs.get('elem')), 's_tree': ('child_list', 'child_list_len', 's_tree'),
               'sml_tree_path': ('path_entries', 'path_entries_len', 'octet_string'),
               'sml_file': ('messages', 'messages_len', 'sml_message')}.get(spec)
        es = None
        if ARR:
            r = self._c_array(st, o, sp, ARR, spec, mode, seen)
            if r is None:
                return None
            es = r[1]
            own += r[0]
        for f in sp.fields.values():
            if ARR and f.name in ARR[:2] or f.name in skip:
                continue
            v = self._fld(st, o, f)
            if v is DEFAULT:
                continue
            if f.kind == 'int':
                if v is UNDEF:
                    return self.fail('%s.%s is not initialised' % (spec, f.name))
                continue
            if f.kind == 'fn':
                if v is NULL or v is UNDEF or not isinstance(v, Fn):
                    return self.fail('%s.%s is no function' % (spec, f.name))
                if v.role is None and es is not None and es != 'ABS' and not isinstance(v.f, str):
                    if not self.free_summary(v.f, es):
                        return self.fail('%s does not release a %s' % (v.f.name, es))
                elif v.role is not None and es is not None and v.role[1] not in (es, None) and es != 'ABS':
                    return self.fail('elements released by another function')
                continue
            if f.kind not in ('ptr', 'union'):
                continue
            v = self.nz(st, v)
            if v is NULL:
                if mode in ('parsed', 'write') and self.field_mode_nonnull(spec, f.name, mode):
                    return self.fail('%s.%s is missing' % (spec, f.name))
                continue
            if v is UNDEF:
                return self.fail('%s.%s is not initialised' % (spec, f.name))
            if not isinstance(v, Ptr) or not st.store.eq(v.off):
                return self.fail('%s.%s does not point to an object' % (spec, f.name))
            sub = f.sub
            if f.kind == 'union':
                sub = {'sml_time': 'num4'}.get(spec)
            if spec == 'sml_buffer':
                t = st.mem.get(v.oid)
                if t is None or t.freed:
                    return self.fail('%s.%s is released memory' % (spec, f.name))
                if t.kind != 'heap' or t.attrs.get('borrowed'):
                    return self.fail('%s.%s is not an own block' % (spec, f.name))
                own.append(v.oid)
                continue
            t = st.mem.get(v.oid)
            if t is not None and t.mnull is not None and self.field_mode_nonnull(spec, f.name, mode):
                return self.fail('%s.%s may be missing' % (spec, f.name))
            r = self._conf(st, v.oid, sub, mode, skip, depth + 1, seen)
            if r is None:
                self.why = '%s.%s: %s' % (spec, f.name, self.why)
                return None
            own += r
        return own

    def _fld(self, st, o, f):
        c = o.cells.get(f.off)
        if c is not None and c[0] == f.size:
            v = c[1]
            if isinstance(v, Ptr) and v.oid in st.nulled:
                return NULL
            return v
        if any(x < f.off + f.size and f.off < x + o.cells[x][0] for x in o.cells):
            v = self.compose(st, o, f.off, f.size, None, None)
            return v
        if o.base[0] == 'typed':
            return DEFAULT
        if o.base[0] == 'zero':
            return NULL if f.kind not in ('int',) else ZERO
        if o.base[0] == 'undef':
            return UNDEF
        return Top('field')

    def _c_octet(self, st, o, sp, mode, own):
        f, g = sp.byname['str'], sp.byname['len']
        s, n = self._fld(st, o, f), self._fld(st, o, g)
        if s is DEFAULT and n is DEFAULT:
            return own
        if s is UNDEF or n is UNDEF:
            return self.fail('octet string is not initialised')
        s = self.nz(st, s)
        if not isinstance(n, Lin):
            return self.fail('length of octet string')
        n = self.sview(st, n, 32)
        if s is NULL:
            if mode != 'free' and not st.store.eq(n):
                return self.fail('octet string of %r bytes without content' % n)
            return own
        if not isinstance(s, Ptr) or not st.store.eq(s.off):
            return self.fail('content of octet string')
        b = st.mem.get(s.oid)
        if b is None or b.freed:
            return self.fail('content of octet string was released')
        if b.kind != 'heap' or b.attrs.get('borrowed'):
            return self.fail('content of octet string is not its own')
        own.append(s.oid)
        if mode != 'free':
            if not st.store.ge(n):
                return self.fail('octet string with negative length')
            if b.size is not None and not st.store.ge(b.size - n):
                return self.fail('octet string of %r bytes in a block of %r' % (n, b.size))
            if self.content_init(st, b, ZERO, n, None) is False:
                return self.fail('content of octet string is not initialised')
        return own

    def _c_value(self, st, o, sp, spec, mode, own, seen):
        fs = sorted(sp.fields.values(), key=lambda f: f.off)
        t, d = self._fld(st, o, fs[0]), self._fld(st, o, fs[1])
        if t is DEFAULT and d is DEFAULT:
            return own
        if t is UNDEF or d is UNDEF:
            return self.fail('%s is not initialised' % spec)
        if not isinstance(t, Lin):
            return self.fail('type of value')
        t = st.store.norm(self.uview(st, t, 8))
        d = self.nz(st, d)
        x = None
        if isinstance(d, Ptr):
            x = st.mem.get(d.oid)
            if x is None or x.freed or not st.store.eq(d.off):
                return self.fail('data of %s was released' % spec)
        elif d is not NULL:
            return self.fail('data of ' + spec)
        octet = st.store.eq(t)
        boolean = st.store.eq(t - TYPE_BOOL)
        if spec == 'sml_value':
            if x is not None and x.base[0] == 'typed' or x is not None and x.hint == 'octet_string':
                if not octet:
                    return self.fail('octet string under the type %r' % t)
                r = self._conf(st, d.oid, 'octet_string', mode, (), 1, seen)
                return None if r is None else own + r
            if octet:
                if x is None and (mode != 'parsed'):
                    return own
                return self.fail('value of type octet string with other data')
            if boolean:
                if x is None:
                    return own if mode != 'parsed' else self.fail('boolean without data')
                if not st.store.eq(x.size - 1):
                    return self.fail('boolean of %r bytes' % x.size)
                return own + [d.oid]
            if not st.store.neq(t) or not st.store.neq(t - TYPE_BOOL):
                return self.fail('type of the value is not determined')
        if x is None:
            if mode == 'parsed':
                return self.fail('%s without data' % spec)
            return own
        if x.kind != 'heap' or x.attrs.get('borrowed') or x.base[0] in ('typed', 'var'):
            return self.fail('data of %s is no number' % spec)
        if mode == 'free':
            return own + [d.oid]
        if x.size is None:
            return self.fail('data of unknown size')
        base = (TYPE_UINT, TYPE_INT) if spec == 'sml_value' else (TYPE_UINT,)
        q = st.store.norm(t - x.size)
        if any(st.store.eq(q - z) for z in base):
            pass
        elif len(base) == 2 and (q - TYPE_INT).div(16) is not None and st.store.ge(q - TYPE_INT) and st.store.ge(C(TYPE_UINT) - q):
            pass
        else:
            return self.fail('%s of type %r holds a block of %r bytes' % (spec, t, x.size))
        lo, hi = st.store.range(st.store.norm(x.size))
        if lo is None or lo < 1 or hi is None or hi > 8:
            return self.fail('%s of %r bytes' % (spec, x.size))
        if self.content_init(st, x, ZERO, x.size, None) is False:
            return self.fail('number is not initialised')
        return own + [d.oid]

    def _c_tagged(self, st, o, sp, spec, mode, own, seen):
        fs = sorted(sp.fields.values(), key=lambda f: f.off)
        t, d = self._fld(st, o, fs[0]), self._fld(st, o, fs[1])
        if t is DEFAULT and d is DEFAULT:
            return own
        if t is UNDEF or d is UNDEF:
            return self.fail('%s is not initialised' % spec)
        t, d = self.nz(st, t), self.nz(st, d)
        table = self.var_specs(spec)
        if t is NULL:
            if mode != 'free' or spec == 'sml_message_body':
                return self.fail('%s without tag' % spec)
            if d is not NULL:
                x = st.mem.get(d.oid) if isinstance(d, Ptr) else None
                if x is None or x.mnull is None:
                    return self.fail('%s with data but no tag' % spec)
            return own
        if not isinstance(t, Ptr):
            return self.fail('tag of ' + spec)
        to = st.mem.get(t.oid)
        n = 1 if spec == 'sml_proc_par_value' else 4
        tmode = mode if mode != 'free' else 'parsed'
        mn = to.mnull if to is not None else None
        if mn is not None:
            if not (mode == 'free' and spec == 'sml_proc_par_value'):
                return self.fail('tag of %s may be missing' % spec)
        r = self._conf(st, t.oid, 'num%d' % n, tmode, (), 1, seen)
        if r is None:
            return None
        own += r
        if d is NULL:
            if mode == 'parsed' and spec == 'sml_message_body':
                return self.fail('message body without data')
            return own
        if not isinstance(d, Ptr) or not st.store.eq(d.off):
            return self.fail('data of ' + spec)
        x = st.mem.get(d.oid)
        if x is None or x.freed:
            return self.fail('data of %s was released' % spec)
        if mode == 'parsed' and spec == 'sml_message_body' and x.mnull is not None:
            return self.fail('message body may lack its data')
        tag = self.tagof(st, to, n)
        if tag is None:
            return self.fail('tag of unknown content')
        if x.base[0] == 'var':
            if x.base[2] == spec and st.store.eq(x.base[1] - tag) and self.modeok(x.base[3], mode):
                return own + [d.oid]
            return self.fail('data belongs to another tag')
        ks = [k for k in table if not st.store.neq(tag - k)]
        cand = {table[k] for k in ks}
        if len(cand) != 1:
            return self.fail('the tag does not determine the type of the data')
        rest = st.copy()
        for k in ks:
            if not rest.store.assume_ne(tag - k):
                rest = None
                break
        if rest is not None and rest.check() and not st.store.eq(tag - ks[0]):
            return self.fail('data under an unknown tag')
        r = self._conf(st, d.oid, cand.pop(), mode, (), 1, seen)
        if r is None:
            self.why = 'data of %s for tag %s: %s' % (spec, '/'.join('%x' % k for k in ks), self.why)
            return None
        return own + r

    def tagof(self, st, to, n):
        if to.log is None and 0 in to.cells and to.cells[0][0] == n:
            v = to.cells[0][1]
        elif to.base[0] == 'op' and not to.cells and to.log is None:
            v = st.byte(to.base[1], ZERO, n)
        elif to.log is None:
            try:
                v = self.compose(st, to, 0, n, None, None)
            except (Split, Kill):
                return None
        else:
            return None
        if not isinstance(v, Lin):
            return None
        return st.store.norm(self.uview(st, v, 8 * n))

    def _c_array(self, st, o, sp, ARR, spec, mode, seen):
        fa, fn_ = sp.byname[ARR[0]], sp.byname[ARR[1]]
        a, n = self._fld(st, o, fa), self._fld(st, o, fn_)
        es = ARR[2]
        if a is DEFAULT and n is DEFAULT:
            return [], es
        if a is UNDEF or n is UNDEF or not isinstance(n, Lin):
            return self.fail('%s is not initialised' % spec)
        n = self.sview(st, n, 32)
        a = self.nz(st, a)
        if a is NULL:
            if not st.store.ge(-n):
                return self.fail('%s counts %r elements but has none' % (spec, n))
            return [], es
        if not isinstance(a, Ptr) or not st.store.eq(a.off):
            return self.fail('elements of ' + spec)
        x = st.mem.get(a.oid)
        if x is None or x.freed:
            return self.fail('elements of %s were released' % spec)
        if x.kind != 'heap' or x.attrs.get('borrowed'):
            return self.fail('elements of %s are not its own' % spec)
        own = [a.oid]
        need = st.store.norm(n * 8)
        if x.size is not None and not st.store.ge(x.size - need):
            return self.fail('%s counts %r elements in a block of %r bytes' % (spec, n, x.size))
        ents = x.log if x.log is not None else [('c', C(k), s, v) for k, (s, v) in sorted(x.cells.items())]
        cur = ZERO
        used = set()
        for _ in range(len(ents) + 1):
            if st.store.ge(cur - need):
                break
            hit = None
            for i in range(len(ents) - 1, -1, -1):
                en = ents[i]
                e = st.store.norm(en[1] + en[2]) if en[0] == 'c' else en[2]
                if st.store.eq(en[1] - cur) and (en[0] == 'c' or st.store.ge(e - cur - 1) or st.store.eq(e - need)):
                    hit = (i, en, e)
                    break
            if hit is None:
                break
            i, en, e = hit
            used.add(i)
            if en[0] == 'c':
                v = self.nz(st, en[3])
                if en[2] != 8 or v is UNDEF:
                    return self.fail('element of %s is not initialised' % spec)
                if v is NULL:
                    if spec != 'sml_sequence':
                        return self.fail('element of %s is NULL' % spec)
                elif isinstance(v, Ptr) and st.store.eq(v.off):
                    t = st.mem.get(v.oid)
                    s2 = es
                    if s2 is None and t is not None:
                        s2 = 'ABS' if t.base[0] in ('abs', 'elem') else (t.base[1] if t.base[0] == 'typed' else t.hint)
                        es = s2
                    if s2 is None:
                        return self.fail('element of unknown type')
                    r = self._conf(st, v.oid, s2, mode, (), 1, seen)
                    if r is None:
                        return None
                    own += r
                else:
                    return self.fail('element of %s' % spec)
                cur = st.store.norm(cur + 8)
            else:
                if en[3] != 'ptrs':
                    return self.fail('elements of %s are not initialised' % spec)
                s2, m2, nu = en[4][:3]
                if s2 is not None:
                    if es is None:
                        es = s2
                    if s2 != es:
                        return self.fail('elements of type %s instead of %s' % (s2, es))
                    if not self.modeok(m2, mode):
                        return self.fail('elements are not complete')
                if nu and spec != 'sml_sequence':
                    return self.fail('element of %s may be NULL' % spec)
                cur = st.store.norm(e)
        if not st.store.ge(cur - need):
            return self.fail('%s counts %r elements but only %r bytes are set' % (spec, n, cur))
        return own, es


class _Default:
    def __repr__(self):
        return 'DEFAULT'


DEFAULT = _Default()


def kindof(ty, sz):
    return '%s%d' % (NUMT.get(ty.c, 't%02x_' % ty.c), 8 * sz.c)
