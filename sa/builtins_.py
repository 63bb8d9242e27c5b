"""Meaning of the external functions the code calls."""
from .core import *
from .spec import *

NOEFFECT = {'select', 'ioctl', 'tcgetattr', 'tcsetattr', 'cfsetispeed', 'cfsetospeed', 'fflush', 'close', 'usleep', 'poll',
            'fcntl', 'perror', 'fclose', 'usleep', 'sleep', 'lseek', 'tcflush', 'cfmakeraw', 'fputc', 'putchar', 'putc', 'puts',
            'fputs', 'getopt', 'getopt_long', 'abs', 'srand', 'random', 'signal', 'setvbuf', 'isprint', 'isatty'}
STDOUT_FNS = {'printf', 'puts', 'putchar', 'vprintf', 'putchar_unlocked', 'puts_unlocked'}
PRINTF = {'printf': 0, 'fprintf': 1, 'dprintf': 1, 'syslog': 1, 'warnx': 0, 'warn': 0, 'vfprintf': 1, 'vprintf': 0}
EXITS = {'exit', '_exit', '_Exit', 'abort', '__assert_fail', 'quick_exit', 'err', 'errx', 'raise', 'kill', 'longjmp', '__assert_rtn'}


class BuiltinMixin:
    VLA = 1 << 16

    def on_vla(self, st, size, ins):
        """a stack block of variable size must have a constant bound"""
        self.oblig['C24'] = self.oblig.get('C24', 0) + 1
        if not st.store.ge(C(self.VLA) - size):
            self.report(st, 'vla', ins, 'a stack block has a size that nothing bounds', C(self.VLA) - size)

    def on_alloc(self, st, n, ins, old=None):
        pass

    def on_free(self, st, o, ins):
        pass

    def new_heap(self, st, n, ins, zero=False, name='block'):
        o = Obj('heap', st.store.norm(n), ('zero',) if zero else ('undef',), name, self.where(ins))
        self.on_alloc(st, n, ins)
        return st.add(o)

    def num(self, st, v, n, ins, what='argument', signed=False):
        if v is UNDEF:
            self.report(st, 'uninit', ins, '%s is not initialised' % what)
            raise Kill()
        if isinstance(v, bool):
            v = C(int(v))
        if isinstance(v, Cond):
            raise Split([[v.atom()], [v.neg().atom()]])
        if not isinstance(v, Lin):
            st.lose('odd number')
            v = st.sym('num', 0, None)
        return self.sview(st, v, n) if signed else self.uview(st, v, n)

    def builtin(self, st, name, args, ins):
        if name.startswith('llvm.'):
            return self.llvm(st, name, args, ins)
        m = getattr(self, 'b_' + name.lstrip('_'), None)
        if m is not None:
            r = m(st, args, ins)
            if isinstance(r, list):
                return r
            return [(st, r)]
        if name in PRINTF:
            self.printf(st, name, args, ins)
            n = st.sym('printed', -1, 1 << 20)
            return [(st, n)]
        if name in EXITS:
            self.event(st, ('exit', name), ins)
            if not ins.fn.mod.server:
                self.report(st, 'exit', ins, 'the process is ended (%s)' % name)
            raise Kill()
        if name in NOEFFECT:
            for a in args:
                if a is UNDEF:
                    self.report(st, 'uninit', ins, 'uninitialised argument of %s' % name)
                    raise Kill()
            if name in STDOUT_FNS:
                self.event(st, ('stdout', name), ins)
            if name in ('puts', 'fputs', 'perror'):
                self.cstr(st, args[0], ins, name)
            if name in ('tcgetattr', 'ioctl'):
                for a in args[1:]:
                    if isinstance(a, Ptr) and a.oid in st.mem and st.mem[a.oid].size is not None:
                        o = st.mem[a.oid]
                        self.write_region(st, a.oid, ZERO, o.size, 'init', new_cid())
            if name == 'close':
                self.event(st, ('close', args[0]), ins)
                fds = st.ghosts.get('$fds')
                if fds:
                    k = tuple(x for x in fds if not self._same(st, x, args[0]))
                    st.ghosts['$fds'] = k
            return [(st, self.retsym(st, ins, name))]
        st.lose('call of unknown function %s' % name)
        self.note('external %s' % name, ins)
        return [(st, Top('external'))]

    def _same(self, st, a, b):
        return isinstance(a, Lin) and isinstance(b, Lin) and st.store.eq(a - b)

    def retsym(self, st, ins, name, lo=None, hi=None):
        t = ins.ty
        if t is None or t.k == 'void':
            return None
        if t.k == 'int':
            h = 1 << (t.n - 1)
            return st.sym(name, -h if lo is None else lo, h - 1 if hi is None else hi)
        if t.k == 'flt':
            return Flt(('ext', name, next(_fl)))
        o = Obj('global', None, ('op', new_cid()), 'result of ' + name)
        o.attrs['cstring'] = 1
        return st.add(o)

    def event(self, st, ev, ins=None):
        st.trace = st.trace + (ev,)

    # ---- llvm intrinsics
    def llvm(self, st, name, args, ins):
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.donothing', 'llvm.experimental')):
            return [(st, None)]
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.copy(st, args[0], args[1], self.num(st, args[2], 64, ins, 'length'), ins)
            return [(st, None)]
        if name.startswith('llvm.memset'):
            self.memset(st, args[0], args[1], self.num(st, args[2], 64, ins, 'length'), ins)
            return [(st, None)]
        if name.startswith('llvm.stacksave'):
            o = Obj('stack', None, ('op', new_cid()), 'stackmark')
            return [(st, st.add(o))]
        if name.startswith('llvm.stackrestore'):
            return [(st, None)]
        if name.startswith('llvm.bswap'):
            n = ins.ty.n
            v = self.num(st, args[0], n, ins)
            bs = [self.extract(st, v, n // 8, j) for j in range(n // 8)]
            return [(st, self.join_bytes(st, list(reversed(bs))))]
        if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            n = ins.ty.n
            s = name[5] == 's'
            a, b = self.num(st, args[0], n, ins, signed=s), self.num(st, args[1], n, ins, signed=s)
            c = self.simp(st, Cond('ge', a - b))
            if isinstance(c, Cond):
                raise Split([[c.atom()], [c.neg().atom()]])
            return [(st, a if c == (name[6:9] == 'max') else b)]
        if name.startswith('llvm.fabs') or name.startswith('llvm.pow') or name.startswith('llvm.f'):
            return [(st, Flt((name,) + tuple(args)))]
        if name.startswith('llvm.trap'):
            self.event(st, ('exit', 'trap'), ins)
            self.report(st, 'exit', ins, 'the process is ended (%s)' % name)
            raise Kill()
        st.lose('intrinsic ' + name)
        self.note('intrinsic ' + name, ins)
        return [(st, Top(name))]

    def copy(self, st, d, s, n, ins):
        self.memcpy(st, d, s, n, ins)

    # ---- heap
    def b_malloc(self, st, a, ins):
        return self.new_heap(st, self.num(st, a[0], 64, ins, 'allocation size'), ins)

    def b_calloc(self, st, a, ins):
        x, y = self.num(st, a[0], 64, ins), self.num(st, a[1], 64, ins)
        if x.t and y.t:
            st.lose('calloc of a product')
            n = st.sym('n', 0, None)
        else:
            n = x * y.c if not y.t else y * x.c
        return self.new_heap(st, n, ins, zero=True)

    def b_realloc(self, st, a, ins):
        p = self.nz(st, a[0])
        n = self.num(st, a[1], 64, ins, 'allocation size')
        if p is NULL:
            return self.new_heap(st, n, ins)
        o = self.target(st, p, ins, 'realloc')
        if o.kind != 'heap' or not st.store.eq(p.off):
            self.report(st, 'bad-free', ins, 'realloc of something that is not a heap block')
            raise Kill()
        if not st.store.ge(n - 1):
            if st.store.ge(-n):
                self.free(st, p, ins)
                return NULL
            raise Split([[('ge', n - 1)], [('ge', -n)]])
        self.on_alloc(st, n, ins, o.size)
        c = o.clone()
        old = o.size
        w = st.wobj(o.oid)
        w.freed = 'realloc at %s' % self.where(ins)
        w.attrs = dict(w.attrs)
        w.attrs['moved'] = 1
        c.oid = Obj('heap', None, ('undef',)).oid
        c.mnull = None
        c.attrs.pop('nn', None)
        c.freed = None
        c.size = st.store.norm(n)
        c.site = self.where(ins)
        if o.base[0] != 'undef' and old is not None and not st.store.ge(old - n):
            base = c.base
            self.to_log(c)
            c.base = ('undef',)
            if base[0] == 'op':
                c.log.insert(0, ('r', ZERO, old, 'init', base[1]))
            elif base[0] == 'zero':
                c.log.insert(0, ('r', ZERO, old, 'fill', ZERO))
            elif base[0] == 'fill':
                c.log.insert(0, ('r', ZERO, old, 'fill', base[1]))
            else:
                src = o.clone()
                src.cells = {}
                src.log = None
                c.log.insert(0, ('r', ZERO, old, 'copy', (src, ZERO)))
        return st.add(c)

    def b_reallocarray(self, st, a, ins):
        x, y = self.num(st, a[1], 64, ins), self.num(st, a[2], 64, ins)
        if x.t and y.t:
            st.lose('product')
            n = st.sym('n', 0, None)
        else:
            n = x * y.c if not y.t else y * x.c
        return self.b_realloc(st, [a[0], n], ins)

    def b_free(self, st, a, ins):
        self.free(st, a[0], ins)
        return None

    def free(self, st, p, ins):
        p = self.nz(st, p)
        if p is NULL:
            return
        if p is UNDEF:
            self.report(st, 'uninit', ins, 'free of an uninitialised pointer')
            raise Kill()
        if not isinstance(p, Ptr):
            st.lose('free of unknown pointer')
            self.note('free of unknown pointer', ins)
            return
        o = st.mem.get(p.oid)
        if o is None:
            self.report(st, 'double-free', ins, 'free of a block that is gone')
            raise Kill()
        if o.freed:
            self.report(st, 'double-free', ins, 'free of a block already freed at %s' % o.freed)
            raise Kill()
        if o.kind == 'lseg':
            raise Split(self.unfold_lseg(p.oid))
        if o.kind != 'heap' or not st.store.eq(p.off):
            self.report(st, 'bad-free', ins, 'free of something that is not the start of a heap block (%s)' % (o.name or o.kind))
            raise Kill()
        if o.attrs.get('borrowed'):
            self.report(st, 'bad-free', ins, 'free of memory that belongs to the caller (%s)' % o.name)
            raise Kill()
        if o.base[0] == 'var':
            if self.resolve_var(st, p.oid) is None:
                tag, bspec = o.base[1], o.base[2]
                t = st.store.norm(tag)
                cands = [k for k in self.var_specs(bspec) if not st.store.neq(t - k)] if t.t else []
                if not cands:
                    # no object of such a tag exists
                    if o.mnull is not None:
                        st.assume(('null', p.oid))
                        return
                    raise Kill()
                if o.mnull is not None:
                    raise Split([[('nonnull', p.oid), ('eq', t - k)] for k in cands] + [[('null', p.oid)]])
                raise Split([[('eq', t - k)] for k in cands])
            o = st.mem[p.oid]
        if o.base[0] == 'typed':
            # whatever the object owns is now only reachable through other pointers
            sp = self.specs.get(o.base[1])
            for f in list(sp.fields.values()):
                if f.kind in ('ptr', 'arr', 'union') and f.off not in o.cells:
                    if o.mnull is not None:
                        raise Split([[('nonnull', p.oid)], [('null', p.oid)]])
                    self.materialize(st, p.oid, f.off, f.size)
                    o = st.mem[p.oid]
        if o.log is not None:
            for en in o.log:
                if en[0] == 'r' and en[3] == 'ptrs' and not st.store.ge(en[1] - en[2]):
                    if not st.store.ge(en[2] - en[1] - 1):
                        raise Split([[('ge', en[2] - en[1] - 1)], [('ge', en[1] - en[2])]])
                    if not self.covered(st, o, en):
                        self.report(st, 'leak', ins, 'block freed while the objects it points to are still allocated (%s)' % (o.name or 'array'))
        self.on_free(st, o, ins)
        o = st.wobj(p.oid)
        o.freed = self.where(ins)

    def covered(self, st, o, en):
        """is region en overwritten by later entries of the log?"""
        i = o.log.index(en)
        for e2 in o.log[i + 1:]:
            if e2[0] == 'r' and st.store.ge(en[1] - e2[1]) and st.store.ge(e2[2] - en[2]):
                return True
        # cells covering a short region
        lo = en[1]
        while not st.store.ge(lo - en[2]):
            for e2 in o.log[i + 1:]:
                e = e2[1] + e2[2] if e2[0] == 'c' else e2[2]
                if st.store.ge(lo - e2[1]) and st.store.ge(e - lo - 1):
                    lo = st.store.norm(e)
                    break
            else:
                return False
        return True

    # ---- blocks
    def b_memcpy(self, st, a, ins):
        self.copy(st, a[0], a[1], self.num(st, a[2], 64, ins, 'length'), ins)
        return a[0]

    b_memmove = b_memcpy

    def b_memset(self, st, a, ins):
        self.memset(st, a[0], a[1], self.num(st, a[2], 64, ins, 'length'), ins)
        return a[0]

    def b_bzero(self, st, a, ins):
        self.memset(st, a[0], ZERO, self.num(st, a[1], 64, ins, 'length'), ins)
        return None

    def need_init(self, st, o, lo, hi, ins, what):
        r = self.content_init(st, o, lo, hi, ins)
        if r is False:
            self.report(st, 'uninit', ins, '%s reads bytes never initialised' % what)
            raise Kill()

    def b_memcmp(self, st, a, ins):
        n = self.num(st, a[2], 64, ins, 'length')
        if st.store.eq(n):
            return ZERO
        if not st.store.ge(n - 1):
            raise Split([[('ge', n - 1)], [('ge', -n)]])
        o1 = self.target(st, a[0], ins, 'read', n)
        o2 = self.target(st, a[1], ins, 'read', n)
        f1, f2 = st.store.norm(a[0].off), st.store.norm(a[1].off)
        self.need_init(st, o1, f1, f1 + n, ins, 'memcmp')
        self.need_init(st, o2, f2, f2 + n, ins, 'memcmp')
        if not n.t and n.c <= 32 and not self.opts.get('bigcmp'):
            xs = []
            for k in range(n.c):
                x = self.read(st, o1, f1 + k, 1, None, ins)
                y = self.read(st, o2, f2 + k, 1, None, ins)
                if not isinstance(x, Lin) or not isinstance(y, Lin):
                    xs = None
                    break
                xs.append((self.uview(st, x, 8), self.uview(st, y, 8)))
            if xs is not None:
                if all(st.store.eq(x - y) for x, y in xs):
                    return ZERO
                for x, y in xs:
                    if st.store.eq(x - y):
                        continue
                    if st.store.neq(x - y):
                        r = st.sym('memcmp', -255, 255)
                        st.store.add_ne(r)
                        return r
                    break
                key = ('mc',) + tuple(st.store.norm(x - y) for x, y in xs)
                if st.memo.get(key) is not None:
                    r = st.sym('memcmp', -255, 255)
                    st.store.add_ne(r)
                    return r

                def differ(s, key=key):
                    s.memo[key] = ONE
                    return True
                eqs = [('eq', x - y) for x, y in xs]
                und = [(x, y) for x, y in xs if not st.store.eq(x - y)]
                alt2 = [differ]
                if len(und) == 1:
                    alt2.append(('ne', und[0][0] - und[0][1]))
                raise Split([eqs, alt2])
        key = ('memcmp', o1.oid, f1, o2.oid, f2, n)
        r = st.memo.get(key)
        if r is None:
            r = st.memo[key] = st.sym('memcmp', -255, 255)
            DEF[r.t[0][0]] = ('memcmp', (o1.oid, f1), (o2.oid, f2), n)
        self.event(st, ('memcmp', (o1.oid, f1), (o2.oid, f2), n, r))
        return r

    # ---- strings
    def cstr(self, st, p, ins, what):
        """p must be a terminated string; returns its length expression or None"""
        p = self.nz(st, p)
        if p is NULL:
            self.report(st, 'null', ins, 'NULL string passed to %s' % what)
            raise Kill()
        if isinstance(p, Fn) or isinstance(p, Top):
            return None
        o = self.target(st, p, ins, 'read')
        if o.attrs.get('cstring'):
            return None
        off = st.store.norm(p.off)
        sl = o.attrs.get('strlen')
        if sl is not None:
            self.require(st, sl - off, 'oob-read', ins, 'string starts behind its end')
            return st.store.norm(sl - off)
        # look for a NUL
        if not off.t:
            k = off.c
            ents = dict(o.cells)
            if o.log is None:
                while k < off.c + 4096:
                    c = ents.get(k)
                    v = None
                    if c is not None and c[0] == 1:
                        v = c[1]
                    elif o.base[0] == 'zero' or o.base[0] == 'cdata':
                        v = ZERO
                    if isinstance(v, Lin) and not st.store.norm(v).t and v.c % 256 == 0:
                        if o.size is not None:
                            self.require(st, o.size - k - 1, 'oob-read', ins, 'string runs beyond the end of %s' % o.name)
                        return C(k - off.c)
                    if v is None:
                        break
                    k += 1
        term = o.attrs.get('nul')
        if o.log is not None:
            for en in o.log:
                if en[0] == 'c' and en[2] == 1 and isinstance(en[3], Lin) and st.store.eq(en[3]):
                    term = en[1]
                if en[0] == 'r' and en[3] == 'fill' and st.store.eq(en[4]):
                    term = en[1]
        if term is not None:
            r = self.content_init(st, o, off, term, ins)
            if r is False:
                self.report(st, 'uninit', ins, 'string passed to %s is not initialised' % what)
                raise Kill()
            n = st.sym('strlen', 0, None)
            st.store.add_ge(term - off - n)
            return n
        self.report(st, 'oob-read', ins, 'string passed to %s has no terminator (%s)' % (what, o.name or o.kind))
        raise Kill()

    def b_strlen(self, st, a, ins):
        n = self.cstr(st, a[0], ins, 'strlen')
        if n is None:
            n = st.sym('strlen', 0, 1 << 30)
        return n

    def b_strcmp(self, st, a, ins):
        self.cstr(st, a[0], ins, 'strcmp')
        self.cstr(st, a[1], ins, 'strcmp')
        return st.sym('strcmp', -255, 255)

    def b_strncmp(self, st, a, ins):
        n = self.num(st, a[2], 64, ins, 'length')
        if st.store.eq(n):
            return ZERO
        return st.sym('strncmp', -255, 255)

    b_strncasecmp = b_strncmp

    def b_strcasecmp(self, st, a, ins):
        return self.b_strcmp(st, a, ins)

    def b_strnlen(self, st, a, ins):
        n = self.num(st, a[1], 64, ins, 'length')
        r = st.sym('strnlen', 0, None)
        st.store.add_ge(n - r)
        return r

    def b_strerror(self, st, a, ins):
        o = Obj('global', None, ('op', new_cid()), 'strerror')
        o.attrs['cstring'] = 1
        return st.add(o)

    def b_errno_location(self, st, a, ins):
        oid = st.ghosts.get('$errno')
        if oid is None or oid not in st.mem:
            o = Obj('global', C(4), ('op', new_cid()), 'errno')
            st.add(o)
            st.ghosts['$errno'] = oid = o.oid
        return Ptr(oid)

    def b_pow(self, st, a, ins):
        return Flt(('pow',) + tuple(a))

    def fmtstring(self, st, p):
        if not isinstance(p, Ptr) or p.oid not in st.mem:
            return None
        o = st.mem[p.oid]
        off = st.store.norm(p.off)
        if off.t or o.log is not None or not o.attrs.get('const'):
            return None
        s = ''
        k = off.c
        while True:
            c = o.cells.get(k)
            if c is None or c[0] != 1 or not isinstance(c[1], Lin) or c[1].t:
                return s
            if c[1].c % 256 == 0:
                return s
            s += chr(c[1].c % 256)
            k += 1

    def printf(self, st, name, args, ins):
        k = PRINTF[name]
        if name == 'printf':
            self.event(st, ('stdout', name), ins)
        elif name == 'fprintf' or name == 'vfprintf':
            f = args[0]
            o = st.mem.get(f.oid) if isinstance(f, Ptr) else None
            if o is not None and o.attrs.get('file') == 'stdout':
                self.event(st, ('stdout', name), ins)
        fmt = self.fmtstring(st, args[k])
        rest = args[k + 1:]
        tys = [x.ty for x in ins.a][k + 1:]
        for a in rest:
            if a is UNDEF:
                self.report(st, 'uninit', ins, 'uninitialised value printed')
                raise Kill()
        if fmt is None:
            if len(args) > k + 1 or not isinstance(args[k], Ptr):
                self.report(st, 'format', ins, 'format string is not a constant') if False else st.lose('format string')
            return
        i = 0
        n = 0
        while i < len(fmt):
            if fmt[i] != '%':
                i += 1
                continue
            i += 1
            if fmt[i:i + 1] == '%':
                i += 1
                continue
            prec = None
            width = None
            while i < len(fmt) and fmt[i] in '-+ #0123456789.*':
                if fmt[i] == '*':
                    if n < len(rest):
                        prec = rest[n]
                    n += 1
                i += 1
            mod = ''
            while i < len(fmt) and fmt[i] in 'hlLzjtq':
                mod += fmt[i]
                i += 1
            conv = fmt[i:i + 1]
            i += 1
            if n >= len(rest):
                self.report(st, 'format', ins, 'format needs more arguments than given')
                return
            a, t = rest[n], tys[n]
            n += 1
            if conv == 's':
                if t.k != 'ptr':
                    self.report(st, 'format', ins, '%s with a number')
                    return
                if prec is None:
                    self.cstr(st, a, ins, name)
                else:
                    p = self.num(st, prec, 32, ins, signed=True)
                    o = self.target(st, a, ins, 'read')
                    # reads at most p bytes unless terminated before
                    if not o.attrs.get('cstring'):
                        if st.store.ge(p):
                            self.target(st, a, ins, 'read', p)
                        else:
                            self.cstr(st, a, ins, name)
            elif conv in 'diouxXc':
                if t.k != 'int' or (('l' in mod or 'z' in mod or 'j' in mod) != (t.n == 64)):
                    self.report(st, 'format', ins, 'argument of %%%s%s has the wrong type' % (mod, conv))
            elif conv in 'fFeEgG':
                if t.k != 'flt':
                    self.report(st, 'format', ins, 'argument of %%%s has the wrong type' % conv)
            elif conv == 'p':
                pass

    def b_snprintf(self, st, a, ins):
        n = self.num(st, a[1], 64, ins)
        if st.store.ge(n - 1):
            o = self.target(st, a[0], ins, 'write', n)
            self.write_region(st, a[0].oid, a[0].off, a[0].off + n, 'init', new_cid())
        return st.sym('printed', 0, 1 << 20)

    # ---- devices
    def b_uuid_generate(self, st, a, ins):
        o = self.target(st, a[0], ins, 'write', 16)
        cid = new_cid()
        self.write_region(st, a[0].oid, a[0].off, a[0].off + 16, 'init', cid)
        self.event(st, ('uuid', cid), ins)
        return None

    b_uuid_generate_random = b_uuid_generate
    b_uuid_generate_time = b_uuid_generate

    def b_rand(self, st, a, ins):
        return st.sym('rand', 0, (1 << 31) - 1)

    def b_open(self, st, a, ins):
        self.cstr(st, a[0], ins, 'open')
        path = self.fmtstring(st, a[0])
        fd = st.sym('fd', -1, 1 << 20)
        s2 = st.copy()
        outs = []
        if st.assume(('eq', fd + 1)):
            self.event(st, ('open', path, C(-1)))
            outs.append((st, C(-1)))
        s2.assume(('ge', fd))
        s2.ghosts['$fds'] = tuple(s2.ghosts.get('$fds', ())) + (fd,)
        self.event(s2, ('open', path, fd))
        outs.append((s2, fd))
        return outs

    def b_read(self, st, a, ins):
        return self.sysread(st, a, ins)

    def sysread(self, st, a, ins):
        fd = self.num(st, a[0], 32, ins, signed=True)
        n = self.num(st, a[2], 64, ins, 'length')
        if not st.store.ge(n - 1):
            if st.store.ge(-n):
                return ZERO
            raise Split([[('ge', n - 1)], [('ge', -n)]])
        self.target(st, a[1], ins, 'write', n)
        self.on_write(st, st.mem[a[1].oid], a[1].off, n, 'read', ins)
        outs = []
        bad = st.copy()
        self.event(bad, ('read', fd, a[1].oid, a[1].off, n, C(-1)))
        e = self.b_errno_location(bad, [], ins)
        self.write(bad, e.oid, ZERO, 4, bad.sym('errno', 1, 200))
        bad.ghosts['$err'] = 1
        outs.append((bad, C(-1)))
        eof = st.copy()
        self.event(eof, ('read', fd, a[1].oid, a[1].off, n, ZERO))
        outs.append((eof, ZERO))
        r = st.sym('r', 1, None)
        st.store.add_ge(n - r)
        r = st.store.norm(r)
        off = st.store.norm(a[1].off)
        pos = st.ghosts.get('$pos', ZERO)
        if '$pos' in st.ghosts:
            # the device is one long sequence of bytes
            scid = st.ghosts['$scid']
            self.stream_write(st, a[1].oid, off, r, scid, pos)
            st.ghosts['$pos'] = st.store.norm(pos + r)
        else:
            self.write_region(st, a[1].oid, off, off + r, 'init', new_cid())
        self.event(st, ('read', fd, a[1].oid, off, n, r))
        outs.append((st, r))
        return outs

    def stream_write(self, st, oid, off, n, scid, pos):
        src = st.mem.get(st.ghosts['$sobj'])
        self.write_region(st, oid, off, off + n, 'copy', (src, pos))

    def b_write(self, st, a, ins):
        fd = self.num(st, a[0], 32, ins, signed=True)
        n = self.num(st, a[2], 64, ins, 'length')
        if not st.store.ge(n - 1):
            if not st.store.ge(-n):
                raise Split([[('ge', n - 1)], [('ge', -n)]])
        else:
            o = self.target(st, a[1], ins, 'read', n)
            self.need_init(st, o, a[1].off, a[1].off + n, ins, 'write')
        snap = None
        if isinstance(a[1], Ptr) and a[1].oid in st.mem:
            snap = st.mem[a[1].oid].clone()
        outs = []
        bad = st.copy()
        self.event(bad, ('write', fd, snap, a[1], n, C(-1)))
        outs.append((bad, C(-1)))
        r = st.sym('wr', 0, None)
        st.store.add_ge(n - r)
        self.event(st, ('write', fd, snap, a[1], n, r))
        outs.append((st, r))
        return outs


_fl = itertools.count(1)
