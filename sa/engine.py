"""The abstract interpreter: instruction semantics, calls, structured fixpoints."""
import sys, time
from .ir import *
from .core import *
from .spec import *
from .memory import MemMixin
from .builtins_ import BuiltinMixin
from .joins import JoinMixin
from .contracts import ContractMixin

sys.setrecursionlimit(20000)


class Incomplete(Exception):
    """the analysis gave up on this root"""


class Finding:
    __slots__ = ('cat', 'loc', 'fn', 'msg', 'root', 'lossy', 'need', 'wid', 'ctx', 'src')

    def __init__(self):
        for k in self.__slots__:
            setattr(self, k, None)

    def key(self):
        return (self.cat, self.loc, self.msg, self.root, self.src)

    def asdict(self):
        return {k: (str(getattr(self, k)) if k == 'need' else getattr(self, k)) for k in self.__slots__}


class Engine(MemMixin, BuiltinMixin, JoinMixin, ContractMixin):
    MAXSTATES = 400

    def __init__(self, prog, specs, root='', opts=None):
        self.prog = prog
        self.specs = specs
        self.root = root
        self.findings = {}
        self.undecided = {}
        self.notes = {}
        self.stats = {'insts': 0, 'states': 0, 'calls': 0, 'obligations': 0, 'loops': 0, 'maxstates': 0}
        self.fnseen = set()
        self.callsites = set()
        self.globobj = {}
        self.stack = []
        self.inlining = []
        self.opts = opts or {}
        self.deadline = time.time() + self.opts.get('time', 240)
        self.collect = []
        self.mute = 0
        self.loopstat = []
        self.contracts_on = True
        self.evser = 0
        self.phisyms = set()
        self.oblig = {}

    # ------------------------------------------------------------ reports
    def where(self, ins):
        if ins is None:
            return '?'
        return self.prog.loc(ins)

    def report(self, st, cat, ins, msg, need=None):
        if self.mute:
            return
        f = Finding()
        f.cat, f.msg, f.root = cat, msg, self.root
        f.loc = self.where(ins)
        f.fn = ins.fn.key if ins is not None and ins.fn is not None else ''
        f.lossy = st.lossy
        if need is not None and not f.lossy and self.weak(st, need):
            f.lossy = 'value generalised by the analysis'
        f.need = need
        f.src = self.source(ins)
        f.wid = st.wid
        f.ctx = [i.fn.key + ':' + str(i.line) for i in self.stack]
        d = self.undecided if f.lossy else self.findings
        k = f.key()
        if k not in d:
            d[k] = f
            if self.opts.get('debug'):
                print('FINDING%s' % (' (undecided: %s)' % st.lossy if st.lossy else ''), f.cat, f.loc, f.msg, need, f.ctx)

    def source(self, ins):
        """the construct, whatever line it is on: function and access path"""
        if ins is None or ins.fn is None:
            return '?'
        def defs(f):
            if getattr(f, 'defs', None) is None:
                f.defs = {i.dst: i for b in f.blocks.values() for i in b.insts if i.dst is not None}
            return f.defs

        def path(o, f, up, n=0):
            i = defs(f).get(o.v) if o.k == 'reg' else None
            if n > 16:
                return ''
            if i is None:
                ps = [x for _, x in f.params]
                if o.k == 'reg' and o.v in ps and up and up[-1].fn is not None and up[-1].op == 'call' and len(up[-1].a) > ps.index(o.v):
                    return path(up[-1].a[ps.index(o.v)], up[-1].fn, up[:-1], n + 1)
                return ''
            if i.op == 'load':
                return path(i.a[0], f, up, n + 1)
            if i.op == 'getelementptr':
                p = path(i.a[0], f, up, n + 1)
                if i.x.k == 'struct':
                    if len(i.a) != 3 or i.a[2].k != 'int':
                        return p
                    nm = (getattr(i.x, 'name', None) or 'struct').split('.')[-1]
                    fl = None
                    for c in (nm, nm.replace('_entry', '')):
                        sp = self.specs.s.get(c)
                        if sp is not None:
                            fl = sp.fields.get(i.x.offsets()[i.a[2].v])
                            break
                    fld = fl.name if fl is not None else str(i.a[2].v)
                    return p + '->' + fld if p else nm + '.' + fld
                if i.a[-1].k == 'int':
                    return '%s[%d]' % (p, i.a[-1].v)
                return p + '[]'
            if i.op == 'call' and i.x.k == 'glob':
                return i.x.v + '()'
            return ''
        f, up = ins.fn, list(self.stack)
        while up and up[-1] is ins:
            up.pop()
        if ins.op == 'call' and ins.x.k == 'glob':
            t = '%s(%s)' % (ins.x.v, ', '.join(x for x in (path(o, f, up) for o in ins.a if o.k == 'reg') if x))
        elif ins.op in ('load', 'store'):
            t = path(ins.a[-1], f, up)
        else:
            t = ins.op
        return '%s: %s' % (self.root if f.mod.server else f.name, t)

    def weak(self, st, e):
        """does e depend on a quantity about which the loop analysis kept nothing?"""
        if not isinstance(e, Lin):
            return False
        e = st.store.norm(e)
        for s in e.syms():
            if s not in self.phisyms:
                continue
            if any(s == x for t in st.store.rows for x, _ in t):
                continue
            lo, hi = st.store.lo.get(s), st.store.hi.get(s)
            if lo in (None, 0, -(1 << 31), -(1 << 63), -128) and hi in (None, 255, (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1):
                return True
        return False

    def note(self, what, ins=None):
        k = '%s %s' % (what, self.where(ins))
        self.notes[k] = self.notes.get(k, 0) + 1

    # ------------------------------------------------------------ integer views
    def sview(self, st, e, n):
        e = st.store.norm(e)
        lo, hi = st.store.range(e)
        h = 1 << (n - 1)
        if lo is not None and hi is not None and lo >= -h and hi < h:
            return e
        if not e.t:
            c = (e.c + h) % (1 << n) - h
            return C(c)
        return self._view(st, e, n, -h)

    def uview(self, st, e, n):
        e = st.store.norm(e)
        lo, hi = st.store.range(e)
        if lo is not None and hi is not None and lo >= 0 and hi < (1 << n):
            return e
        if not e.t:
            return C(e.c % (1 << n))
        return self._view(st, e, n, 0)

    def _view(self, st, e, n, base):
        m = 1 << n
        s = st.store
        lo, hi = s.range(e)
        if (lo is not None and lo >= base or s.ge(e - base)) and (hi is not None and hi < base + m or s.ge(C(base + m - 1) - e)):
            return e
        if lo is not None and hi is not None:
            k1, k2 = (lo - base) // m, (hi - base) // m
            if k1 == k2:
                return e - k1 * m
            if k2 - k1 <= 2:
                for k in range(k1, k2 + 1):
                    if s.ge(e - (base + k * m)) and s.ge(C(base + (k + 1) * m - 1) - e):
                        return e - k * m
                raise Split([[('ge', e - (base + k * m)), ('ge', C(base + (k + 1) * m - 1) - e)] for k in range(k1, k2 + 1)])
        if n == 64:
            # quantities wrap only when negative
            if base == 0:
                if lo is None or lo >= -m:
                    if s.ge(e):
                        return e     # assumed below 2^64
                    if s.ge(-e - 1) and lo is not None and lo >= -m:
                        return e + m
                    if hi is not None and hi < m and lo is not None:
                        raise Split([[('ge', e)], [('ge', -e - 1)]])
            else:
                if lo is not None and lo >= base:
                    if hi is None:
                        return e
        q = s.floordiv(e - base, m)
        return s.norm(e - q * m)

    # ------------------------------------------------------------ operands
    def op(self, st, o):
        k = o.k
        if k == 'reg':
            v = st.frames[-1].get(o.v)
            if v is None:
                return UNDEF
            if isinstance(v, Ptr):
                if v.oid in st.nulled:
                    return NULL
            elif isinstance(v, Cond):
                v = self.simp(st, v)
                if isinstance(v, bool) and o.ty.k == 'int' and o.ty.n > 1:
                    v = ONE if v else ZERO
            return v
        if k == 'int':
            return C(o.v)
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            if o.ty.k == 'ptr':
                return NULL
            if o.ty.k == 'flt':
                return Flt(('const', 0.0))
            return ZERO
        if k == 'flt':
            return Flt(('const', fltconst(o.v)))
        if k == 'glob':
            return self.globref(st, self.curmod, o.v)
        if k == 'gep':
            return self.gep(st, o.v[0], [self.op(st, x) for x in o.v[1]], [x.ty for x in o.v[1]], None)
        if k == 'cast':
            return self.op(st, o.v[1])
        if k == 'metav' or k == 'meta':
            return ZERO
        raise IRError('operand ' + k)

    def globref(self, st, mod, name):
        r = self.prog.resolve(mod, name)
        if r[0] == 'f':
            return Fn(r[1])
        if r[0] == 'x':
            return Fn(r[1])
        g = r[1]
        ob = self.globobj.get(g.key if not g.internal else (g.mod.base, g.name))
        key = g.key if not g.internal else (g.mod.base, g.name)
        if ob is None:
            ob = self.mkglob(g)
            self.globobj[key] = ob
        if ob.oid not in st.mem:
            st.mem[ob.oid] = ob
        if ob.attrs.get('kept') and not st.lossy:
            st.lose('the address of %s is kept' % g.name)
        return Ptr(ob.oid)

    def mkglob(self, g):
        size = g.ty.size() if g.ty is not None else None
        o = Obj('global', C(size) if size else None, ('cdata',), g.name)
        if g.external or g.init is None:
            o.base = ('op', new_cid())
            o.size = None
            o.attrs['extern'] = 1
            if g.name in ('stderr', 'stdout', 'stdin'):
                f = Obj('global', None, ('op', new_cid()), '*' + g.name)
                f.attrs['file'] = g.name
                self.globobj['*' + g.name] = f
                o.cells[0] = (8, Ptr(f.oid))
            return o
        if g.const:
            o.attrs['const'] = 1
        elif self.prog.__dict__.setdefault('_written', None) is None:
            self.prog._written = self.scan_written()
        if not g.const and g.key in self.prog._written[1]:
            o.attrs['kept'] = 1
        if not g.const and g.key in self.prog._written[0]:
            o.base = ('op', new_cid())
            o.attrs['mutable'] = 1
            return o
        self.flat(o, 0, g.ty, g.init, g.mod)
        return o

    def scan_written(self):
        """globals that some instruction stores to, or whose address goes anywhere but a load"""
        w, kept = set(), set()     # written to; address stored, returned or given to something unknown

        def root(o):
            while o.k in ('gep', 'cast'):
                o = o.v[1][0] if o.k == 'gep' else o.v[1]
            return o
        def named(o):
            if o is None:
                return
            if o.k == 'glob':
                yield o.v
            elif o.k == 'agg':
                for x in o.v:
                    yield from named(x)
            elif o.k in ('gep', 'cast'):
                yield from named(root(o))

        for g in self.prog.globs.values() if hasattr(self.prog, 'globs') else ():
            for t in named(getattr(g, 'init', None)):
                r = self.prog.resolve(g.mod, t)
                if r[0] == 'g' and not r[1].const:
                    kept.add(r[1].key)
        dirty = {}                 # (function, parameter) -> what happens to the object it points to

        def scan(f):
            """adds to w and dirty"""
            der = {r: {('p', n)} for n, (t, r) in enumerate(f.params)}
            insts = [i for b in f.blocks.values() for i in b.insts] + [p for b in f.blocks.values() for p in b.phis]

            def g_of(o):
                r = root(o)
                if r.k == 'glob':
                    return {r.v}
                if r.k == 'reg':
                    return der.get(r.v, ())
                return ()
            more = True
            while more:                    # addresses computed from those of globals and parameters
                more = False
                for i in insts:
                    if i.op in ('getelementptr', 'phi', 'select'):
                        ops = i.a[:1] if i.op == 'getelementptr' else [x[0] if isinstance(x, tuple) else x for x in i.a]
                        t = set().union(*[g_of(x) for x in ops if hasattr(x, 'k')]) if ops else set()
                        if not t <= der.get(i.dst, set()):
                            der[i.dst] = der.get(i.dst, set()) | t
                            more = True

            def add(t, to):
                if isinstance(t, tuple):
                    dirty.setdefault((f.key, t[1]), set()).add('w' if to is w else 'k')
                    return
                r = self.prog.resolve(f.mod, t)
                if r[0] == 'g' and not r[1].const:
                    to.add(r[1].key)

            def esc(ops, to=kept):
                for x in ops or ():
                    for t in g_of(x) if hasattr(x, 'k') else ():
                        add(t, to)
            for i in insts:
                if i.op == 'store':
                    esc(i.a[:1])
                    esc(i.a[1:2], w)
                elif i.op == 'call' and i.x.k == 'glob':
                    nm = i.x.v
                    r = self.prog.resolve(f.mod, nm)
                    if nm.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
                        esc(i.a[:1], w)
                    elif r[0] == 'f' and r[1].key in self.prog.funcs and r[1].blocks and not r[1].varargs:
                        for n, x in enumerate(i.a):
                            d = dirty.get((r[1].key, n), ())
                            if 'w' in d:
                                esc([x], w)
                            if 'k' in d or n >= len(r[1].params):
                                esc([x])
                    elif nm in ('memcpy', 'memset', 'memmove', 'read', 'fread', 'fgets', 'snprintf', 'sprintf', 'strcpy', 'strncpy'):
                        esc(i.a, w)
                    elif nm not in ('memcmp', 'strcmp', 'strlen', 'printf', 'fprintf', 'write', 'puts'):
                        esc(i.a)
                elif i.op in ('call', 'ret', 'ptrtoint'):
                    esc(i.a)
        n = None
        while n != (len(w), len(kept), sum(map(len, dirty.values()))):
            n = (len(w), len(kept), sum(map(len, dirty.values())))
            for f in self.prog.funcs.values():
                scan(f)
        return w, kept

    def flat(self, o, off, ty, init, mod):
        if init is None or init.k in ('zero', 'undef'):
            return
        if init.k == 'str':
            for i, b in enumerate(init.v):
                o.cells[off + i] = (1, C(b))
            return
        if init.k == 'agg':
            if ty.k == 'arr':
                s = ty.elems[0].size()
                for i, x in enumerate(init.v):
                    self.flat(o, off + i * s, ty.elems[0], x, mod)
            else:
                for a, t, x in zip(ty.offsets(), ty.elems, init.v):
                    self.flat(o, off + a, t, x, mod)
            return
        if init.k == 'int':
            o.cells[off] = (ty.size(), C(init.v))
            return
        if init.k == 'null':
            o.cells[off] = (8, NULL)
            return
        if init.k in ('glob', 'gep'):
            o.cells[off] = (8, ('lazyglob', init, mod))
            # resolved on the fly; strings only
            g = init
            while g.k == 'gep':
                g = g.v[1][0]
            r = self.prog.resolve(mod, g.v)
            if r[0] in ('f', 'x'):
                o.cells[off] = (8, Fn(r[1]))
            else:
                s = Obj('global', None, ('op', new_cid()), 'string')
                s.attrs['cstring'] = 1
                self.globobj['@%d' % s.oid] = s
                o.cells[off] = (8, Ptr(s.oid))
            return
        if init.k == 'flt':
            o.cells[off] = (ty.size(), Flt(('const', init.v)))

    # ------------------------------------------------------------ gep
    def gep(self, st, sty, vals, tys, ins):
        p = vals[0]
        off = ZERO
        idx = vals[1:]
        t = sty
        for n, (v, ty) in enumerate(zip(idx, tys[1:])):
            if not isinstance(v, Lin):
                if v is UNDEF:
                    self.report(st, 'uninit', ins, 'index is not initialised')
                    raise Kill()
                if isinstance(v, Cond):
                    raise Split([[v.atom()], [v.neg().atom()]])
                st.lose('odd index')
                return Top('index')
            if n == 0:
                e = self.sview(st, v, ty.n)
                off = off + e * sty.size()
            elif t.k == 'arr':
                e = self.sview(st, v, ty.n)
                t = t.elems[0]
                off = off + e * t.size()
            else:
                i = st.store.norm(v)
                off = off + t.offsets()[i.c]
                t = t.elems[i.c]
        if isinstance(p, Ptr):
            o = st.mem.get(p.oid)
            if o is not None:
                if o.mnull is not None and not (not off.t and off.c == 0):
                    # field address of a possibly absent object: decided at the access
                    pass
                if o.kind == 'heap' and o.hint is None and sty.k == 'struct' and sty.name and not p.off.t and p.off.c == 0:
                    h = strip_name(sty.name)
                    if self.specs.get(h):
                        o.hint = h
            return Ptr(p.oid, st.store.norm(p.off + off))
        if p is NULL:
            off = st.store.norm(off)
            if not off.t and off.c == 0:
                return NULL
            return NullOff(off)
        if p is UNDEF:
            return UNDEF
        if isinstance(p, NullOff):
            return NullOff(p.off + off)
        st.lose('address of unknown')
        return Top('gep')

    # ------------------------------------------------------------ conditions
    def truth(self, st, v, ins):
        """True / False / Cond for an i1 value"""
        if isinstance(v, bool):
            return v
        if isinstance(v, Cond):
            return self.simp(st, v)
        if isinstance(v, Lin):
            v = st.store.norm(v)
            if not v.t:
                return bool(v.c & 1)
            return self.simp(st, Cond('ne', v))
        if v is UNDEF:
            self.report(st, 'uninit', ins, 'decision depends on an uninitialised value')
            raise Kill()
        if isinstance(v, Top):
            return Cond('any', 0)
        return Cond('any', 0)

    def simp(self, st, c):
        if c.k == 'any':
            return c
        if c.k in ('null', 'nonnull'):
            if c.e in st.nulled:
                return c.k == 'null'
            o = st.mem.get(c.e)
            if o is None or o.mnull is None:
                return c.k == 'nonnull'
            return c
        s = st.store
        e = s.norm(c.e)
        if c.k == 'ge':
            if s.ge(e):
                return True
            if s.ge(-e - 1):
                return False
        elif c.k == 'eq':
            if s.eq(e):
                return True
            if s.neq(e):
                return False
        elif c.k == 'ne':
            if s.eq(e):
                return False
            if s.neq(e):
                return True
        return Cond(c.k, e)

    def icmp(self, st, pred, a, b, ty, ins):
        if a is UNDEF or b is UNDEF:
            self.report(st, 'uninit', ins, 'comparison of an uninitialised value')
            raise Kill()
        if ty.k == 'ptr':
            return self.pcmp(st, pred, a, b, ins)
        if isinstance(b, Cond) and not isinstance(a, Cond):
            a, b = b, a
            pred = {'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge', 'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge'}.get(pred, pred)
        if isinstance(a, Cond):
            if isinstance(b, Lin):
                bb = st.store.norm(b)
                if not bb.t and pred in ('ne', 'eq') and (bb.c & ((1 << ty.n) - 1 if ty.n < 64 else -1)) in (0, 1):
                    one = (bb.c & 1) == 1
                    r = self.simp(st, a)
                    if pred == 'ne':
                        one = not one
                    if isinstance(r, bool):
                        return r == one
                    return r if one else r.neg()
            raise Split([[a.atom()], [a.neg().atom()]])
        if isinstance(a, Top) or isinstance(b, Top):
            return Cond('any', 0)
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            st.lose('odd comparison')
            return Cond('any', 0)
        n = ty.n
        s = st.store
        if pred in ('eq', 'ne'):
            d = s.norm(a - b)
            lo, hi = s.range(d)
            m = 1 << n
            if not (lo is not None and hi is not None and lo > -m and hi < m):
                if not d.t:
                    d = C(0) if d.c % m == 0 else C(1)
                else:
                    ua, ub = s.range(s.norm(a)), s.range(s.norm(b))

                    def inr(r, base):
                        return r[0] is not None and r[1] is not None and r[0] >= base and r[1] < base + m
                    if inr(ua, -(m >> 1)) and not inr(ua, 0):
                        a, b = self.sview(st, a, n), self.sview(st, b, n)
                    elif inr(ub, -(m >> 1)) and not inr(ub, 0):
                        a, b = self.sview(st, a, n), self.sview(st, b, n)
                    else:
                        a, b = self.uview(st, a, n), self.uview(st, b, n)
                    d = s.norm(a - b)
            elif lo <= -m // 2 * 2 or True:
                # equality modulo 2^n with |d| < 2^n is plain equality
                pass
            return self.simp(st, Cond(pred, d))
        if pred[0] == 's':
            a, b = self.sview(st, a, n), self.sview(st, b, n)
        else:
            a, b = self.uview(st, a, n), self.uview(st, b, n)
        r = pred[1:]
        if r == 'gt':
            e = a - b - 1
        elif r == 'ge':
            e = a - b
        elif r == 'lt':
            e = b - a - 1
        else:
            e = b - a
        return self.simp(st, Cond('ge', s.norm(e)))

    def pcmp(self, st, pred, a, b, ins):
        a, b = self.nz(st, a), self.nz(st, b)
        if pred in ('eq', 'ne'):
            r = None
            if a is NULL and b is NULL:
                r = True
            elif a is NULL or b is NULL:
                p = b if a is NULL else a
                if isinstance(p, Ptr):
                    o = st.mem.get(p.oid)
                    if o is not None and o.freed:
                        self.report(st, 'uaf', ins, 'use of a pointer to freed memory') if False else None
                    if o is not None and o.mnull is not None:
                        off = st.store.norm(p.off)
                        c = Cond('null', p.oid)
                        return c if pred == 'eq' else c.neg()
                    r = False
                elif isinstance(p, (Fn, NullOff)):
                    r = False
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.oid == b.oid:
                    c = self.simp(st, Cond('eq', st.store.norm(a.off - b.off)))
                    if isinstance(c, bool):
                        return c if pred == 'eq' else (not c)
                    return c if pred == 'eq' else c.neg()
                oa, ob = st.mem.get(a.oid), st.mem.get(b.oid)
                if oa is not None and ob is not None and oa.mnull is not None and ob.mnull is not None:
                    raise Split([[('nonnull', a.oid)], [('null', a.oid)]])
                r = False
            elif isinstance(a, Fn) and isinstance(b, Fn):
                if a.role is None and b.role is None:
                    r = a.f is b.f
            if r is None:
                return Cond('any', 0)
            return r if pred == 'eq' else (not r)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.oid == b.oid:
            x, y = a.off, b.off
            e = {'gt': x - y - 1, 'ge': x - y, 'lt': y - x - 1, 'le': y - x}[pred[1:]]
            return self.simp(st, Cond('ge', st.store.norm(e)))
        st.lose('pointer order')
        return Cond('any', 0)

    def nz(self, st, v):
        if isinstance(v, Ptr) and v.oid in st.nulled:
            return NULL
        if isinstance(v, Lin):
            n = st.store.norm(v)
            if not n.t and n.c == 0:
                return NULL
        return v

    # ------------------------------------------------------------ arithmetic
    def bits(self, st, e, a, m):
        """bits a..a+m-1 of e, as a number"""
        s = st.store
        q = s.floordiv(e, 1 << a) if a else s.norm(e)
        lo, hi = s.range(q)
        if lo is not None and hi is not None and lo >= 0 and hi < (1 << m):
            return q
        return s.norm(q - s.floordiv(q, 1 << m) * (1 << m))

    def andc(self, st, e, mask, n):
        mask &= (1 << n) - 1
        e = st.store.norm(e)
        if not e.t:
            return C(e.c & mask)
        r = ZERO
        a = 0
        runs = 0
        lo, hi = st.store.range(e)
        if lo is not None and hi is not None and 0 <= lo and hi < (1 << n):
            top = hi.bit_length()
            # bits above the value need no masking
            mm = mask & ((1 << top) - 1)
            if mm == (1 << top) - 1:
                return e
            if mm == 0:
                return ZERO
            mask = mm
        while mask >> a:
            if (mask >> a) & 1:
                m = 0
                while (mask >> (a + m)) & 1:
                    m += 1
                r = r + self.bits(st, e, a, m) * (1 << a)
                a += m
                runs += 1
            else:
                a += 1
        return st.store.norm(r)

    def arith(self, st, i, a, b):
        n = i.ty.n
        op = i.op
        s = st.store
        for v in (a, b):
            if isinstance(v, Cond):
                raise Split([[v.atom()], [v.neg().atom()]])
            if isinstance(v, bool):
                pass
        a = C(int(a)) if isinstance(a, bool) else a
        b = C(int(b)) if isinstance(b, bool) else b
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            return self.ptrarith(st, op, a, b)
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            return Top('arith')
        a, b = s.norm(a), s.norm(b)
        if op == 'add':
            return s.norm(a + b)
        if op == 'sub':
            return s.norm(a - b)
        if op == 'mul':
            if not a.t:
                return b * a.c
            if not b.t:
                return a * b.c
            return self.opaque(st, 'mul', n, a, b)
        if op == 'shl':
            if not b.t:
                return a * (1 << b.c) if 0 <= b.c < n else self.opaque(st, 'shl', n, a, b)
            lo, hi = s.range(b)
            if lo is not None and hi is not None and hi - lo < 64 and lo >= 0:
                raise Split([[('eq', b - k)] for k in range(lo, hi + 1)])
            return self.opaque(st, 'shl', n, a, b)
        if op in ('lshr', 'ashr'):
            if b.t:
                lo, hi = s.range(b)
                if lo is not None and hi is not None and hi - lo < 64 and lo >= 0:
                    raise Split([[('eq', b - k)] for k in range(lo, hi + 1)])
                return self.opaque(st, op, n, a, b)
            v = self.uview(st, a, n) if op == 'lshr' else self.sview(st, a, n)
            return s.floordiv(v, 1 << b.c)
        if op == 'and':
            if a.t and not b.t:
                return self.andc(st, a, b.c, n)
            if b.t and not a.t:
                return self.andc(st, b, a.c, n)
            if not a.t:
                return C((a.c & b.c) & ((1 << n) - 1))
            if a == b:
                return a
            r = self.opaque(st, 'and', n, a, b)
            ua, ub = self.uview(st, a, n), self.uview(st, b, n)
            s.add_ge(ua - r)
            s.add_ge(ub - r)
            return r
        if op == 'or':
            if not a.t and not b.t:
                return C((a.c | b.c) & ((1 << n) - 1))
            if not a.t:
                a, b = b, a
            if not b.t:
                m = b.c & ((1 << n) - 1)
                return s.norm(a + m - self.andc(st, a, m, n))
            ua, ub = self.uview(st, a, n), self.uview(st, b, n)
            for x, y in ((ua, ub), (ub, ua)):
                # x multiple of 2^k, y < 2^k
                hi = s.range(y)[1]
                if hi is not None:
                    k = hi.bit_length()
                    m = 1 << k
                    if x.c % m == 0 and all(c % m == 0 for _, c in x.t):
                        return s.norm(x + y)
            r = self.opaque(st, 'or', n, ua, ub)
            s.add_ge(r - ua)
            s.add_ge(r - ub)
            s.add_ge(ua + ub - r)
            return r
        if op == 'xor':
            if not a.t and not b.t:
                return C((a.c ^ b.c) & ((1 << n) - 1))
            if not a.t:
                a, b = b, a
            if not b.t:
                m = b.c & ((1 << n) - 1)
                return s.norm(a + m - self.andc(st, a, m, n) * 2)
            if a == b:
                return ZERO
            return self.opaque(st, 'xor', n, a, b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if op[0] == 'u':
                a, b = self.uview(st, a, n), self.uview(st, b, n)
            else:
                a, b = self.sview(st, a, n), self.sview(st, b, n)
            if b.t:
                return self.opaque(st, op, n, a, b)
            d = b.c
            if d == 0:
                self.report(st, 'div0', i, 'division by zero')
                raise Kill()
            if d < 0 or not s.ge(a):
                if d > 0 and s.ge(-a):
                    q = -s.floordiv(-a, d)
                elif d > 0:
                    raise Split([[('ge', a)], [('ge', -a - 1)]])
                else:
                    return self.opaque(st, op, n, a, b)
            else:
                q = s.floordiv(a, d)
            if op in ('udiv', 'sdiv'):
                return q
            return s.norm(a - q * d)
        return Top(op)

    def opaque(self, st, op, n, a, b):
        k = (op, n, st.store.norm(a), st.store.norm(b))
        v = st.memo.get(k)
        if v is None:
            v = st.memo[k] = st.sym(op, 0, (1 << n) - 1)
            DEF[v.t[0][0]] = (op, n, a, b)
        return v

    def ptrarith(self, st, op, a, b):
        if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt) and a.oid == b.oid:
            return st.store.norm(a.off - b.off)
        if op == 'add' and isinstance(a, PtrInt) and isinstance(b, Lin):
            return PtrInt(a.oid, a.off + b)
        if op == 'add' and isinstance(b, PtrInt) and isinstance(a, Lin):
            return PtrInt(b.oid, b.off + a)
        if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, Lin):
            return PtrInt(a.oid, a.off - b)
        st.lose('pointer arithmetic')
        return Top('ptrarith')

    # ------------------------------------------------------------ one instruction
    def step(self, st, i):
        """execute a non-terminator on st in place.  May raise Split/Kill.
        Returns None, or a list of successor states (calls)."""
        self.stats['insts'] += 1
        fr = st.frames[-1]
        op = i.op
        if op == 'call':
            return self.call(st, i)
        if op == 'load':
            v = self.load(st, self.op(st, i.a[0]), i.ty, i)
            fr[i.dst] = v
            return None
        if op == 'store':
            v = self.op(st, i.a[0])
            self.storev(st, self.op(st, i.a[1]), v, i.a[0].ty, i)
            return None
        if op == 'getelementptr':
            fr[i.dst] = self.gep(st, i.x, [self.op(st, a) for a in i.a], [a.ty for a in i.a], i)
            return None
        if op == 'icmp':
            fr[i.dst] = self.icmp(st, i.x, self.op(st, i.a[0]), self.op(st, i.a[1]), i.a[0].ty, i)
            return None
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = self.op(st, i.a[0]), self.op(st, i.a[1])
            if i.ty.n == 1 and op in ('xor', 'and', 'or'):
                fr[i.dst] = self.logic1(st, op, a, b, i)
                return None
            fr[i.dst] = self.arith(st, i, a, b)
            return None
        if op in ('zext', 'sext', 'trunc'):
            fr[i.dst] = self.cast(st, i, self.op(st, i.a[0]))
            return None
        if op == 'alloca':
            n = C(1)
            if i.a:
                n = self.op(st, i.a[0])
                if not isinstance(n, Lin):
                    st.lose('odd alloca')
                    n = st.sym('n', 0, None)
                n = self.uview(st, n, i.a[0].ty.n)
                self.on_vla(st, n * i.x.size(), i)
            o = Obj('stack', st.store.norm(n * i.x.size()), ('undef',), i.fn.name + ' local', self.where(i))
            o.attrs['frame'] = len(st.frames)
            fr[i.dst] = st.add(o)
            return None
        if op == 'select':
            c = self.truth(st, self.op(st, i.a[0]), i)
            if isinstance(c, Cond):
                if c.k == 'any':
                    raise Split([[], []]) if False else self._anysel(st, i)
                raise Split([[c.atom()], [c.neg().atom()]])
            fr[i.dst] = self.op(st, i.a[1] if c else i.a[2])
            return None
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            fr[i.dst] = self.op(st, i.a[0])
            return None
        if op == 'ptrtoint':
            v = self.nz(st, self.op(st, i.a[0]))
            if v is NULL:
                fr[i.dst] = ZERO
            elif isinstance(v, Ptr):
                fr[i.dst] = PtrInt(v.oid, v.off)
            else:
                fr[i.dst] = v if v is UNDEF else Top('ptrtoint')
            return None
        if op == 'inttoptr':
            v = self.op(st, i.a[0])
            fr[i.dst] = Ptr(v.oid, v.off) if isinstance(v, PtrInt) else (NULL if self.nz(st, v) is NULL else Top('inttoptr'))
            return None
        if op in ('sitofp', 'uitofp'):
            v = self.op(st, i.a[0])
            if v is UNDEF:
                fr[i.dst] = UNDEF
                return None
            if isinstance(v, Lin):
                v = self.sview(st, v, i.a[0].ty.n) if op[0] == 's' else self.uview(st, v, i.a[0].ty.n)
            fr[i.dst] = Flt((op, v, i.a[0].ty.n, i.ty.n))
            return None
        if op in ('fpext', 'fptrunc', 'fneg', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            vs = tuple(self.op(st, a) for a in i.a)
            if any(v is UNDEF for v in vs):
                fr[i.dst] = UNDEF
            else:
                fr[i.dst] = Flt((op,) + vs)
            return None
        if op in ('fptosi', 'fptoui'):
            v = self.op(st, i.a[0])
            n = i.ty.n
            fr[i.dst] = UNDEF if v is UNDEF else st.sym('fp', -(1 << (n - 1)), (1 << (n - 1)) - 1)
            return None
        if op == 'fcmp':
            fr[i.dst] = Cond('any', 0)
            return None
        if op in ('extractvalue', 'insertvalue', 'unknown'):
            st.lose('instruction ' + op)
            self.note('instruction %s' % op, i)
            if i.dst:
                fr[i.dst] = Top(op)
            return None
        raise IRError('instruction ' + op)

    def _anysel(self, st, i):
        a, b = self.op(st, i.a[1]), self.op(st, i.a[2])

        def pick(v):
            def f(s):
                s.ghosts['$sel'] = v
                return True
            return f
        if '$sel' in st.ghosts:
            v = st.ghosts.pop('$sel')
            st.frames[-1][i.dst] = v
            return None
        return Split([[pick(a)], [pick(b)]])

    def logic1(self, st, op, a, b, i):
        a, b = self.truth(st, a, i), self.truth(st, b, i)
        if isinstance(a, bool) and isinstance(b, bool):
            return {'xor': a != b, 'and': a and b, 'or': a or b}[op]
        if isinstance(a, bool):
            a, b = b, a
        if isinstance(b, bool):
            if op == 'xor':
                return a.neg() if b else a
            if op == 'and':
                return a if b else False
            return True if b else a
        raise Split([[a.atom()], [a.neg().atom()]])

    def cast(self, st, i, v):
        op = i.op
        src = i.a[0].ty.n
        if isinstance(v, (Cond, bool)) :
            if isinstance(v, bool):
                r = 1 if v else 0
                return C(-r if op == 'sext' and src == 1 else r)
            if v.k == 'any':
                st.lose('undecided condition used as a number')
                v = st.sym('bit', 0, 1)
                return -v if op == 'sext' and src == 1 else v
            if op == 'zext' or op == 'trunc':
                return v
            raise Split([[v.atom()], [v.neg().atom()]])
        if isinstance(v, PtrInt):
            return v
        if not isinstance(v, Lin):
            return v
        if op == 'trunc':
            if i.ty.n == 1:
                return self.andc(st, v, 1, 1) if st.store.norm(v).t else C(st.store.norm(v).c & 1)
            return v
        if op == 'zext':
            return self.uview(st, v, src)
        return self.sview(st, v, src)

    # ------------------------------------------------------------ blocks and edges
    def run_insts(self, st, b, start=0):
        """execute block b from instruction `start`; returns list of (state) at the terminator"""
        out = []
        work = [(st, start)]
        insts = b.insts
        last = len(insts) - 1
        guard = 0
        while work:
            s, k = work.pop()
            alive = True
            while k < last:
                ins = insts[k]
                try:
                    r = self.step(s, ins)
                except Kill:
                    alive = False
                    break
                except Split as sp:
                    guard += 1
                    if guard > 3000:
                        raise Incomplete('too many case splits in %s' % self.where(ins))
                    for s2 in self.split(s, sp):
                        work.append((s2, k))
                    alive = False
                    break
                if r is not None:
                    for s2 in r[1:]:
                        work.append((s2, k + 1))
                    if not r:
                        alive = False
                        break
                    s = r[0]
                k += 1
            if alive:
                out.append(s)
            if time.time() > self.deadline:
                raise Incomplete('time')
        return out

    def split(self, s, sp):
        out = []
        n = len(sp.alts)
        for idx, alt in enumerate(sp.alts):
            s2 = s.copy() if idx < n - 1 else s
            ok = True
            for a in alt:
                if not s2.assume(a):
                    ok = False
                    break
            if ok and s2.check():
                out.append(s2)
        self.stats['states'] += len(out)
        return out

    def terminators(self, st, b):
        """list of (target block | None, state, retval)"""
        i = b.insts[-1]
        self.stats['insts'] += 1
        if i.op == 'ret':
            v = None
            if i.a:
                v = self.op(st, i.a[0])
            return [(None, st, v)]
        if i.op == 'unreachable':
            return []
        if i.op == 'br':
            if not i.a:
                return [(i.x[0], st, None)]
            c = self.truth(st, self.op(st, i.a[0]), i)
            if isinstance(c, bool):
                return [(i.x[0] if c else i.x[1], st, None)]
            out = []
            if i.x[0] == i.x[1]:
                return [(i.x[0], st, None)]
            s2 = st.copy()
            if s2.assume(c.atom()) and s2.check():
                out.append((i.x[0], s2, None))
            if st.assume(c.neg().atom()) and st.check():
                out.append((i.x[1], st, None))
            self.stats['states'] += len(out) - 1
            return out
        if i.op == 'switch':
            v = self.op(st, i.a[0])
            if v is UNDEF:
                self.report(st, 'uninit', i, 'switch on an uninitialised value')
                return []
            if isinstance(v, Cond):
                raise Split([[v.atom()], [v.neg().atom()]])
            if isinstance(v, bool):
                v = C(int(v))
            if not isinstance(v, Lin):
                out = []
                for t in dict.fromkeys([c[1] for c in i.x[1]] + [i.x[0]]):
                    out.append((t, st.copy(), None))
                return out
            n = i.a[0].ty.n
            v = st.store.norm(v)
            lo, hi = st.store.range(v)
            if not (lo is not None and hi is not None and lo >= 0 and hi < (1 << n)):
                if not (lo is not None and hi is not None and lo >= -(1 << (n - 1)) and hi < (1 << (n - 1))):
                    v = self.uview(st, v, n)
            lo, hi = st.store.range(v)
            neg = lo is not None and lo < 0
            groups = {}
            for c, t in i.x[1]:
                c = c % (1 << n)
                if neg and c >= 1 << (n - 1):
                    c -= 1 << n
                if not neg and c >= 1 << (n - 1) and hi is not None and hi < 1 << (n - 1):
                    c = c
                groups.setdefault(t, []).append(c)
            out = []
            rest = st
            for t, cs in groups.items():
                for c in cs:
                    d = v - c
                    if st.store.neq(d):
                        continue
                    s2 = st.copy()
                    if s2.assume(('eq', d)) and s2.check():
                        out.append((t, s2, None))
            ok = True
            for t, cs in groups.items():
                for c in cs:
                    if not rest.assume(('ne', v - c)):
                        ok = False
                        break
                if not ok:
                    break
            if ok and rest.check():
                out.append((i.x[0], rest, None))
            return out
        raise IRError('terminator ' + i.op)

    def edge(self, st, fn, src, dst):
        """phi evaluation and liveness pruning"""
        b = fn.blocks[dst]
        fr = st.frames[-1]
        if b.phis:
            vals = []
            for ph in b.phis:
                for a, x in zip(ph.a, ph.x):
                    if x == src:
                        v = self.op(st, a)
                        break
                vals.append((ph.dst, v))
            for d, v in vals:
                fr[d] = v
        live = fn.livein[dst]
        keep = {ph.dst for ph in b.phis}
        st.frames[-1] = {k: v for k, v in fr.items() if k in live or k in keep}
        return st

    def exec_block(self, fn, bname, states, out, rets):
        """execute block for all states; push successors into out dict"""
        b = fn.blocks[bname]
        self.curmod = fn.mod
        for st in states:
            for s in self.run_insts(st, b):
                self.curmod = fn.mod
                work = [s]
                while work:
                    s = work.pop()
                    try:
                        ts = self.terminators(s, b)
                    except Split as sp:
                        work.extend(self.split(s, sp))
                        continue
                    for t, s2, v in ts:
                        if t is None:
                            rets.append((s2, v))
                        else:
                            out.setdefault((bname, t), []).append(self.edge(s2, fn, bname, t))

    def exec_fn(self, fn, args, st, ins=None):
        """inline execution; returns list of (state, value)"""
        if len(self.inlining) > 60:
            raise Incomplete('call depth')
        self.fnseen.add(fn.key)
        self.inlining.append(fn)
        if ins is not None:
            self.stack.append(ins)
        savemod = getattr(self, 'curmod', None)
        fr = {}
        for (ty, nm), v in zip(fn.params, args):
            fr[nm] = v
        st.frames.append(fr)
        rets = []
        pending = {fn.order[0]: [st]}
        try:
            self.exec_seq(fn, fn.wto, pending, rets)
        finally:
            self.inlining.pop()
            if ins is not None:
                self.stack.pop()
            self.curmod = savemod
        depth = len(rets[0][0].frames) if rets else 0
        out = []
        for s, v in rets:
            n = len(s.frames)
            s.frames.pop()
            # locals die
            for oid in [o.oid for o in s.mem.values() if o.kind == 'stack' and o.attrs.get('frame') == n]:
                o = s.wobj(oid)
                o.freed = 'return from %s' % fn.name
            out.append((s, v))
        if len(out) > 1:
            out = self.merge_rets(out)
        return out

    def exec_seq(self, fn, elems, pending, rets):
        for el in elems:
            if isinstance(el, tuple):
                head = el[0]
                states = pending.pop(head, None)
                if not states:
                    continue
                outs = self.run_loop(fn, el, states, rets)
                for t, ss in outs.items():
                    pending.setdefault(t, []).extend(ss)
            else:
                states = pending.pop(el, None)
                if not states:
                    continue
                if len(states) > 1:
                    states = self.merge_states(states, fn, el)
                self.stats['maxstates'] = max(self.stats['maxstates'], len(states))
                out = {}
                self.exec_block(fn, el, states, out, rets)
                for (s, t), ss in out.items():
                    pending.setdefault(t, []).extend(ss)

    # ------------------------------------------------------------ recursion
    DEPTH = 10000

    @property
    def scc(self):
        """functions that call the entry point of this analysis and are called by it"""
        r = self.__dict__.get('_scc')
        if r is None:
            f = self.opts.get('rootfn')
            r = frozenset()
            if f is not None and hasattr(f, 'key'):
                down = self.prog.reach(f, True)
                if f.key in down:
                    r = frozenset(k for k in down if f.key in self.prog.reach(self.prog.funcs[k], True))
            self._scc = r
        return r

    def on_recursion(self, st, callee, args, i):
        """a call that leads back to the entry point: the depth must be bounded"""
        root = self.opts.get('rootfn')
        if callee is not root:
            if callee.internal or callee.name not in self.prog.api:
                return            # looked into: the call back follows
            self.oblig['C24'] = self.oblig.get('C24', 0) + 1
            self.report(st, 'C24', i, '%s and %s call each other without a bound on the depth' % (root.name, callee.name))
            return
        self.oblig['C24'] = self.oblig.get('C24', 0) + 1
        entry = self.opts.get('entry')
        if entry is None:
            return
        if not any(isinstance(a, Ptr) and a.oid in st.mem and st.mem[a.oid].attrs.get('in') for a in args):
            a = args[0] if args else NULL
            a = self.nz(st, a)
            if a is NULL:
                return
            o = st.mem.get(a.oid) if isinstance(a, Ptr) else None
            if o is not None and ('node_idx' in o.attrs or o.kind == 'lseg'):
                self.report(st, 'C24', i, '%s calls itself once for every entry of a list' % root.name)
            elif o is None or 'elem_of' not in o.attrs:
                self.note('recursion of %s not classified' % root.name, i)
            return
        K = self.DEPTH
        for k, (a, b) in enumerate(zip(args, entry)):
            if not isinstance(a, Lin) or not isinstance(b, Lin):
                continue
            ty = root.params[k][0]
            n = ty.n
            x, y = self.sview(st, a, n), self.sview(st, b, n)
            lo, hi = st.store.range(x)
            up = st.store.ge(x - y - 1) and st.store.ge(C(K) - x)
            down = st.store.ge(y - x - 1) and st.store.ge(x + K)
            if (up or down) and self.startdepth(root, k):
                return
        self.report(st, 'C24', i, '%s calls itself without a bound on the depth' % root.name)

    def startdepth(self, root, k):
        """do all calls from outside the recursion start at a constant depth?"""
        for f in self.prog.funcs.values():
            if f.key in self.scc:
                continue
            for ins, kind, t in self.prog.callees(f):
                if kind == 'f' and t is root:
                    o = ins.a[k]
                    if o.k not in ('int', 'zero') or o.k == 'int' and abs(o.v) > self.DEPTH and abs(o.v - (1 << root.params[k][0].n)) > self.DEPTH:
                        return False
                if kind == 'a' and t is root:
                    return False
        return True

    # ------------------------------------------------------------ calls
    def call(self, st, i):
        """returns list of successor states"""
        fr = st.frames[-1]
        if i.x.k == 'glob':
            r = self.prog.resolve(i.fn.mod, i.x.v)
            callee = r[1] if r[0] in ('f', 'x') else None
        else:
            v = self.nz(st, self.op(st, i.x))
            if v is NULL:
                self.report(st, 'null', i, 'call through a NULL function pointer')
                raise Kill()
            if v is UNDEF:
                self.report(st, 'uninit', i, 'call through an uninitialised function pointer')
                raise Kill()
            if isinstance(v, Fn):
                if v.role is not None:
                    args = [self.op(st, a) for a in i.a]
                    outs = self.role_call(st, v.role, args, i)
                    return self.finish_call(outs, i)
                callee = v.f
            else:
                st.lose('call through unknown pointer')
                self.note('unknown callee', i)
                callee = None
        if callee is None:
            if i.dst:
                fr[i.dst] = Top('call')
            return [st]
        args = [self.op(st, a) for a in i.a]
        if isinstance(callee, str):
            outs = self.builtin(st, callee, args, i)
            return self.finish_call(outs, i)
        self.stats['calls'] += 1
        self.callsites.add((i.fn.key, i.line, callee.key))
        if callee.key in self.scc:
            self.on_recursion(st, callee, args, i)
        if self.contracts_on:
            outs = self.contract(st, callee, args, i)
            if outs is not None:
                return self.finish_call(outs, i)
        if callee in self.inlining and self.inlining.count(callee) >= self.opts.get('rec', 2):
            outs = self.recursive(st, callee, args, i)
            return self.finish_call(outs, i)
        return self.finish_call(self.exec_fn(callee, args, st, i), i)

    def recursive(self, st, callee, args, i):
        st.lose('recursion')
        self.note('recursive call of %s' % callee.key, i)
        return [(st, Top('recursion'))]

    def finish_call(self, outs, i):
        res = []
        for s, v in outs:
            if i.dst:
                if v is None:
                    v = Top('void')
                s.frames[-1][i.dst] = v
            res.append(s)
        self.curmod = i.fn.mod
        return res


class PtrInt:
    __slots__ = ('oid', 'off')

    def __init__(self, oid, off):
        self.oid, self.off = oid, off


def fltconst(v):
    if isinstance(v, float):
        return v
    import struct
    if isinstance(v, str) and v.startswith('0x') and v[2] not in 'KLMHR':
        return struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0]
    return v
