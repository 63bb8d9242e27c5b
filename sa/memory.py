"""Memory operations of the abstract domain."""
from .core import *
from .spec import *
from .lin import refute

MAXN = 1 << 28     # upper bound assumed for element counts and lengths of existing objects


class MemMixin:
    # ------------------------------------------------------------ typed objects
    def typed(self, st, spec, mode, name='', mnull=None, **attrs):
        """a new heap object of the given spec, contents materialised on demand"""
        sp = self.specs.get(spec)
        size = C(sp.size) if sp and sp.size else None
        if spec.startswith('num'):
            base = ('op', new_cid())
        elif spec == 'bytes':
            base = ('op', new_cid())
            size = attrs.pop('size')
        else:
            base = ('typed', spec, mode)
        o = Obj('heap', size, base, name or spec)
        o.hint = spec
        o.mnull = mnull
        o.attrs.update(attrs)
        if spec == 'sml_buffer':
            pass
        return st.add(o)

    def field_mode_nonnull(self, spec, fname, mode):
        if mode == 'parsed':
            if spec == 'sml_message':
                return fname in ('message_body', 'crc')
            if spec in ('sml_message_body', 'sml_proc_par_value'):
                return fname == 'tag'
            if spec == 'sml_file':
                return fname == 'buf'
        if mode == 'write':
            if spec == 'sml_message':
                return fname == 'message_body'
            if spec == 'sml_message_body':
                return fname in ('tag', 'data')
            if spec == 'sml_proc_par_value':
                return fname == 'tag'
        if mode == 'free':
            if spec == 'sml_message_body':
                return fname == 'tag'
        return False

    def variants(self, oid, spec, mode):
        """alternatives for the tag-dependent content of value objects"""
        def octet(st):
            o = st.wobj(oid)
            o.cells[0] = (1, C(0))
            p = self.typed(st, 'octet_string', mode, mnull=() if mode != 'parsed' else None)
            o.cells[8] = (8, p)
            return True

        def boolean(st):
            o = st.wobj(oid)
            o.cells[0] = (1, C(0x40))
            p = self.typed(st, 'num1', mode, mnull=() if mode != 'parsed' else None)
            o.cells[8] = (8, p)
            return True

        def number(st):
            o = st.wobj(oid)
            u = st.sym('unsigned', 0, 1)
            sz = st.sym('numsize', 1, 8)
            for bad in (3, 5, 6, 7):
                st.store.add_ne(sz - bad)
            o.cells[0] = (1, C(0x50) + u * 16 + sz)
            b = Obj('heap', sz, ('op', new_cid()), 'number')
            b.mnull = () if mode != 'parsed' else None
            b.attrs['numblk'] = 1
            o.cells[8] = (8, st.add(b))
            return True
        return [[octet], [boolean], [number]]

    def materialize(self, st, oid, off, size):
        """give a typed object the cell at constant offset off; may Split"""
        o = st.mem[oid]
        spec, mode = o.base[1], o.base[2]
        sp = self.specs.get(spec)
        f = sp.fields.get(off)
        if f is None or f.size != size:
            st.lose('access to %s at %d' % (spec, off))
            return Top('odd field')
        o = st.wobj(oid)

        def setc(off, size, v):
            o.cells[off] = (size, v)
            return v
        if spec == 'octet_string':
            n = st.sym('len', 0, MAXN)
            sz = st.sym('strsize', 1, None)
            st.store.add_ge(sz - n)
            b = Obj('heap', sz, ('op', new_cid()), 'str')
            b.mnull = (('eq', n),)
            if mode == 'parsed':
                b.attrs['nn'] = (('ge', n - 1),)
            setc(8, 4, n)
            setc(0, 8, st.add(b))
            return o.cells[off][1]
        if spec == 'sml_value':
            raise Split(self.variants(oid, spec, mode))
        if spec == 'sml_status':
            sz = st.sym('numsize', 0 if mode != 'parsed' else 1, 8)
            for bad in (3, 5, 6, 7):
                st.store.add_ne(sz - bad)
            setc(0, 1, C(0x60) + sz)
            b = Obj('heap', sz, ('op', new_cid()), 'number')
            b.attrs['numblk'] = 1
            if mode != 'parsed':
                b.mnull = ()
                b.attrs['nn'] = (('ge', sz - 1),)
            setc(8, 8, st.add(b))
            return o.cells[off][1]
        if spec == 'sml_time':
            if f.kind == 'ptr':
                return setc(off, 8, self.typed(st, 'num1', mode, mnull=()))
            return setc(off, 8, self.typed(st, 'num4', mode, mnull=()))
        if spec in ('sml_proc_par_value', 'sml_message_body'):
            tsp = 'num1' if spec == 'sml_proc_par_value' else 'num4'
            tp = self.typed(st, tsp, mode)
            to = st.mem[tp.oid]
            tag = st.byte(to.base[1], ZERO, to.size.c)
            b = Obj('heap', None, ('var', tag, spec, mode), 'data')
            # absent data
            if not (mode != 'free' and spec == 'sml_message_body'):
                b.mnull = ()
            bp = st.add(b)
            setc(0, 8, tp)
            setc(8, 8, bp)
            if mode == 'free' and spec == 'sml_proc_par_value':
                st.mem[tp.oid].mnull = (('null', bp.oid),)
            if mode == 'free':
                pass
            return o.cells[off][1]
        if spec == 'sml_sequence':
            es = o.attrs.get('elem')
            n = st.sym('elems_len', 0, MAXN)
            a = Obj('heap', n * 8, ('undef',), 'elems')
            a.log = [('r', ZERO, n * 8, 'ptrs', (es, mode, es not in SEQ_ELEM_NONNULL))]
            a.mnull = (('eq', n),)
            a.attrs['nn'] = (('ge', n - 1),)
            setc(8, 4, n)
            setc(0, 8, st.add(a))
            setc(16, 8, Fn(role=('free', es)))
            return o.cells[off][1]
        if spec in ('s_tree', 'sml_tree_path', 'sml_file'):
            arr, cnt, es = {'s_tree': ('child_list', 'child_list_len', 's_tree'),
                            'sml_tree_path': ('path_entries', 'path_entries_len', 'octet_string'),
                            'sml_file': ('messages', 'messages_len', 'sml_message')}[spec]
            if f.name in (arr, cnt):
                n = st.sym(cnt, 0, MAXN)
                a = Obj('heap', n * 8, ('undef',), arr)
                a.log = [('r', ZERO, n * 8, 'ptrs', (es, mode, False))]
                a.mnull = (('eq', n),)
                a.attrs['nn'] = (('ge', n - 1),)
                setc(sp.byname[cnt].off, 4, n)
                setc(sp.byname[arr].off, 8, st.add(a))
                return o.cells[off][1]
        if spec == 'sml_buffer':
            self.fill_buffer(st, o, mode)
            return o.cells[off][1]
        if f.kind == 'int':
            v = st.sym(f.name, 0, 256 ** f.size - 1)
            return setc(off, size, v)
        if f.kind == 'fn':
            return setc(off, size, Fn(role=('field', spec, f.name)))
        if f.kind == 'ptr':
            sub = f.sub
            nn = self.field_mode_nonnull(spec, f.name, mode)
            attrs = {}
            if sub == 'sml_sequence':
                attrs['elem'] = SEQ_OF.get((spec, f.name))
                if mode == 'parsed':
                    pass
            if sub in self.LISTS:
                if f.name != self.LISTS[sub]:
                    attrs['node_idx'] = ZERO
                elif 'node_idx' in o.attrs:
                    attrs['node_idx'] = st.store.norm(o.attrs['node_idx'] + 1)
            if 'node_idx' in attrs and attrs['node_idx'].t:
                attrs['nn'] = (('ge', C(MAXN) - attrs['node_idx']),)
            p = self.typed(st, sub, mode, name=f.name, mnull=None if nn else (), **attrs)
            return setc(off, size, p)
        st.lose('field kind of %s.%s' % (spec, f.name))
        return setc(off, size, Top('field'))

    def fill_buffer(self, st, o, mode):
        """cells of an sml_buffer that somebody else has set up"""
        n = st.sym('buffer_len', 0, (1 << 31) - 1)
        c = st.sym('cursor', 0, None)
        st.store.add_ge(n - c)
        d = Obj('heap', n, ('op', new_cid()), 'bufdata')
        d.mnull = (('eq', n),)
        o.cells[0] = (8, st.add(d))
        o.cells[8] = (8, n)
        o.cells[16] = (8, c)
        if 24 not in o.cells:
            o.cells[24] = (4, C(0) if mode != 'free' else st.sym('error', 0, 1))
        m = Obj('heap', st.sym('msgsize', 1, 4096), ('op', new_cid()), 'error_msg')
        m.mnull = ()
        o.cells[32] = (8, st.add(m))

    def var_specs(self, spec):
        return MSG_TAGS if spec == 'sml_message_body' else PPV_TAGS

    def resolve_var(self, st, oid, want=None, ins=None):
        """the data object behind a tag becomes an object of the type its tag stands for"""
        o = st.mem[oid]
        tag, bspec, mode = o.base[1], o.base[2], o.base[3]
        table = self.var_specs(bspec)
        t = st.store.norm(tag)
        if not t.t:
            s = table.get(t.c)
        else:
            cands = [k for k in table if not st.store.neq(t - k)]
            ss = {table[k] for k in cands}
            other = True
            if len(cands) == 0:
                s = None
            else:
                s = ss.pop() if len(ss) == 1 else None
                if s is not None:
                    # all remaining tags agree; is any other tag value possible?
                    s2 = st.copy()
                    for k in cands:
                        if not s2.store.assume_ne(t - k):
                            s2 = None
                            break
                    if s2 is not None and s2.check():
                        s = None
        if s is None:
            return None
        o = st.wobj(oid)
        sp = self.specs.get(s)
        o.base = ('typed', s, mode)
        o.size = C(sp.size)
        o.hint = s
        return s

    # ------------------------------------------------------------ access checks
    def target(self, st, p, ins, what, size=None):
        """the live object behind pointer p (bounds checked for size bytes)"""
        if isinstance(p, Lin):
            pn = st.store.norm(p)
            if not pn.t and pn.c == 0:
                p = NULL
        if p is NULL or isinstance(p, NullOff):
            self.report(st, 'null', ins, '%s through a NULL pointer' % what)
            raise Kill()
        if p is UNDEF:
            self.report(st, 'uninit', ins, '%s through an uninitialised pointer' % what)
            raise Kill()
        if isinstance(p, (Fn, Top)) or not isinstance(p, Ptr):
            st.lose('%s through unknown pointer' % what)
            self.note('unknown pointer', ins)
            self.report(st, 'null', ins, '%s through a pointer the analysis does not know' % what)
            raise Kill()
        o = st.mem.get(p.oid)
        if o is None:
            if p.oid in st.nulled:
                self.report(st, 'null', ins, '%s through a NULL pointer' % what)
                raise Kill()
            self.report(st, 'uaf', ins, '%s to memory that is gone' % what)
            raise Kill()
        if o.freed:
            self.report(st, 'uaf', ins, '%s to memory freed at %s' % (what, o.freed))
            raise Kill()
        if o.mnull is not None:
            raise Split([[('nonnull', p.oid)], [('null', p.oid)]])
        if o.base[0] == 'var':
            s = self.resolve_var(st, p.oid)
            if s is None:
                self.report(st, 'type', ins, '%s to data whose tag does not determine its type' % what)
                raise Kill()
            o = st.mem[p.oid]
        if o.kind == 'lseg':
            raise Split(self.unfold_lseg(p.oid))
        if size is not None:
            self.bounds(st, o, p.off, size, ins, what)
        if what == 'write' and o.attrs.get('input'):
            self.report(st, 'C20', ins, 'the input of the caller is modified')
        return st.mem[p.oid]

    def bounds(self, st, o, off, size, ins, what):
        if isinstance(size, int):
            size = C(size)
        off = st.store.norm(off)
        if not st.store.ge(size - 1):
            # may be an empty access
            if st.store.ge(-size):
                return
            raise Split([[('ge', size - 1)], [('ge', -size)]])
        cat = 'oob-write' if what == 'write' else 'oob-read'
        self.require(st, off, cat, ins, '%s before the start of %s' % (what, o.name or o.kind))
        if o.size is not None:
            self.require(st, o.size - off - size, cat, ins,
                         '%s beyond the end of %s' % (what, o.name or o.kind))

    def require(self, st, e, cat, ins, msg):
        """e >= 0 must hold"""
        if st.store.ge(e):
            return
        ng = -st.store.norm(e) - 1
        cons, full = st.store.component([ng], 12, 200)
        if refute(cons + [ng], 600):
            st.store.add_ge(e)
            return
        self.report(st, cat, ins, msg, need=e)
        if not st.store.assume_ge(e):
            raise Kill()

    # ------------------------------------------------------------ reading
    def load(self, st, p, ty, ins):
        size = ty.size()
        o = self.target(st, p, ins, 'read', size)
        v = self.read(st, o, p.off, size, ty, ins)
        return v

    def read(self, st, o, off, size, ty, ins, depth=0):
        if o.kind == 'stream':
            o = st.mem.get(o.oid, o)            # what is known of the device's bytes by now
        off = st.store.norm(off)
        isptr = ty is not None and ty.k == 'ptr'
        if o.log is None:
            if not off.t:
                a = off.c
                c = o.cells.get(a)
                if c is not None and c[0] == size:
                    return self.conv(st, c[1], ty, ins)
                if any(x < a + size and a < x + o.cells[x][0] for x in o.cells):
                    return self.compose(st, o, a, size, ty, ins)
                return self.conv(st, self.base_read(st, o, off, size, isptr, ins), ty, ins)
            if not o.cells:
                return self.conv(st, self.base_read(st, o, off, size, isptr, ins), ty, ins)
            if o.base[0] == 'cdata' or o.attrs.get('const') or self.localtable(st, o, off, size):
                return self.table_read(st, o, off, size, ty)
            ents = [('c', C(a), s, v) for a, (s, v) in o.cells.items()]
        else:
            ents = o.log
        v = self.scan(st, o, ents, off, size, isptr, ins, depth)
        return self.conv(st, v, ty, ins)

    def conv(self, st, v, ty, ins):
        if isinstance(v, Ptr) and v.oid in st.nulled:
            return NULL
        if ty is None:
            return v
        if ty.k == 'ptr':
            if isinstance(v, Lin):
                n = st.store.norm(v)
                if not n.t and n.c == 0:
                    return NULL
                st.lose('integer used as pointer')
                return Top('int as ptr')
            return v
        if ty.k == 'int':
            if v is NULL:
                return ZERO
            if isinstance(v, Lin):
                return st.store.norm(v)
            return v
        if ty.k == 'flt':
            if isinstance(v, Lin):
                n = st.store.norm(v)
                if not n.t and n.c == 0:
                    return Flt(('const', 0.0))
                return Flt(('bits', n))
        return v

    def localtable(self, st, o, off, size):
        return False

    def table_read(self, st, o, off, size, ty):
        vals = []
        for a, (s, v) in o.cells.items():
            if s == size and isinstance(v, Lin) and not v.t:
                vals.append(v.c)
            elif isinstance(v, (Ptr, Null)):
                return self.ptr_table(st, o, off, size)
        if not vals or any(s != size for s, _ in o.cells.values()):
            st.lose('table of mixed entries')
            return Top('table')
        name = o.name
        if o.base[0] != 'cdata' and not o.attrs.get('const'):
            name = tuple(vals)              # a table that lives on the stack: what it holds
        k = ('tab', name, off, size)
        v = st.memo.get(k)
        if v is None:
            v = st.sym('tab', min(vals), max(vals))
            DEF[v.t[0][0]] = ('tab', name, off, size)
            st.memo[k] = v
        return v

    def ptr_table(self, st, o, off, size):
        k = ('tab', o.name, off, size)
        v = st.memo.get(k)
        if v is None:
            s = Obj('global', None, ('op', new_cid()), 'entry of ' + o.name)
            s.attrs['cstring'] = 1
            if any(v is NULL for _, v in o.cells.values()):
                s.mnull = ()
            v = st.memo[k] = st.add(s)
        return v

    def base_read(self, st, o, off, size, isptr, ins):
        b = o.base
        if b[0] == 'undef':
            return UNDEF
        if b[0] == 'zero':
            return NULL if isptr else ZERO
        if b[0] == 'fill':
            v = ZERO
            for k in range(size):
                v = v * 256 + b[1]
            return v
        if b[0] == 'op':
            if isptr:
                st.lose('pointer read from raw bytes')
                return Top('raw ptr')
            return st.byte(b[1], off, size)
        if b[0] == 'typed':
            if off.t:
                st.lose('symbolic offset into a structure')
                return Top('symbolic field')
            return self.materialize(st, o.oid, off.c, size)
        if b[0] == 'cdata':
            return NULL if isptr else ZERO
        if b[0] == 'copy':
            src, delta = b[1], b[2]
            return self.read(st, src, off + delta, size, None, ins)
        st.lose('read of ' + b[0])
        return Top(b[0])

    def uview_b(self, st, v, size):
        return self.uview(st, v, 8 * size)

    def compose(self, st, o, a, size, ty, ins):
        """bytes [a, a+size) from several cells"""
        parts = []
        for k in range(size):
            parts.append(self.byte_at(st, o, a + k, ins))
        if any(p is UNDEF for p in parts):
            return UNDEF
        if any(not isinstance(p, Lin) for p in parts):
            st.lose('bytes of a pointer')
            return Top('bytes')
        v = ZERO
        for k, p in enumerate(parts):
            v = v + p * (256 ** k)
        return v

    def byte_at(self, st, o, a, ins):
        for x, (s, v) in o.cells.items():
            if x <= a < x + s:
                return self.extract(st, v, s, a - x)
        r = self.base_read(st, o, C(a), 1, False, ins)
        return r

    def extract(self, st, v, s, j):
        if v is UNDEF:
            return UNDEF
        if v is NULL:
            return ZERO
        if isinstance(v, Lin):
            if s == 1:
                return self.uview(st, v, 8)
            e = st.store.floordiv(v, 256 ** j) if j else st.store.norm(v)
            return st.store.norm(e - st.store.floordiv(e, 256) * 256)
        return Top('byte')

    def scan(self, st, o, ents, off, size, isptr, ins, depth=0):
        for n, en in enumerate(reversed(ents)):
            if en[0] == 'c':
                lo, hi = en[1], en[1] + en[2]
            else:
                lo, hi = en[1], en[2]
            d = st.store.norm(off - lo)
            # wholly inside?
            if en[0] == 'c':
                if en[2] == size and not d.t and d.c == 0:
                    return en[3]
                if not d.t:
                    if d.c >= en[2] or d.c + size <= 0:
                        continue
                    if 0 <= d.c and d.c + size <= en[2]:
                        # part of a wider cell
                        bs = [self.extract(st, en[3], en[2], d.c + j) for j in range(size)]
                        return self.join_bytes(st, bs)
                    if size > 1:
                        return self.bytewise(st, o, ents, off, size, ins)
                if st.store.ge(d - en[2]) or st.store.ge(-d - size):
                    continue
                if en[2] == size and st.store.eq(d):
                    return en[3]
                alts = [[('ge', d - en[2])], [('ge', -d - size)], [('eq', d)]]
                extra = []
                for k in range(1, max(en[2], size)):
                    if k < en[2]:
                        extra.append([('eq', d - k)])
                    if k < size:
                        extra.append([('eq', d + k)])
                alts += [x for x in extra if st.feasible(x) is not None] if len(extra) > 2 else extra
                raise Split(alts)
            else:
                e = st.store.norm(hi - off)
                if st.store.ge(d) and st.store.ge(e - size):
                    return self.region_read(st, o, en, off, size, isptr, ins)
                if st.store.ge(-d - size) or st.store.ge(-e):
                    continue
                if size > 1 and en[3] in ('init', 'copy', 'fill', 'undef'):
                    return self.bytewise(st, o, ents, off, size, ins)
                if size > 1:
                    # aligned pointer regions: element is in, below or above
                    raise Split([[('ge', d), ('ge', e - size)], [('ge', -d - size)], [('ge', -e)]])
                raise Split([[('ge', d), ('ge', e - 1)], [('ge', -d - 1)], [('ge', -e)]])
        return self.base_read(st, o, off, size, isptr, ins)

    def bytewise(self, st, o, ents, off, size, ins):
        bs = [self.scan(st, o, ents, st.store.norm(off + k), 1, False, ins) for k in range(size)]
        return self.join_bytes(st, bs)

    def join_bytes(self, st, bs):
        if any(b is UNDEF for b in bs):
            return UNDEF
        if any(not isinstance(b, Lin) for b in bs):
            st.lose('bytes of a pointer')
            return Top('bytes')
        v = ZERO
        for k, b in enumerate(bs):
            v = v + self.uview(st, b, 8) * (256 ** k)
        return v

    def region_read(self, st, o, en, off, size, isptr, ins):
        kind, data = en[3], en[4]
        if kind == 'init':
            if isptr:
                st.lose('pointer from bytes')
                return Top('bytes')
            return st.byte(data, off, size)
        if kind == 'undef':
            return UNDEF
        if kind == 'fill':
            v = ZERO
            for k in range(size):
                v = v * 256 + data
            return v
        if kind == 'copy':
            src, so = data
            return self.read(st, src, st.store.norm(so + off - en[1]), size, None, ins)
        if kind == 'ptrs':
            spec, mode, nullable = data[:3]
            d = st.store.norm(off - en[1])
            if size != 8 or d.div(8) is None:
                st.lose('unaligned pointer access')
                return Top('unaligned')
            o2 = st.wobj(o.oid)
            if spec is None:
                b = Obj('heap', None, ('elem', o.oid), 'element')
                b.mnull = ()
                p = st.add(b)
            else:
                p = self.typed(st, spec, mode, name='element', mnull=() if nullable else None)
            st.mem[p.oid].attrs['elem_of'] = o.oid
            st.mem[p.oid].attrs['elem_idx'] = st.store.norm(off).div(8) if st.store.norm(off).div(8) is not None else ZERO
            o2.log = list(o2.log) + [('c', off, 8, p)]
            return p
        if kind == 'dead':
            d = Obj('heap', C(1), ('undef',), 'freed element')
            d.freed = 'an earlier round'
            return st.add(d)
        st.lose('region ' + kind)
        return Top(kind)

    # ------------------------------------------------------------ writing
    def storev(self, st, p, v, ty, ins):
        size = ty.size()
        o = self.target(st, p, ins, 'write', size)
        if o.attrs.get('const'):
            self.report(st, 'const-write', ins, 'write to constant data %s' % o.name)
            raise Kill()
        if ty.k == 'int' and isinstance(v, Cond):
            raise Split([[v.atom()], [v.neg().atom()]])
        self.on_write(st, o, p.off, C(size), v, ins)
        self.write(st, p.oid, p.off, size, v)

    def on_write(self, st, o, off, size, v, ins):
        pass

    def to_log(self, o):
        if o.log is None:
            o.log = [('c', C(a), s, v) for a, (s, v) in sorted(o.cells.items())]
            o.cells = {}

    def write(self, st, oid, off, size, v):
        o = st.wobj(oid)
        off = st.store.norm(off)
        if o.log is None and not off.t:
            a = off.c
            if o.base[0] == 'typed':
                # overwriting one of two coupled fields: materialise the partner first
                if a not in o.cells:
                    self.materialize(st, oid, a, size)
                    o = st.wobj(oid)
            for x in [x for x in o.cells if x != a and x < a + size and a < x + o.cells[x][0]]:
                s, w = o.cells.pop(x)
                for j in range(s):
                    if not (a <= x + j < a + size):
                        o.cells[x + j] = (1, self.extract(st, w, s, j))
            c = o.cells.get(a)
            if c is not None and c[0] > size:
                s, w = c
                for j in range(size, s):
                    o.cells[a + j] = (1, self.extract(st, w, s, j))
            o.cells[a] = (size, v)
            return
        self.to_log(o)
        keep = []
        for en in o.log:
            if en[0] == 'c' and en[2] <= size:
                d = st.store.norm(en[1] - off)
                if not d.t and 0 <= d.c and d.c + en[2] <= size:
                    continue
            keep.append(en)
        keep.append(('c', off, size, v))
        o.log = keep

    def write_region(self, st, oid, lo, hi, kind, data):
        """overwrite bytes [lo, hi)"""
        lo, hi = st.store.norm(lo), st.store.norm(hi)
        o = st.wobj(oid)
        whole = (not lo.t and lo.c == 0 and o.size is not None and st.store.eq(o.size - hi))
        if whole and o.base[0] != 'typed':
            o.cells = {}
            o.log = None
            if kind == 'fill':
                o.base = ('zero',) if (not data.t and data.c == 0) else ('fill', data)
                return
            if kind == 'init':
                o.base = ('op', data)
                return
            if kind == 'undef':
                o.base = ('undef',)
                return
            if kind == 'copy':
                o.base = ('copy', data[0], data[1])
                if data[0].base[0] == 'op' and data[0].log is None and not data[0].cells:
                    pass
                return
        self.to_log(o)
        keep = []
        for en in o.log:
            elo = en[1]
            ehi = en[1] + en[2] if en[0] == 'c' else en[2]
            a, b = st.store.norm(elo - lo), st.store.norm(hi - ehi)
            if (not a.t and a.c < 0) or (not b.t and b.c < 0):
                keep.append(en)
                continue
            if st.store.ge(a) and st.store.ge(b):
                continue
            keep.append(en)
        # contiguous pieces of one source grow into one
        if kind == 'copy':
            for i, en in enumerate(keep):
                if en[0] == 'r' and en[3] == 'copy' and en[4][0].oid == data[0].oid and en[4][0].base == data[0].base \
                        and (en[4][0] is data[0] or en[4][0].cells == data[0].cells and en[4][0].log == data[0].log):
                    if st.store.eq(en[2] - lo) and st.store.eq(en[4][1] + (lo - en[1]) - data[1]) and i == len(keep) - 1:
                        lo, data = en[1], en[4]
                        keep.pop(i)
                        break
        keep.append(('r', lo, hi, kind, data))
        o.log = keep

    # ------------------------------------------------------------ block operations
    def memset(self, st, p, v, n, ins):
        n = st.store.norm(n)
        if not n.t and n.c == 0:
            return
        o = self.target(st, p, ins, 'write', n)
        if st.store.ge(-n):
            return
        off = st.store.norm(p.off)
        if isinstance(v, Lin):
            b = self.uview(st, v, 8)
        else:
            b = v
        lo, hi = st.store.range(n)
        whole = (not off.t and off.c == 0 and o.size is not None and st.store.eq(o.size - n))
        if not n.t and not off.t and n.c <= 64 and not (whole and b == ZERO) and o.log is None:
            for k in range(n.c):
                self.write(st, p.oid, C(off.c + k), 1, b)
            return
        if b is UNDEF:
            self.write_region(st, p.oid, off, off + n, 'undef', None)
        else:
            self.write_region(st, p.oid, off, off + n, 'fill', b)

    def memcpy(self, st, d, s, n, ins):
        n = self.uview(st, n, 64)
        n = st.store.norm(n)
        if not n.t and n.c == 0:
            return
        lo, hi = st.store.range(n)
        if lo is None or lo < 1:
            # an empty copy touches nothing (even through NULL)
            if st.store.ge(-n):
                return
            if not st.store.ge(n - 1):
                raise Split([[('ge', n - 1)], [('ge', -n)]])
        if n.t and hi is not None and lo is not None and hi - lo <= 16 and hi <= 64:
            raise Split([[('eq', n - k)] for k in range(max(lo, 0), hi + 1)])
        so = self.target(st, s, ins, 'read', n)
        do = self.target(st, d, ins, 'write', n)
        if do.attrs.get('const'):
            self.report(st, 'const-write', ins, 'write to constant data')
            raise Kill()
        soff, doff = st.store.norm(s.off), st.store.norm(d.off)
        self.on_write(st, do, doff, n, ('copy', so, soff), ins)
        if not n.t and not soff.t and not doff.t and so.log is None and do.log is None and n.c <= 4096:
            if so.base[0] in ('typed',):
                # structure copy
                sp = self.specs.get(so.base[1])
                for f in list(sp.fields.values()):
                    if f.off not in so.cells and soff.c <= f.off < soff.c + n.c:
                        self.materialize(st, so.oid, f.off, f.size)
                so = st.mem[so.oid]
            if n.c <= 64 or so.base[0] in ('undef', 'zero', 'typed', 'cdata') or so.cells:
                # cell by cell
                cells = []
                k = 0
                a = soff.c
                while k < n.c:
                    c = so.cells.get(a + k)
                    if c is not None and k + c[0] <= n.c:
                        cells.append((k, c[0], c[1]))
                        k += c[0]
                        continue
                    v = self.byte_at(st, so, a + k, ins)
                    cells.append((k, 1, v))
                    k += 1
                whole = doff.c == 0 and do.size is not None and not do.size.t and do.size.c == n.c
                if whole:
                    w = st.wobj(do.oid)
                    w.cells = {}
                    w.base = ('undef',)
                    if do.base[0] == 'typed':
                        w.base = ('undef',)
                    run = {}
                    for k, s_, v in cells:
                        if v is not UNDEF:
                            w.cells[k] = (s_, v)
                    if so.base[0] == 'zero' and not so.cells:
                        w.cells = {}
                        w.base = ('zero',)
                    return
                for k, s_, v in cells:
                    self.write(st, d.oid, C(doff.c + k), s_, v)
                return
        if st.store.norm(soff).t or n.t or so.log is not None or doff.t:
            pass
        self.write_region(st, d.oid, doff, st.store.norm(doff + n), 'copy', (so, soff))

    def content_init(self, st, o, lo, hi, ins):
        """is every byte of [lo, hi) initialised?  True / False(definitely not) / None"""
        lo, hi = st.store.norm(lo), st.store.norm(hi)
        if st.store.ge(lo - hi):
            return True
        if o.log is not None:
            # walk newest-first for a covering entry chain
            cur = lo
            for _ in range(len(o.log) + 1):
                if st.store.ge(cur - hi):
                    return True
                adv = False
                for en in reversed(o.log):
                    elo = en[1]
                    ehi = en[1] + en[2] if en[0] == 'c' else en[2]
                    if st.store.ge(cur - elo) and st.store.ge(ehi - cur - 1):
                        if en[0] == 'c' and en[3] is UNDEF:
                            return False
                        if en[0] == 'r' and en[3] == 'undef':
                            return False
                        if en[0] == 'r' and en[3] == 'copy':
                            src, so = en[4]
                            r = self.content_init(st, src, so + (cur - elo), so + (ehi - elo), ins)
                            if not r:
                                return r
                        cur = st.store.norm(ehi)
                        adv = True
                        break
                if not adv:
                    break
            if st.store.ge(cur - hi):
                return True
            return o.base[0] not in ('undef',) or None
        if o.base[0] == 'undef':
            if lo.t or hi.t:
                if not o.cells:
                    return False
                # constant cells from lo on
                k = lo.c if not lo.t else None
                if k is None:
                    return None
                while True:
                    c = o.cells.get(k)
                    if c is None or c[1] is UNDEF:
                        break
                    k += c[0]
                if st.store.ge(C(k) - hi):
                    return True
                return False
            k = lo.c
            while k < hi.c:
                hit = False
                for x, (s, v) in o.cells.items():
                    if x <= k < x + s:
                        if v is UNDEF:
                            return False
                        k = x + s
                        hit = True
                        break
                if not hit:
                    return False
            return True
        if o.base[0] == 'copy':
            return self.content_init(st, o.base[1], lo + o.base[2], hi + o.base[2], ins)
        return True
