"""Entry points that take complete objects: write, free."""
from .core import *
from .spec import *
from .engine import Incomplete
from .contracts import NULLABLE_KINDS, DEFAULT, kindof
from .roots import RootEngine, fresh_state, decide, Cursor, Mismatch, fieldval, isres, OTHER, cond, MAXIN

NUMK = {'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64'}


def mkoutput(e, st):
    """an output buffer with some free space and an unknown write position"""
    L = st.sym('L', 0, MAXIN)
    c = st.sym('c0', 0, MAXIN)
    st.store.add_ge(L - c)
    d = Obj('heap', L, ('op', new_cid()), 'bufdata')
    dp = st.add(d)
    sp = e.specs.get('sml_buffer')
    b = Obj('heap', C(sp.size), ('zero',), 'sml_buffer')
    b.hint = 'sml_buffer'
    b.attrs['borrowed'] = 1
    bp = st.add(b)
    for n, v in (('buffer', dp), ('buffer_len', L), ('cursor', c)):
        f = sp.byname[n]
        b.cells[f.off] = (f.size, v)
    return bp, dp, L, c


class WCursor(Cursor):
    """walks over what was written"""

    def hdr(self, count, what):
        it = self.peek()
        if it is None or it[0] != 'wtl':
            raise Mismatch('layout', '%s starts with %s instead of a list header' % (what, self.desc(it)))
        st = self.st
        self.at(it[3], what)
        if not st.store.eq(it[1] - TYPE_LIST):
            raise Mismatch('layout', '%s is written with a header of type %r instead of a list' % (what, st.store.norm(it[1])))
        if count is not None and not st.store.eq(it[2] - count):
            raise Mismatch('layout', '%s is announced with %r elements instead of %r' % (what, st.store.norm(it[2]), count))
        self.i += 1
        self.pos = it[4]
        return it[2]

    def wel(self, kinds, what):
        it = self.peek()
        if it is None or it[0] != 'wel':
            raise Mismatch('layout', '%s: %s is written instead of an element of type %s' % (what, self.desc(it), '/'.join(kinds)))
        if it[1] not in kinds:
            raise Mismatch('layout', '%s is written as %s instead of %s' % (what, it[1], '/'.join(kinds)))
        self.at(it[3], what)
        self.i += 1
        self.pos = it[4]
        return it[2]

    def skip(self, what):
        it = self.peek()
        if it is None or it[0] != 'wskip':
            raise Mismatch('layout', '%s is absent, but %s is written instead of the skip marker' % (what, self.desc(it)))
        self.at(it[1], what)
        self.i += 1
        self.pos = it[2]


class WriteEngine(RootEngine):
    def __init__(self, *a):
        RootEngine.__init__(self, *a)
        self.tags = set()

    def evspan(self, x):
        return {'wel': (3, 4), 'wtl': (3, 4), 'wnum': (4, 5), 'wskip': (1, 2)}.get(x[0])

    def group_events(self, st, ev, rep):
        ch = [x for x in ev if x[0] in ('wel', 'wtl', 'wnum', 'wskip')]
        if not ch:
            return RootEngine.group_events(self, st, ev, rep)
        k = rep[3] if rep else ZERO
        pos = None
        if rep and len(rep) > 5 and self.evspan(rep[5]):
            pos = rep[5][self.evspan(rep[5])[1]]
        for x in ch:
            a, b = self.evspan(x)
            if pos is not None and not st.store.eq(x[a] - pos):
                self.prove(st, 'C11', False, 'an element written in a loop does not follow directly on the one before it')
            pos = x[b]
        sig = tuple(x[:2] if x[0] == 'wel' else x[0] for x in ch)
        lay = LAYOUT['sml_list_entry']
        if ch[0][0] == 'wtl' and sig[1:] == tuple(('wel', kk) for _, kk in lay):
            self.list_entry(st, ch, k)
        elif len(ch) == 1 and ch[0][0] == 'wel':
            p = ch[0][2]
            ok = False
            if isinstance(p, Ptr) and p.oid in st.mem:
                o = st.mem[p.oid]
                i = o.attrs.get('elem_idx')
                if i is not None:
                    ok = st.store.eq(i - k)
                else:
                    ok = self.node_field(st, p, k)
            elif p is NULL or isinstance(p, Ptr) and p.oid in st.nulled:
                ok = True if p is not NULL else self.null_elem(st, k)
            self.prove(st, 'C11', ok, 'round %s of a loop does not write the element of that number' % ('n' if k.t else st.store.norm(k)))
            if len(ch) == 1:
                sig = sig
        return sig, (ch[0], ch[-1])

    def rep_join(self, st, old, new):
        return (old[0], new[1])

    def null_elem(self, st, k):
        """an absent element: nothing identifies it but its place"""
        for o in st.mem.values():
            if o.freed or o.kind != 'heap' or o.log is None:
                continue
            for en in o.log:
                if en[0] == 'c' and en[3] is NULL and st.store.eq(en[1] - k * 8):
                    return True
                if en[0] == 'c' and isinstance(en[3], Ptr) and en[3].oid in st.nulled and st.store.eq(en[1] - k * 8):
                    return True
        return False

    def node_field(self, st, p, k):
        """p belongs to the k-th node of a list"""
        for o in st.mem.values():
            i = o.attrs.get('node_idx')
            if i is None or o.freed or o.kind != 'heap' or not st.store.eq(i - k):
                continue
            for a, (s, v) in o.cells.items():
                if isinstance(v, Ptr) and v.oid == p.oid:
                    return True
        return False

    def list_entry(self, st, ch, k):
        lay = LAYOUT['sml_list_entry']
        sp = self.specs.get('sml_list_entry')
        h = ch[0]
        ok = st.store.eq(h[1] - TYPE_LIST) and st.store.eq(h[2] - len(lay))
        self.prove(st, 'C11', ok, 'a list entry is not written as a list of %d elements' % len(lay))
        node = None
        for o in st.mem.values():
            i = o.attrs.get('node_idx')
            if i is not None and o.kind == 'heap' and not o.freed and st.store.eq(i - k):
                node = o
        if node is None:
            self.prove(st, 'C11', False, 'round %s of the loop does not write the list entry of that number' % ('n' if k.t else st.store.norm(k)))
            return
        for (name, kind), x in zip(lay, ch[1:]):
            v = fieldval(self, st, node, sp.byname[name])
            self.prove(st, 'C11', v is not DEFAULT and isres(self, st, v, x[2]), 'sml_list_entry.%s is not what is written in its place' % name)


class WriteRoot:
    def __init__(self, prog, specs, fn, kind, spec, opts=None):
        self.prog, self.specs, self.fn, self.kind, self.spec = prog, specs, fn, kind, spec
        o = {'rootfn': fn, 'time': 100, 'mode': 'write'}
        o.update(opts or {})
        self.e = WriteEngine(prog, specs, fn.name, o)
        self.cases = {'present': 0, 'absent': 0}
        self.nullable = spec in NULLABLE_WRITE or spec.startswith('num')

    def obj(self, st):
        a = {}
        if self.spec in self.e.LISTS:
            a['node_idx'] = ZERO
        return self.e.typed(st, self.spec, 'write', mnull=() if self.nullable else None, **a)

    def run(self):
        e = self.e
        st = fresh_state()
        bp, dp, L, c0 = mkoutput(e, st)
        p = self.obj(st)
        st.ghosts['$pin'] = (L, c0)
        st.ghosts['$obj'] = p
        e.opts['entry'] = [p, bp]
        outs = e.exec_fn(self.fn, [p, bp], st)
        for s, v, r in decide(e, outs, lambda s, v: self.exit(s, p, bp, L, c0)):
            e.exits += 1
        return self

    def exit(self, st, p, bp, L, c0):
        e = self.e
        b = st.mem[bp.oid]
        sp = self.specs.get('sml_buffer')
        c1 = e._fld(st, b, sp.byname['cursor'])
        if not isinstance(c1, Lin):
            e.prove(st, 'C12', False, 'the write position is not a number on return')
            raise Kill()
        c1 = e.uview(st, c1, 64)
        own = self.buffer_ok(st, b, c1)
        if p.oid in st.mem and st.mem[p.oid].mnull is not None and p.oid not in st.nulled:
            raise Split([[('nonnull', p.oid)], [('null', p.oid)]])
        absent = p.oid in st.nulled
        keep = set()
        if not absent:
            o = st.mem.get(p.oid)
            r = e.conform(st, p.oid, self.spec, 'write') if o is not None else None
            e.prove(st, 'C02', r is not None, 'the object is not intact after writing it (%s)' % getattr(e, 'why', ''))
            if r is None:
                return
            keep = r
        self.noleak(st, own | keep)
        self.cases['absent' if absent else 'present'] += 1
        cur = WCursor(e, st, st.trace, c0, b)
        try:
            if absent:
                if cur.peek() is not None and cur.peek()[0] == 'wel':
                    x = cur.wel((self.kind,), 'the absent element')
                    if not (x is NULL or isinstance(x, Ptr) and x.oid in st.nulled):
                        raise Mismatch('layout', 'something else is written for an absent element')
                else:
                    cur.skip('the ' + self.kind)
                cur.end(c1, 'the ' + self.kind)
            else:
                self.layout(st, st.mem[p.oid], cur, c1)
            e.prove(st, 'C11', True, '')
        except Mismatch as m:
            for c in m.cat.split('+'):
                e.prove(st, c if c.startswith('C') else 'C11', False, m.why)

    def layout(self, st, o, cur, c1):
        it = cur.peek()
        if it is not None and it[0] == 'wel' and isinstance(it[2], Ptr) and it[2].oid == o.oid \
                and (it[1] == self.kind or KIND_SPEC.get(it[1], it[1]) == self.spec and not self.spec.startswith('num')):
            # the work was delegated as a whole
            cur.wel((it[1],), 'the object')
            cur.end(c1, 'the ' + self.kind)
            return
        f = getattr(self, 'w_' + self.kind, None)
        if f is not None:
            r = f(st, o, cur)
        elif self.spec in LAYOUT:
            r = self.w_struct(st, o, cur)
        else:
            self.e.note('no layout rule for ' + self.kind)
            return
        if r != 'done':
            cur.end(c1, 'the ' + self.kind)

    def buffer_ok(self, st, b, c1):
        e = self.e
        sp = self.specs.get('sml_buffer')
        d = e.nz(st, e._fld(st, b, sp.byname['buffer']))
        L = e._fld(st, b, sp.byname['buffer_len'])
        ok = isinstance(d, Ptr) and d.oid in st.mem and not st.mem[d.oid].freed and st.store.eq(d.off)
        e.prove(st, 'C12', ok, 'the output buffer refers to released or foreign memory on return')
        if not ok or not isinstance(L, Lin):
            return set()
        dd = st.mem[d.oid]
        if dd.size is not None:
            e.prove(st, 'C12', st.store.ge(dd.size - L), 'the output buffer claims more bytes than it has', dd.size - L)
        e.prove(st, 'C12', st.store.ge(L - c1), 'the write position lies beyond the end of the output buffer', L - c1)
        return {d.oid}

    def noleak(self, st, own):
        e = self.e
        for oid in list(st.mem):
            o = st.mem[oid]
            if oid in own or o.freed or o.kind not in ('heap', 'lseg') or o.attrs.get('borrowed') or oid in st.nulled:
                continue
            if o.mnull is not None and st.feasible([('nonnull', oid)]) is None:
                continue
            e.prove(st, 'C02', False, 'leak: the %s allocated at %s is neither released nor part of an object'
                    % (o.hint or o.name, o.site or 'a callee'))
        e.prove(st, 'C02', True, '')

    # ---- layouts
    def one(self, st, o, cur, name, kind):
        what = '%s.%s' % (self.spec, name)
        f = self.specs.get(self.spec).byname[name]
        if kind == 'objlist':
            return self.objlist(st, o, cur, name, what)
        v = fieldval(self.e, st, o, f)
        it = cur.peek()
        if v is NULL and it is not None and it[0] == 'wskip' and (self.e.wnull(kind, KIND_SPEC.get(kind, 'sml_sequence'))):
            cur.skip(what)
            return
        kinds = (kind,)
        if kind.startswith('seq:'):
            kinds = (kind, 'seq:None')
        if kind == 'bool':
            kinds = ('bool',)
        p = cur.wel(kinds, what)
        if v is DEFAULT or not isres(self.e, st, v, p):
            raise Mismatch('layout', 'something else than %s is written in its place' % what)

    def w_struct(self, st, o, cur):
        lay = LAYOUT[self.spec]
        cur.hdr(WIRE_COUNT.get(self.spec, len(lay)), self.spec)
        for name, kind in lay:
            self.one(st, o, cur, name, kind)

    def w_bool(self, st, o, cur):
        # one type-length byte 0x42 and the value: decided by the output bytes
        self.e.note('boolean')
        return 'done'

    def reps(self, st, cur, sigs, what):
        """number of elements written in order by a loop"""
        cnt = ZERO
        while True:
            it = cur.peek()
            if it is None:
                break
            if it[0] == 'rep':
                a = self.e.evspan(it[4])
                if a is None or not st.store.eq(it[4][a[0]] - cur.pos):
                    break
                if not it[2] <= frozenset(sigs):
                    raise Mismatch('layout', '%s: something else than its elements is written' % what)
                cur.i += 1
                cur.pos = it[5][self.e.evspan(it[5])[1]]
                cnt = cnt + it[3]
                continue
            a = self.e.evspan(it)
            if a is None or not st.store.eq(it[a[0]] - cur.pos):
                break
            # a round outside of the loop
            for sig in sorted(sigs, key=lambda x: -len(x)):
                g = [x for x in cur.items[cur.i:] if x[0] not in OTHER][:len(sig)]
                if tuple(x[:2] if x[0] == 'wel' else x[0] for x in g) != tuple(sig):
                    continue
                self.e.group_events(st, tuple(g), ('rep', None, frozenset(), cnt))
                for x in g:
                    cur.peek()
                    a = self.e.evspan(x)
                    cur.at(x[a[0]], what)
                    cur.pos = x[a[1]]
                    cur.i += 1
                cnt = cnt + 1
                break
            else:
                break
        return cnt

    def objlist(self, st, o, cur, name, what):
        v = fieldval(self.e, st, o, self.specs.get(self.spec).byname[name])
        it = cur.peek()
        if v is NULL:
            if it is not None and it[0] == 'wskip':
                cur.skip(what)
            else:
                cur.hdr(0, what)
            return
        n = cur.hdr(None, what)
        got = self.reps(st, cur, ((('wel', 'octet'),),), what)
        if not st.store.eq(st.store.norm(n - got)):
            raise Mismatch('layout', '%s is announced with %r elements but %r are written' % (what, st.store.norm(n), st.store.norm(got)))
        ln = self.chainlen(st, v)
        if ln is None or not st.store.eq(ln - got):
            raise Mismatch('layout', '%s: %r of %r entries are written' % (what, st.store.norm(got), ln))

    def chainlen(self, st, v):
        n = ZERO
        for _ in range(30):
            v = self.e.nz(st, v) if v is not DEFAULT else v
            if v is NULL:
                return st.store.norm(n)
            if not isinstance(v, Ptr) or v.oid not in st.mem:
                return None
            o = st.mem[v.oid]
            if o.mnull is not None:
                raise Split([[('nonnull', v.oid)], [('null', v.oid)]])
            n = n + (o.size if o.kind == 'lseg' else ONE)
            spec = o.base[1] if o.base[0] == 'typed' else o.hint
            noff = self.specs.off(spec, self.e.LISTS.get(spec, 'next'))
            c = o.cells.get(noff)
            if c is None:
                return None
            v = c[1]
        return None

    def w_list(self, st, o, cur):
        n = cur.hdr(None, 'the list')
        sig = ('wtl',) + tuple(('wel', k) for _, k in LAYOUT['sml_list_entry'])
        got = self.reps(st, cur, (sig,), 'the list')
        if not st.store.eq(st.store.norm(n - got)):
            raise Mismatch('layout', 'a list is announced with %r entries but %r are written' % (st.store.norm(n), st.store.norm(got)))
        ln = self.chainlen(st, Ptr(o.oid))
        if ln is None or not st.store.eq(st.store.norm(ln - got)):
            raise Mismatch('layout', '%r of the %r entries of a list are written' % (st.store.norm(got), ln))

    def w_time(self, st, o, cur):
        cur.hdr(2, 'sml_time')
        self.one(st, o, cur, 'tag', 'u8')
        self.one(st, o, cur, 'data', 'u32')

    def number_or(self, st, o, cur, allow):
        """the data of a value or status word"""
        sp = self.specs.get(self.spec)
        fs = sorted(sp.fields.values(), key=lambda f: f.off)
        t = fieldval(self.e, st, o, fs[0])
        d = fieldval(self.e, st, o, fs[1])
        t = ZERO if t is NULL else t
        if not isinstance(t, Lin):
            raise Mismatch('C09+layout', 'the type of the %s is not looked at' % self.kind)
        t = st.store.norm(self.e.uview(st, t, 8))
        it = cur.peek()
        if it is None:
            raise Mismatch('layout', 'nothing is written for a %s of type %r' % (self.kind, t))
        if it[0] == 'wskip' and d is NULL:
            cur.skip('the ' + self.kind)
            return
        if it[0] == 'wnum':
            cur.at(it[4], 'the ' + self.kind)
            cur.i += 1
            cur.pos = it[5]
            ty, p, sz = it[1], it[2], it[3]
        elif it[0] == 'wel':
            cur.at(it[3], 'the ' + self.kind)
            cur.i += 1
            cur.pos = it[4]
            p = it[2]
            k = it[1]
            if k in ('octet', 'bool') and 'octet' in allow:
                if not st.store.eq(t - (TYPE_OCTET if k == 'octet' else TYPE_BOOL)):
                    raise Mismatch('C09+layout', 'a value of type %r is written as %s' % (t, k))
                ty = sz = None
            elif k in NUMK:
                ty, sz = C(TYPE_INT if k[0] == 'i' else TYPE_UINT), C(int(k[1:]) // 8)
            else:
                raise Mismatch('C09+layout', 'a %s is written as %s' % (self.kind, k))
        else:
            raise Mismatch('layout', 'a %s is written as %s' % (self.kind, cur.desc(it)))
        if not isres(self.e, st, d, p) or d is DEFAULT:
            raise Mismatch('layout', 'something else than the data of the %s is written' % self.kind)
        if ty is not None:
            if not st.store.eq(ty + sz - t):
                raise Mismatch('C09+layout', 'a %s of type %r is written with type %r and %r bytes' % (self.kind, t, st.store.norm(ty), st.store.norm(sz)))
            ok = st.store.eq(ty - TYPE_UINT) or st.store.eq(ty - TYPE_INT)
            if not ok:
                z = st.store.norm(ty)
                ok = st.store.ge(z - TYPE_INT) and st.store.ge(C(TYPE_UINT) - z) and (z - TYPE_INT).div(16) is not None
            if not ok:
                raise Mismatch('C09+layout', 'a %s is written with the type %r' % (self.kind, st.store.norm(ty)))
            self.e.prove(st, 'C09', True, '')

    def w_value(self, st, o, cur):
        self.number_or(st, o, cur, ('octet', 'bool'))

    def w_status(self, st, o, cur):
        self.number_or(st, o, cur, ())

    def tagged(self, st, o, cur, kind, n, table):
        cur.hdr(2, self.spec)
        sp = self.specs.get(self.spec)
        fs = sorted(sp.fields.values(), key=lambda f: f.off)
        v = fieldval(self.e, st, o, fs[0])
        p = cur.wel((kind,), self.spec + '.tag')
        if v is DEFAULT or not isres(self.e, st, v, p):
            raise Mismatch('layout', 'something else than the tag of %s is written in its place' % self.spec)
        t = self.e.tagof(st, st.mem[p.oid], n) if isinstance(p, Ptr) and p.oid in st.mem else None
        if t is None:
            raise Mismatch('C09+layout', 'the tag of %s is not known' % self.spec)
        ks = [k for k in table if not st.store.neq(t - k)]
        d = fieldval(self.e, st, o, fs[1])
        it = cur.peek()
        if not ks:
            if it is not None and it[0] == 'wel' and it[1] in KIND_SPEC:
                raise Mismatch('C09+layout', 'data of an unknown tag is written as ' + it[1])
            return 'done'         # an unknown tag has no layout
        if len({table[k] for k in ks}) > 1:
            if st.store.eq(t - ks[0]):
                ks = ks[:1]
            else:
                raise Mismatch('C09+layout', 'the tags %s are not told apart' % ', '.join('%#x' % k for k in ks))
        rest = st.copy()
        if all(rest.store.assume_ne(t - k) for k in ks) and rest.check() and not st.store.eq(t - ks[0]):
            raise Mismatch('C09+layout', 'data of an unknown tag is written as %s' % table[ks[0]])
        s = table[ks[0]]
        if d is NULL and it is not None and it[0] == 'wskip':
            cur.skip('absent data')
            self.e.tags.update(ks)
            return
        if it is None or it[0] != 'wel':
            raise Mismatch('C09+layout', 'no data is written for tag %#x' % ks[0])
        if KIND_SPEC.get(it[1], it[1]) != s:
            raise Mismatch('C09+layout', 'the data of tag %#x is written as %s instead of %s' % (ks[0], it[1], s))
        p = cur.wel((it[1],), 'data of ' + self.spec)
        if d is DEFAULT or not isres(self.e, st, d, p):
            raise Mismatch('layout', 'something else than the data of %s is written in its place' % self.spec)
        self.e.tags.update(ks)

    def w_ppv(self, st, o, cur):
        return self.tagged(st, o, cur, 'u8', 1, PPV_TAGS)

    def w_body(self, st, o, cur):
        return self.tagged(st, o, cur, 'u32', 4, MSG_TAGS)

    def array(self, st, o, cur, arr, ln, kind, what, opt):
        sp = self.specs.get(self.spec)
        n = fieldval(self.e, st, o, sp.byname[ln])
        n = ZERO if n is NULL else n
        it = cur.peek()
        if not isinstance(n, Lin):
            raise Mismatch('layout', '%s: the number of elements is not looked at' % what)
        n = self.e.sview(st, n, 32)
        if opt and it is not None and it[0] == 'wskip':
            if not st.store.ge(-n):
                raise Mismatch('layout', '%s is skipped although it has elements' % what)
            cur.skip(what)
            return
        cur.hdr(n, what)
        got = self.reps(st, cur, ((('wel', kind),),), what)
        if not st.store.eq(st.store.norm(n - got)) and not (st.store.ge(-n) and st.store.eq(got)):
            raise Mismatch('layout', '%s: %r of %r elements are written' % (what, st.store.norm(got), st.store.norm(n)))

    def w_tree(self, st, o, cur):
        cur.hdr(3, 's_tree')
        self.one(st, o, cur, 'parameter_name', 'octet')
        self.one(st, o, cur, 'parameter_value', 'ppv')
        self.array(st, o, cur, 'child_list', 'child_list_len', 'tree', 'the child list', True)

    def w_treepath(self, st, o, cur):
        self.array(st, o, cur, 'path_entries', 'path_entries_len', 'octet', 'the tree path', False)

    def w_octet(self, st, o, cur):
        """header of simple type with the length, then the bytes"""
        it = cur.peek()
        sp = self.specs.get(self.spec)
        s, n = fieldval(self.e, st, o, sp.byname['str']), fieldval(self.e, st, o, sp.byname['len'])
        if it is not None and it[0] == 'wskip' and s is NULL:
            cur.skip('an octet string without content')
            return
        if it is None or it[0] != 'wtl' or not st.store.eq(it[1] - TYPE_OCTET):
            raise Mismatch('layout', 'an octet string starts with %s' % cur.desc(it))
        n = ZERO if n is NULL else n
        if not isinstance(n, Lin) or not st.store.eq(it[2] - n):
            raise Mismatch('layout', 'an octet string of %r bytes is announced with %r' % (n, it[2]))
        cur.at(it[3], 'the octet string')
        cur.i += 1
        cur.pos = it[4] + n
        # the content
        b = st.mem[cur.inp.oid]
        d = st.mem[self.e._fld(st, b, self.specs.get('sml_buffer').byname['buffer']).oid]
        if not st.store.eq(n):
            if not st.store.ge(n - 1):
                raise Split([[('ge', n - 1)], [('eq', n)], [('ge', -n - 1)]])
            if st.store.ge(-n - 1):
                return
            so = st.mem.get(s.oid) if isinstance(s, Ptr) else None
            j = st.sym('j', 0, None)
            st.store.add_ge(n - 1 - j)
            mk = self.e.read(st, d, st.store.norm(it[4] + j), 1, None, None)
            want = self.e.read(st, so, st.store.norm(j), 1, None, None) if so is not None else None
            if not isinstance(mk, Lin) or not isinstance(want, Lin) or not st.store.eq(mk - want):
                raise Mismatch('layout', 'the bytes of an octet string are not written as they are')

    def w_message(self, st, o, cur):
        lay = LAYOUT['sml_message']
        c0 = cur.pos
        crcs = []
        cur.hdr(6, 'sml_message')
        sp = self.specs.get('sml_message')
        body = None
        for name, kind in lay:
            self.crcs(cur, crcs)
            if name == 'crc':
                body = cur.pos
            self.one(st, o, cur, name, kind)
        self.crcs(cur, crcs)
        v = fieldval(self.e, st, o, sp.byname['crc'])
        ok = False
        if isinstance(v, Ptr) and v.oid in st.mem:
            x = self.e.tagof(st, st.mem[v.oid], 2)
            for c in crcs:
                if c[1] == 'x25' and st.store.eq(c[2].off - c0) and st.store.eq(c[3] - (body - c0)) and x is not None and st.store.eq(x - c[4]):
                    ok = True
        self.e.prove(st, 'C11', ok, 'the checksum written with a message is not the CRC-16/X.25 of the bytes before it')
        # end of message
        b = st.mem[cur.inp.oid]
        d = st.mem[self.e._fld(st, b, self.specs.get('sml_buffer').byname['buffer']).oid]
        z = self.e.read(st, d, st.store.norm(cur.pos), 1, None, None)
        if not isinstance(z, Lin) or not st.store.eq(self.e.uview(st, z, 8)):
            raise Mismatch('layout', 'a message does not end with a zero byte')
        cur.pos = cur.pos + 1

    def crcs(self, cur, out):
        while True:
            it = cur.peek()
            if it is None or it[0] != 'crc':
                return
            out.append(it)
            cur.i += 1
