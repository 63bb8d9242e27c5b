"""Entry points other than parse and write functions."""
from .core import *
from .spec import *
from .engine import Engine, Incomplete
from .contracts import NULLABLE_KINDS
from .memory import MAXN
from .roots import RootEngine, fresh_state, decide, cond, fieldval, MAXIN
import time

PAIRS = {'sml_list_entry': 'next', 'sml_obj_req_entry_list_entry': 'next'}


class Root:
    mode = 'parsed'
    cat = None

    def __init__(self, prog, specs, fn, opts=None, time=100, **more):
        self.prog, self.specs, self.fn = prog, specs, fn
        o = {'rootfn': fn, 'time': time, 'mode': self.mode}
        o.update(more)
        o.update(opts or {})
        self.e = self.engine()(prog, specs, fn.name, o)
        self.cases = {}

    def engine(self):
        return RootEngine

    def case(self, k):
        self.cases[k] = self.cases.get(k, 0) + 1

    def outs(self, st, args, fn):
        self.e.opts['entry'] = args
        for s, v, r in decide(self.e, self.e.exec_fn(self.fn, args, st), fn):
            self.e.exits += 1

    def alive(self, st, own=()):
        """heap blocks that are neither released nor in own"""
        for oid in list(st.mem):
            o = st.mem[oid]
            if oid in own or o.freed or o.kind not in ('heap', 'lseg') or o.attrs.get('borrowed') or oid in st.nulled:
                continue
            if o.base[0] == 'var':
                continue          # data of a tag no type belongs to
            if o.mnull is not None:
                if st.feasible([('nonnull', oid)]) is None:
                    continue
                if st.feasible([('null', oid)]) is not None:
                    raise Split([[('nonnull', oid)], [('null', oid)]])
            yield o

    def noleak(self, st, own=(), what='released', data=()):
        e = self.e
        for o in self.alive(st, own):
            m = 'leak: the %s allocated at %s is not %s' % (o.hint or o.name, o.site or 'the object given', what)
            e.prove(st, 'C02', False, m)
            if o.oid in data:
                e.prove(st, 'C09', False, m)
        e.prove(st, 'C02', True, '')


# ---------------------------------------------------------------- release
TAGGED = ('sml_value', 'sml_proc_par_value', 'sml_message_body')


class FreeRoot(Root):
    """a free function releases the whole object, whatever is present in it, and accepts NULL"""

    def __init__(self, prog, specs, fn, spec, opts=None):
        self.spec = spec
        Root.__init__(self, prog, specs, fn, opts)

    def run(self):
        e = self.e
        e.tags = getattr(e, 'tags', set())
        st = fresh_state()
        self.outs(st, [NULL], lambda s, v: self.exit(s, v, None))
        for mode in ('parsed', 'write', 'free'):
            st = fresh_state()
            at = {}
            if self.spec in PAIRS:
                at['node_idx'] = ZERO
            if self.spec == 'sml_sequence':
                at['elem'] = 'ABS'
            e.opts['mode'] = mode
            if self.spec.startswith('num'):
                sz = st.sym('numsize', 1, 8)
                o = Obj('heap', sz, ('op', new_cid()), 'number')
                o.hint = 'number'
                p = st.add(o)
            else:
                p = e.typed(st, self.spec, mode, name=self.spec, **at)
            st.ghosts['$root'] = p
            self.mode = mode
            self.outs(st, [p], lambda s, v: self.exit(s, v, p))
        return self

    def exit(self, st, v, p):
        e = self.e
        if p is None:
            self.case('null')
            e.prove(st, 'C02', True, '')
            return
        self.case(self.mode)
        for oid in list(st.mem):
            o = st.mem[oid]
            if o.base[0] == 'var' and oid not in st.nulled and not o.freed:
                # data nobody has looked at: exists only for the tags there are
                t = st.store.norm(o.base[1])
                ks = [k for k in e.var_specs(o.base[2]) if not st.store.neq(t - k)]
                if not ks:
                    continue
                if e.resolve_var(st, oid) is None and t.t:
                    rest = [[('eq', t - k)] for k in ks]
                    rest.append([('ne', t - k) for k in ks])
                    raise Split(rest)
            if o.freed and o.base[0] == 'typed' and o.base[1] in ('sml_message_body', 'sml_proc_par_value'):
                self.tag(st, o)
        self.noleak(st, data=self.data(st, p))

    def data(self, st, p):
        """what a tagged object holds as its data"""
        if self.spec not in TAGGED:
            return ()
        f = min(self.specs.get(self.spec).fields.values(), key=lambda f: f.off)
        c = st.mem[p.oid].cells.get(f.off) if p.oid in st.mem else None
        out = {p.oid}
        if c is not None and isinstance(c[1], Ptr):
            out.add(c[1].oid)
        return [x for x in st.mem if x not in out]

    def tag(self, st, o):
        e = self.e
        sp = self.specs.get(o.base[1])
        f = min(sp.fields.values(), key=lambda f: f.off)
        c = o.cells.get(f.off)
        if c is None or not isinstance(c[1], Ptr) or c[1].oid not in st.mem:
            return
        to = st.mem[c[1].oid]
        t = e.tagof(st, to, to.size.c) if to.size is not None and not to.size.t else None
        if t is not None and self.spec == o.base[1]:
            for k in e.var_specs(o.base[1]):
                if st.store.eq(t - k):
                    e.tags.add(k)


# ---------------------------------------------------------------- construction
INIT_VALUE = {('sml_value', 'type'): 0, ('sml_status', 'type'): 0x60}


def caller_bytes(e, st, n, name='input'):
    """n bytes (at least one) that belong to the caller"""
    d = Obj('heap', n, ('op', new_cid()), name)
    d.attrs['borrowed'] = d.attrs['input'] = 1
    return st.add(d)


class InitRoot(Root):
    """init functions: every field initialised, empty or exactly as given"""
    cat = 'C29'

    def __init__(self, prog, specs, fn, it, opts=None):
        self.it = it
        Root.__init__(self, prog, specs, fn, opts)

    def run(self):
        e = self.e
        P = self.it.params
        nm = self.fn.name
        if not P:
            st = fresh_state()
            self.outs(st, [], self.empty)
        elif P == [('int', 64)]:
            st = fresh_state()
            n = st.sym('length', 1, MAXIN)
            self.outs(st, [n], lambda s, v: self.buffer(s, v, n))
        elif [p[0] for p in P] == ['int'] and P[0][1] == 8:
            st = fresh_state()
            n = st.sym('b', 0, 255)
            self.outs(st, [n], lambda s, v: self.number(s, v, n, 1))
        elif [p[0] for p in P] == ['int', 'int', 'int']:
            for k in (1, 2, 4, 8):
                st = fresh_state()
                n = st.sym('number', 0, (1 << 64) - 1)
                t = st.sym('type', 0, 255)
                self.outs(st, [n, t, C(k)], lambda s, v, n=n, k=k: self.number(s, v, n, k))
        elif P[0] == ('fnptr',) and len(P) == 1:
            st = fresh_state()
            f = Fn(role=('free', 'ABS'))
            self.outs(st, [f], lambda s, v: self.seq(s, v, f))
        elif [p[0] for p in P] == ['int', 'ptr']:
            st = fresh_state()
            t = st.sym('tag', 0, (1 << 32) - 1)
            st2 = st.copy()
            d = Obj('heap', C(64), ('op', new_cid()), 'data')
            d.attrs['borrowed'] = 1
            dp = st.add(d)
            self.outs(st, [t, dp], lambda s, v: self.body(s, v, t, dp))
            self.outs(st2, [t, NULL], lambda s, v: self.body(s, v, t, NULL))
        elif [p[0] for p in P] == ['ptr', 'int']:
            for empty in (True, False):
                st = fresh_state()
                n = st.sym('length', *((-(1 << 31), 0) if empty else (1, MAXIN)))
                p = NULL if empty else caller_bytes(e, st, n)
                self.outs(st, [p, n], lambda s, v, p=p, n=n, empty=empty: self.octets(s, v, p, n, empty))
        else:
            raise Incomplete('init function with parameters %s' % P)
        return self

    def block(self, st, v, size):
        """the new object itself"""
        e = self.e
        v = e.nz(st, v)
        self.case('new')
        if isinstance(v, Ptr) and v.oid in st.mem and st.mem[v.oid].mnull is not None:
            raise Split([[('nonnull', v.oid)], [('null', v.oid)]])
        ok = isinstance(v, Ptr) and v.oid in st.mem and st.mem[v.oid].kind == 'heap' and not st.mem[v.oid].freed and st.store.eq(v.off)
        e.prove(st, self.cat, ok, 'the result is no new object')
        if not ok:
            raise Kill()
        o = st.mem[v.oid]
        e.prove(st, self.cat, o.size is not None and st.store.eq(o.size - size), 'the new object has %r bytes instead of %s' % (o.size, size))
        for oid in e.leaks(st, keep=[v.oid]):
            m = 'leak: the %s allocated at %s is not part of the result' % (st.mem[oid].name, st.mem[oid].site)
            e.prove(st, 'C02', False, m)
            if self.it.ret == ('ptr', 'sml_message'):
                e.prove(st, 'C27', False, m)
        e.prove(st, 'C02', True, '')
        return o

    def fields(self, st, o, spec, given):
        """every field initialised: as given, or empty"""
        e = self.e
        sp = self.specs.get(spec)
        for f in sp.fields.values():
            v = fieldval(e, st, o, f)
            what = '%s.%s' % (spec, f.name)
            if v is UNDEF:
                e.prove(st, self.cat, False, what + ' is not initialised')
                continue
            if f.name in given:
                given[f.name](v, what)
                continue
            want = INIT_VALUE.get((spec, f.name), 0)
            if f.kind == 'int':
                v = ZERO if v is NULL else v
                if isinstance(v, Cond):
                    v = cond(e, st, v)
                v = C(int(v)) if isinstance(v, bool) else v
                ok = isinstance(v, Lin) and st.store.eq(e.uview(st, v, 8 * f.size) - want)
                e.prove(st, self.cat, ok, '%s is not initialised to %d' % (what, want))
            else:
                e.prove(st, self.cat, v is NULL, '%s of a new object is not empty' % what)

    def empty(self, st, v):
        spec = self.it.ret[1]
        sp = self.specs.get(spec)
        o = self.block(st, v, sp.size)
        given = {}
        if spec == 'sml_file':
            given['buf'] = lambda v, w: self.sub_buffer(st, v, w)
        if spec == 'sml_message':
            given['transaction_id'] = lambda v, w: self.sub_id(st, v, w)
        self.fields(st, o, spec, given)

    def sub_buffer(self, st, v, what):
        e = self.e
        ok = isinstance(v, Ptr) and v.oid in st.mem
        e.prove(st, self.cat, ok, what + ' is no buffer')
        if ok:
            o = st.mem[v.oid]
            self.bufcontent(st, o, None)

    def bufcontent(self, st, o, n):
        e = self.e
        got = {}

        def data(v, what):
            got['d'] = v

        def ln(v, what):
            got['n'] = v
        self.fields(st, o, 'sml_buffer', {'buffer': data, 'buffer_len': ln})
        d, ln = got.get('d'), got.get('n')
        ok = isinstance(d, Ptr) and d.oid in st.mem and isinstance(ln, Lin) and st.store.ge(ln - 1)
        e.prove(st, self.cat, ok, 'a new buffer has no memory')
        if not ok:
            return
        if n is not None:
            e.prove(st, self.cat, st.store.eq(ln - n), 'a new buffer does not have the length asked for')
        do = st.mem[d.oid]
        e.prove(st, self.cat, do.size is not None and st.store.ge(do.size - ln) and st.store.eq(d.off), 'a new buffer is longer than its memory')
        k = '$i%d' % d.oid
        if k not in st.ghosts:
            i = st.sym('i', 0, None)
            st.store.add_ge(ln - i - 1)
            st.ghosts[k] = i
        try:
            b = e.read(st, do, st.store.norm(st.ghosts[k]), 1, None, None)
        except Split as sp:
            sp.mut = True
            raise
        e.prove(st, self.cat, isinstance(b, Lin) and st.store.eq(e.uview(st, b, 8)), 'the memory of a new buffer is not zero')

    def sub_id(self, st, v, what):
        e = self.e
        ok = isinstance(v, Ptr) and v.oid in st.mem
        if ok:
            o = st.mem[v.oid]
            sp = self.specs.get('octet_string')
            n, s = fieldval(e, st, o, sp.byname['len']), fieldval(e, st, o, sp.byname['str'])
            ok = isinstance(n, Lin) and st.store.eq(n - 16) and isinstance(s, Ptr) and s.oid in st.mem and st.store.eq(s.off)
            if ok:
                so = st.mem[s.oid]
                ok = so.size is not None and st.store.ge(so.size - 16) and e.content_init(st, so, ZERO, C(16), None) is not False
                self.idbytes(st, so)
        e.prove(st, 'C27', ok, 'a new message has no transaction id of 16 initialised bytes')

    def idbytes(self, st, so):
        pass

    def buffer(self, st, v, n):
        o = self.block(st, v, self.specs.get('sml_buffer').size)
        self.bufcontent(st, o, n)

    def number(self, st, v, n, k):
        e = self.e
        o = self.block(st, v, k)
        x = e.read(st, o, ZERO, k, None, None)
        ok = False
        if isinstance(x, Cond):
            x = cond(e, st, x)
        if isinstance(x, bool):
            x = C(int(x))
        if isinstance(x, Lin):
            ok = st.store.eq(st.store.norm(e.uview(st, x, 8 * k) - e.uview(st, n, 8 * k)))
        e.prove(st, self.cat, x is not UNDEF, 'the new number is not initialised')
        e.prove(st, self.cat, ok, 'the new number of %d bytes does not hold the value given' % k)

    def seq(self, st, v, f):
        e = self.e
        o = self.block(st, v, self.specs.get('sml_sequence').size)

        def fn(v, what):
            e.prove(st, self.cat, isinstance(v, Fn) and v.role == f.role, what + ' is not the function given')
        self.fields(st, o, 'sml_sequence', {'elem_free': fn})

    def body(self, st, v, t, dp):
        e = self.e
        o = self.block(st, v, self.specs.get('sml_message_body').size)

        def tag(v, what):
            ok = False
            if isinstance(v, Ptr) and v.oid in st.mem:
                to = st.mem[v.oid]
                x = e.read(st, to, ZERO, 4, None, None)
                ok = st.store.eq(to.size - 4) and isinstance(x, Lin) and st.store.eq(st.store.norm(e.uview(st, x, 32) - t))
            e.prove(st, self.cat, ok, what + ' does not hold the tag given')

        def data(v, what):
            if dp is NULL:
                ok = v is NULL
            else:
                ok = isinstance(v, Ptr) and v.oid == dp.oid and st.store.eq(v.off)
            e.prove(st, self.cat, ok, what + ' is not the data given')
        self.fields(st, o, 'sml_message_body', {'tag': tag, 'data': data})

    def octets(self, st, v, p, n, empty):
        e = self.e
        o = self.block(st, v, self.specs.get('octet_string').size)
        if empty:
            self.fields(st, o, 'octet_string', {})
            return
        got = {}

        def s(v, what):
            got['s'] = v

        def ln(v, what):
            e.prove(st, self.cat, isinstance(v, Lin) and st.store.eq(v - n), what + ' is not the length given')
        self.fields(st, o, 'octet_string', {'str': s, 'len': ln})
        d = got.get('s')
        ok = isinstance(d, Ptr) and d.oid in st.mem and d.oid != p.oid and st.store.eq(d.off)
        e.prove(st, 'C20', not (isinstance(d, Ptr) and d.oid == p.oid), 'the new string refers to the memory of the caller')
        e.prove(st, self.cat, ok, 'the new string has no memory of its own')
        if ok:
            same_bytes(self, st, d.oid, ZERO, p.oid, ZERO, n, self.cat, 'the new string does not hold the bytes given')


def same_bytes(root, st, a, ao, b, bo, n, cat, msg):
    """obligation: bytes [0,n) of object a at ao are those of object b at bo"""
    e = root.e
    oa, ob = st.mem[a], st.mem[b]
    if oa.size is None or not st.store.ge(oa.size - ao - n):
        e.prove(st, cat, False, msg + ' (block too small)')
        return
    i = st.sym('i', 0, None)
    st.store.add_ge(n - i - 1)
    work = [st]
    cases = 0
    while work:
        s = work.pop()
        bk = s.copy()
        cases += 1
        if cases > 200:
            raise Incomplete('too many cases in the comparison of two blocks')
        try:
            lossy = s.lossy
            x = e.read(s, s.mem[a], s.store.norm(ao + i), 1, None, None)
            if s.lossy == 'bytes of a pointer':
                s.lossy = lossy         # a pointer known, in place of unknown bytes: different
            y = e.read(s, s.mem[b], s.store.norm(bo + i), 1, None, None)
            ok = isinstance(x, Lin) and isinstance(y, Lin) and s.store.eq(s.store.norm(e.uview(s, x, 8) - e.uview(s, y, 8)))
        except Split as sp:
            work.extend(e.split(bk, sp))
            continue
        e.prove(s, cat, ok, msg)


# ---------------------------------------------------------------- growing containers
ADD = {'sml_file': ('messages', 'messages_len'), 'sml_sequence': ('elems', 'elems_len'), 's_tree': ('child_list', 'child_list_len'),
       'sml_tree_path': ('path_entries', 'path_entries_len')}
PTRTY = None
ROOM = 'the storage does not grow with the count'


def ptrty():
    global PTRTY
    if PTRTY is None:
        from .ir import Ty
        PTRTY = Ty('ptr')
    return PTRTY


class AddRoot(Root):
    """add functions: the new element is the last one, the others stay, the count grows by one"""
    cat = 'C25'

    def __init__(self, prog, specs, fn, it, opts=None):
        self.it = it
        Root.__init__(self, prog, specs, fn, opts)

    def run(self):
        e = self.e
        spec = self.it.params[0][1]
        if spec in ADD:
            for empty in (True, False):
                for null in ((False, True) if spec == 'sml_sequence' else (False,)):
                    self.one(spec, empty, null)
            self.grown(spec)
        else:
            self.link(spec)
        return self

    def container(self, st, spec):
        """an object of unknown but definite content"""
        sp = self.specs.get(spec)
        o = Obj('heap', C(sp.size), ('undef',), spec)
        o.hint = spec
        o.attrs['borrowed'] = 1
        old = {}
        for f in sp.fields.values():
            if f.kind == 'int':
                v = st.sym(f.name, 0, MAXN)
            elif f.kind == 'fn':
                v = Fn(role=('free', 'ABS'))
            else:
                d = Obj('heap', C(64), ('op', new_cid()), f.name)
                d.attrs['borrowed'] = 1
                d.mnull = ()
                v = st.add(d)
            o.cells[f.off] = (f.size, v)
            old[f.name] = v
        return st.add(o), old

    def one(self, spec, empty, null):
        e = self.e
        arr, cnt = ADD[spec]
        st = fresh_state()
        p, old = self.container(st, spec)
        sp = self.specs.get(spec)
        o = st.wobj(p.oid)
        n = ZERO if empty else st.sym('n', 1, MAXN)
        cid = new_cid()
        if empty:
            a = NULL
            ref = None
        else:
            b = Obj('heap', n * 8, ('op', cid), arr)
            a = st.add(b)
            r = Obj('heap', n * 8, ('op', cid), 'before')
            r.attrs['borrowed'] = 1
            ref = st.add(r)
        o.cells[sp.byname[arr].off] = (8, a)
        o.cells[sp.byname[cnt].off] = (sp.byname[cnt].size, n)
        if null:
            x = NULL
        else:
            x = Obj('heap', C(64), ('op', new_cid()), 'new element')
            x.attrs['borrowed'] = 1
            x = st.add(x)
        self.outs(st, [p, x], lambda s, v: self.exit(s, p, old, n, ref, x, spec))

    def exit(self, st, p, old, n, ref, x, spec):
        e = self.e
        self.case('added')
        arr, cnt = ADD[spec]
        sp = self.specs.get(spec)
        o = st.mem[p.oid]
        c = fieldval(e, st, o, sp.byname[cnt])
        e.prove(st, self.cat, isinstance(c, Lin) and st.store.eq(c - n - 1), 'the count does not grow by exactly one')
        for f in sp.fields.values():
            if f.name in (arr, cnt):
                continue
            v = fieldval(e, st, o, f)
            w = old[f.name]
            w = NULL if isinstance(w, Ptr) and w.oid in st.nulled else w
            if isinstance(w, Lin):
                ok = isinstance(v, Lin) and st.store.eq(v - w)
            elif isinstance(w, Ptr):
                ok = isinstance(v, Ptr) and v.oid == w.oid
            elif isinstance(w, Fn):
                ok = isinstance(v, Fn) and v.role == w.role
            else:
                ok = v is w
            e.prove(st, self.cat, ok, '%s.%s is changed by adding an element' % (spec, f.name))
        a = fieldval(e, st, o, sp.byname[arr])
        ok = isinstance(a, Ptr) and a.oid in st.mem and not st.mem[a.oid].freed and st.mem[a.oid].kind == 'heap' and st.store.eq(a.off)
        e.prove(st, self.cat, ok, 'the elements are not in a live block')
        if not ok:
            return
        ao = st.mem[a.oid]
        fits = ao.size is not None and st.store.ge(ao.size - (n + 1) * 8)
        e.prove(st, self.cat, fits, ROOM)
        if fits:
            v = e.nz(st, e.read(st, ao, st.store.norm(n * 8), 8, None, None))
            ok = v is NULL if x is NULL else isinstance(v, Ptr) and v.oid == x.oid and st.store.eq(v.off)
            e.prove(st, self.cat, ok, 'the new element is not the last one')
            if ref is not None:
                same_bytes(self, st, a.oid, ZERO, ref.oid, ZERO, n * 8, self.cat, 'the elements already there are not kept in place')
        for oid in e.leaks(st, keep=[p.oid]):
            e.prove(st, 'C02', False, 'leak: the %s allocated at %s is lost' % (st.mem[oid].name, st.mem[oid].site or 'the object given'))
        e.prove(st, 'C02', True, '')

    ADDS = 1100

    def grown(self, spec):
        """ADDS elements added one after the other, from the empty container on. That the block holds exactly the elements there
        are is not promised: what was found on that assumption counts if it shows here, and is open otherwise."""
        e = self.e
        held = {k: f for k, f in e.findings.items() if f.cat in ('oob-read', 'oob-write') or f.msg == ROOM}
        for k in held:
            del e.findings[k]
        arr, cnt = ADD[spec]
        sp = self.specs.get(spec)
        st = fresh_state()
        p, old = self.container(st, spec)
        o = st.wobj(p.oid)
        o.cells[sp.byname[arr].off] = (8, NULL)
        o.cells[sp.byname[cnt].off] = (sp.byname[cnt].size, ZERO)
        xs = []
        done = True
        for k in range(self.ADDS):
            x = Obj('heap', C(64), ('op', new_cid()), 'new element')
            x.attrs['borrowed'] = 1
            x = st.add(x)
            xs.append(x)
            e.insize = C(k + 1)
            nxt = []
            e.opts['entry'] = [p, x]
            for s, v, r in decide(e, e.exec_fn(self.fn, [p, x], st), lambda s, v: self.holds(s, p, xs, spec)):
                e.exits += 1
                nxt.append(s)
            if len(nxt) != 1 or nxt[0].lossy:
                done = False
                break
            st = nxt[0]
        e.insize = None
        self.case('grown')
        if done and not any(f.cat in ('oob-read', 'oob-write') or f.msg == ROOM for f in e.findings.values()):
            for k, f in held.items():
                f.lossy = 'a block of exactly the elements there are was assumed'
                e.undecided.setdefault(k, f)
        else:
            for k, f in held.items():
                e.findings.setdefault(k, f)

    def holds(self, st, p, xs, spec):
        e = self.e
        arr, cnt = ADD[spec]
        sp = self.specs.get(spec)
        o = st.mem[p.oid]
        n = len(xs)
        c = fieldval(e, st, o, sp.byname[cnt])
        e.prove(st, self.cat, isinstance(c, Lin) and st.store.eq(c - n), 'the count does not grow by exactly one')
        a = fieldval(e, st, o, sp.byname[arr])
        ok = isinstance(a, Ptr) and a.oid in st.mem and not st.mem[a.oid].freed and st.mem[a.oid].kind == 'heap' and st.store.eq(a.off)
        e.prove(st, self.cat, ok, 'the elements are not in a live block')
        if not ok:
            return
        ao = st.mem[a.oid]
        fits = ao.size is not None and st.store.ge(ao.size - n * 8)
        e.prove(st, self.cat, fits, ROOM)
        if not fits:
            raise Kill()
        which = range(n) if n < 20 or n in (32, 33, 64, 65, 128, 129, 255, 256, 257, 512, 513, 1024, 1025) or n == self.ADDS else (0, n - 2, n - 1)
        for i in which:
            v = e.nz(st, e.read(st, ao, C(i * 8), 8, None, None))
            ok = isinstance(v, Ptr) and v.oid == xs[i].oid and st.store.eq(v.off)
            e.prove(st, self.cat, ok, 'the new element is not the last one' if i == n - 1 else 'the elements already there are not kept in place')
        for oid in e.leaks(st, keep=[p.oid]):
            e.prove(st, 'C02', False, 'leak: the %s allocated at %s is lost' % (st.mem[oid].name, st.mem[oid].site or 'the object given'))

    def link(self, spec):
        sp = self.specs.get(spec)
        off = sp.byname['next'].off
        for more in (False, True):              # the entry is the last one, or has one behind it
            st = fresh_state()
            p, old = self.container(st, spec)
            nx = NULL
            if more:
                nx, _ = self.container(st, spec)
                st.wobj(nx.oid).cells[off] = (8, NULL)
            st.wobj(p.oid).cells[off] = (8, nx)
            x, oldx = self.container(st, spec)
            st.wobj(x.oid).cells[off] = (8, NULL)
            oldx['next'] = NULL
            self.outs(st, [p, x], lambda s, v: self.linked(s, p, old, x, oldx, spec))

    def linked(self, st, p, old, x, oldx, spec):
        e = self.e
        self.case('linked')
        sp = self.specs.get(spec)
        for obj, was in ((p, old), (x, oldx)):
            o = st.mem[obj.oid]
            for f in sp.fields.values():
                v = fieldval(e, st, o, f)
                w = was[f.name]
                w = NULL if isinstance(w, Ptr) and w.oid in st.nulled else w
                if f.name == 'next' and obj is p:
                    e.prove(st, self.cat, isinstance(v, Ptr) and v.oid == x.oid and st.store.eq(v.off), 'the entry given is not linked as the next one')
                elif isinstance(w, Ptr):
                    e.prove(st, self.cat, isinstance(v, Ptr) and v.oid == w.oid, '%s.%s is changed by adding an entry' % (spec, f.name))
                else:
                    e.prove(st, self.cat, v is w, '%s.%s is changed by adding an entry' % (spec, f.name))


# ---------------------------------------------------------------- sequences of any element type
from .roots import ParseRoot, Mismatch            # noqa: E402
from .wroots import WriteRoot, mkoutput           # noqa: E402


class SeqParseRoot(ParseRoot):
    """sml_sequence_parse for an arbitrary element type, given by its functions"""

    def __init__(self, prog, specs, fn, opts=None):
        ParseRoot.__init__(self, prog, specs, fn, 'seq', 'sml_sequence', opts=opts)
        self.nullable = False

    def args(self, st, bp):
        return [bp, Fn(role=('parse', None)), Fn(role=('free', 'ABS'))]

    def k_seq(self, st, o, cur):
        cur0 = cur.peek()
        self.array(st, o, cur, 'elems', 'elems_len', 'elem', False)
        if cur0 is None or cur0[0] != 'tl':
            raise Mismatch('layout', 'a sequence is read without its header')
        n = cur0[4]
        cnt = fieldval(self.e, st, o, self.specs.get(self.spec).byname['elems_len'])
        cnt = ZERO if cnt is NULL else cnt
        if not st.store.eq(cnt - n) and not (st.store.ge(-n) and st.store.eq(cnt)):
            raise Mismatch('count', 'a sequence of %r elements is returned where %r are announced' % (cnt, st.store.norm(n)))
        f = fieldval(self.e, st, o, self.specs.get(self.spec).byname['elem_free'])
        if not (isinstance(f, Fn) and f.role and f.role[0] == 'free'):
            raise Mismatch('C02', 'the elements of the sequence are not released by the function given')


class SeqWriteRoot(WriteRoot):
    def __init__(self, prog, specs, fn, opts=None):
        WriteRoot.__init__(self, prog, specs, fn, 'seq', 'sml_sequence', opts)
        self.nullable = True

    def run(self):
        e = self.e
        st = fresh_state()
        bp, dp, L, c0 = mkoutput(e, st)
        p = e.typed(st, 'sml_sequence', 'write', mnull=(), elem='ABS')
        st.ghosts['$pin'] = (L, c0)
        st.ghosts['$obj'] = p
        outs = e.exec_fn(self.fn, [p, bp, Fn(role=('write', 'ABS'))], st)
        for s, v, r in decide(e, outs, lambda s, v: self.exit(s, p, bp, L, c0)):
            e.exits += 1
        return self

    def w_seq(self, st, o, cur):
        n = cur.hdr(None, 'the sequence')
        got = self.reps(st, cur, ((('wel', 'elem'),),), 'the sequence')
        cnt = fieldval(self.e, st, o, self.specs.get(self.spec).byname['elems_len'])
        cnt = ZERO if cnt is NULL else cnt
        if not isinstance(cnt, Lin) or not st.store.eq(st.store.norm(n - cnt)):
            raise Mismatch('layout', 'a sequence of %r elements is announced with %r' % (cnt, st.store.norm(n)))
        if not st.store.eq(st.store.norm(n - got)):
            raise Mismatch('layout', 'a sequence is announced with %r elements but %r are written' % (st.store.norm(n), st.store.norm(got)))
