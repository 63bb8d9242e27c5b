"""Entry points of the analysis: what every function of the library is started with and what must hold when it returns."""
from .core import *
from .spec import *
from .engine import Engine, Incomplete
from .contracts import interfaces, NULLABLE_KINDS, DEFAULT
from .memory import MAXN
import time

MAXIN = (1 << 31) - (1 << 16)


class RootEngine(Engine):
    def __init__(self, prog, specs, root='', opts=None):
        Engine.__init__(self, prog, specs, root, opts)
        self.exits = 0
        self.events_seen = 0

    # ------------------------------------------------------------ obligations at exits
    def prove(self, st, cat, ok, msg, need=None):
        self.oblig[cat] = self.oblig.get(cat, 0) + 1
        if ok:
            return True
        self.report(st, cat, None, msg, need)
        return False

    def where(self, ins):
        if ins is None:
            f = self.opts.get('rootfn')
            if f is not None:
                for b in f.blocks.values():
                    for i in b.insts:
                        if i.line:
                            return '%s (%s)' % (Engine.where(self, i).split(':')[0], f.name)
                return f.name
            return self.root
        return Engine.where(self, ins)

    def start(self, st):
        pass

    # ------------------------------------------------------------ work bounded by the input
    insize = None               # length of the input, for functions that read some
    ROUNDS = 256                # loops bounded by a constant
    PERBYTE, FIXED = 64, 4096   # bytes allocated per byte of input, and at any rate

    def at_back(self, st, fn, head, kname):
        if self.insize is not None and self.headstate is not None:
            self.progress(st, fn, head)
        return Engine.at_back(self, st, fn, head, kname)

    def progress(self, st, fn, head):
        """a quantity that moves in one direction in every round and stays within the size of the input"""
        h = self.headstate
        self.oblig['C06'] = self.oblig.get('C06', 0) + 1
        pairs = []
        a, b = h.frames[-1], st.frames[-1]
        for ph in fn.blocks[head].phis:
            pairs.append((a.get(ph.dst), b.get(ph.dst)))
        for oid, o in h.mem.items():
            w = st.mem.get(oid)
            if w is None or o.freed or w.freed or w is o or o.attrs.get('input'):
                continue
            for k, (s, v) in w.cells.items():
                x = o.cells.get(k)
                if x is not None and x[0] == s:
                    pairs.append((x[1], v))
                elif x is None and o.base[0] == 'zero' and not o.log and isinstance(v, Lin):
                    pairs.append((ZERO, v))
        sto = st.store
        near = None
        for x, y in pairs:
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.oid == y.oid:
                x, y = x.off, y.off
            if not isinstance(x, Lin) or not isinstance(y, Lin):
                continue
            d = sto.norm(y - x)
            up = sto.ge(d - 1)
            if not up and not sto.ge(-d - 1):
                continue
            if sto.ge(y + self.ROUNDS) and sto.ge(self.insize + self.ROUNDS - y):
                return
        ins = next((i for i in fn.blocks[head].insts if i.line), None)
        self.report(st, 'loop', ins, 'a round of the loop consumes no input and nothing bounds the number of rounds by the size of the input')

    def on_alloc(self, st, n, ins, old=None):
        if self.insize is None:
            return
        self.oblig['C06'] = self.oblig.get('C06', 0) + 1
        sto = st.store
        if sto.ge(self.insize * self.PERBYTE + self.FIXED - n) or old is not None and sto.ge(old + self.FIXED - n):
            return
        self.report(st, 'alloc', ins, 'the size of an allocation is not bounded by the size of the input', self.insize * self.PERBYTE + self.FIXED - n)

    def leaks(self, st, keep=(), ins=None, ret=None, exit=False):
        """heap objects nothing refers to any more"""
        seen = set()
        work = list(keep)

        def val(v):
            if isinstance(v, Ptr):
                work.append(v.oid)
            elif type(v).__name__ == 'PtrInt':
                work.append(v.oid)
            elif isinstance(v, tuple):
                for x in v:
                    val(x)
        val(ret)
        for fr in st.frames:
            for v in fr.values():
                val(v)
        for v in st.ghosts.values():
            val(v)
        for oid, o in st.mem.items():
            if (o.attrs.get('borrowed') or o.kind in ('global', 'in', 'stream') or o.kind == 'stack' and not exit) and not o.freed:
                work.append(oid)
        while work:
            x = work.pop()
            if x in seen or x not in st.mem:
                continue
            seen.add(x)
            o = st.mem[x]
            if o.freed:
                continue
            for s, v in o.cells.values():
                val(v)
            if o.log:
                for en in o.log:
                    if en[0] == 'c':
                        val(en[3])
            for k, v in o.attrs.items():
                val(v)
        out = []
        for oid, o in st.mem.items():
            if oid in seen or o.freed or o.kind not in ('heap', 'lseg') or o.attrs.get('borrowed') or oid in st.nulled:
                continue
            out.append(oid)
        return out


def fresh_state():
    st = State()
    st.frames = [{}]
    return st


def mkinput(e, st, name='buf', lo=0):
    """a parse buffer of unknown content; (pointer, data object, L, c)"""
    L = st.sym('L', lo, MAXIN)
    c = st.sym('c0', 0, MAXIN)
    st.store.add_ge(L - c)
    d = Obj('heap', L, ('op', new_cid()), 'input')
    d.attrs['borrowed'] = d.attrs['input'] = 1
    dp = st.add(d)
    sp = e.specs.get('sml_buffer')
    e.insize = L
    b = Obj('heap', C(sp.size), ('zero',), 'sml_buffer')
    b.hint = 'sml_buffer'
    b.attrs['borrowed'] = 1
    bp = st.add(b)
    for n, v in (('buffer', dp), ('buffer_len', L), ('cursor', c)):
        f = sp.byname[n]
        b.cells[f.off] = (f.size, v)
    return bp, dp, L, c


def decide(e, outs, fn):
    """refine states until fn(st, v) needs no further case distinction; yields (st, v, result)"""
    work = list(outs)
    n = 0
    while work:
        st, v = work.pop()
        n += 1
        if n > 4000:
            raise Incomplete('too many exit cases')
        bk = st.copy()
        try:
            r = fn(st, v)
        except Split as sp:
            for s2 in e.split(st if getattr(sp, 'mut', False) else bk, sp):
                work.append((s2, v))
            continue
        except Kill:
            continue
        yield st, v, r


def cond(e, st, c):
    c = e.simp(st, c)
    if isinstance(c, Cond):
        raise Split([[c.atom()], [c.neg().atom()]])
    return c


# ---------------------------------------------------------------- parse functions
STRUCTS = {s for s in LAYOUT} - {'sml_message', 'sml_list_entry'}
OTHER = ('recv', 'narrow', 'exit', 'stdout', 'memcmp', 'strlen')


class Mismatch(Exception):
    def __init__(self, cat, why):
        Exception.__init__(self, why)
        self.cat, self.why = cat, why


class Cursor:
    """walks over the recorded elements of a path"""

    def __init__(self, e, st, trace, pos, inp):
        self.e, self.st, self.items, self.pos, self.inp = e, st, list(trace), pos, inp
        self.i = 0

    def peek(self):
        while self.i < len(self.items) and self.items[self.i][0] in OTHER:
            self.i += 1
        return self.items[self.i] if self.i < len(self.items) else None

    def desc(self, it):
        if it is None:
            return 'the end'
        if it[0] in ('el', 'wel', 'tl', 'wtl'):
            return '%s %s' % ({'el': 'element', 'wel': 'element', 'tl': 'header of', 'wtl': 'header'}[it[0]], it[1])
        return it[0]

    def at(self, c, what):
        st = self.st
        if not st.store.eq(st.store.norm(c - self.pos)):
            raise Mismatch('gap', '%s does not follow directly on the element before it' % what)

    def tl(self, kind, count, what):
        """type-length field of a list; count: int, None (any); returns n"""
        it = self.peek()
        if it is None or it[0] != 'tl' or it[1] != kind:
            raise Mismatch('layout', '%s starts with %s instead of a %s header' % (what, self.desc(it), kind))
        self.at(it[2], what)
        self.i += 1
        self.pos = it[3]
        n = it[4]
        if count is not None and not self.st.store.eq(n - count):
            raise Mismatch('layout+count', '%s is accepted with %r elements instead of %d' % (what, self.st.store.norm(n), count))
        return n

    def el(self, kinds, what):
        it = self.peek()
        if it is None or it[0] != 'el':
            raise Mismatch('layout+count' if it is None else 'layout', '%s: %s instead of an element of type %s' % (what, self.desc(it), '/'.join(kinds)))
        if it[1] not in kinds:
            raise Mismatch('layout', '%s is read as %s instead of %s' % (what, it[1], '/'.join(kinds)))
        self.at(it[2], what)
        self.i += 1
        self.pos = it[3]
        return it[4]

    def skipbyte(self, val=1):
        """is the byte at the current position this value?"""
        st = self.st
        d = st.mem[self.inp.oid]
        if not st.store.ge(self.e.inlen - self.pos - 1):
            return False
        v = self.e.read(st, d, st.store.norm(self.pos), 1, None, None)
        return isinstance(v, Lin) and st.store.eq(self.e.uview(st, v, 8) - val)

    def end(self, c1, what):
        it = self.peek()
        if it is not None:
            raise Mismatch('layout+count', '%s has a further %s' % (what, self.desc(it)))
        self.at(c1, 'the end of ' + what)


def fieldval(e, st, o, f):
    v = e._fld(st, o, f)
    if v is DEFAULT:
        return DEFAULT
    return e.nz(st, v) if v is not UNDEF else UNDEF


def isres(e, st, v, p):
    """does field value v hold what the element event returned (p)?"""
    if p is NULL or isinstance(p, Ptr) and p.oid in st.nulled:
        return v is NULL
    return isinstance(v, Ptr) and isinstance(p, Ptr) and v.oid == p.oid


class ParseRoot:
    ENGINE = None

    def begin(self, st, dp):
        pass

    def __init__(self, prog, specs, fn, kind, spec, extra=0, elem=None, role='parse', time=120, opts=None):
        self.prog, self.specs, self.fn, self.kind, self.spec = prog, specs, fn, kind, spec
        o = {'rootfn': fn, 'time': time, 'mode': 'parsed'}
        o.update(opts or {})
        self.e = (self.ENGINE or ParseEngine)(prog, specs, fn.name, o)
        self.extra = extra
        self.cases = {'ok': 0, 'skip': 0, 'error': 0, 'dropped': 0, 'dirty': 0}
        self.nullable = kind in NULLABLE_KINDS or spec.startswith('num') or kind == 'elem'
        self.special = None

    def args(self, st, bp):
        a = [bp]
        for i in range(self.extra):
            a.append(st.sym('arg%d' % i, -(1 << 31), (1 << 31) - 1))
        return a

    def run(self):
        e = self.e
        for dirty in (False, True):
            st = fresh_state()
            bp, dp, L, c0 = mkinput(e, st)
            e.inlen = L
            sp = self.specs.get('sml_buffer')
            fe = sp.byname['error']
            if dirty:
                er = st.sym('err0', -(1 << 31), (1 << 31) - 1)
                st.store.add_ne(er)
                st.wobj(bp.oid).cells[fe.off] = (fe.size, er)
                e.muted = ('C05', 'C10')
            args = self.args(st, bp)
            st.ghosts['$pin'] = (L, c0)
            e.opts['entry'] = args
            st.mem[bp.oid].attrs['in'] = 1
            if not dirty:
                self.begin(st, dp)
                if self.kind in self.HEADERS or self.spec in LAYOUT:
                    st.ghosts['$in0'] = (bp, dp, L, c0)
                    e.reason = self.reason
            outs = e.exec_fn(self.fn, args, st)
            for s, v, r in decide(e, outs, lambda s, v: self.exit(s, v, bp, dp, L, c0, dirty)):
                e.exits += 1
        return self

    def exit(self, st, v, bp, dp, L, c0, dirty):
        e = self.e
        b = st.mem[bp.oid]
        sp = self.specs.get('sml_buffer')
        F = lambda n: e._fld(st, b, sp.byname[n])
        c1, er = F('cursor'), F('error')
        if not isinstance(c1, Lin):
            e.prove(st, 'C01', False, 'the read position is not a number on return')
            raise Kill()
        c1 = e.uview(st, c1, 64)
        dpv = F('buffer')
        e.prove(st, 'C20', isinstance(dpv, Ptr) and dpv.oid == dp.oid and st.store.eq(dpv.off) and isinstance(F('buffer_len'), Lin)
                and st.store.eq(F('buffer_len') - L), 'the buffer the caller gave has been exchanged')
        e.prove(st, 'C01', st.store.ge(L - c1), 'the read position may lie beyond the end of the buffer on return', L - c1)
        e.prove(st, 'C05', st.store.ge(c1 - c0), 'the read position moves backwards', c1 - c0)
        if isinstance(er, bool):
            er = C(int(er))
        if isinstance(er, Cond):
            raise Split([[er.atom()], [er.neg().atom()]])
        if not isinstance(er, Lin):
            e.prove(st, 'C04', False, 'the error flag has no definite value on return')
            raise Kill()
        bad = cond(e, st, Cond('ne', e.sview(st, er, 32)))
        v = e.nz(st, v)
        if isinstance(v, Ptr) and v.oid in st.mem and st.mem[v.oid].mnull is not None:
            raise Split([[('nonnull', v.oid)], [('null', v.oid)]])
        if v is UNDEF:
            e.prove(st, 'C03', False, 'the result is an uninitialised value')
            raise Kill()
        if dirty:
            self.cases['dirty'] += 1
            e.prove(st, 'C04', bad, 'an error flag set before the call is cleared')
            self.owned(st, v, 'free')
            return
        if bad:
            self.cases['error'] += 1
            self.owned(st, v, 'free')
            if self.kind == 'message' or self.is_elem():
                e.prove(st, 'C02', not isinstance(v, Ptr), 'an object is returned together with an error, and nobody releases it')
            self.rejected(st, dp, L, c0, c1)
            return
        if any(x[0] in ('err', 'dirtycall') for x in st.trace):
            e.prove(st, 'C04', False, 'success is reported although an element could not be parsed')
        if isinstance(v, Ptr) and v.oid in st.mem and st.mem[v.oid].base[0] == 'var':
            if e.resolve_var(st, v.oid) is None:
                raise Kill()
        if isinstance(v, Ptr):
            self.cases['ok'] += 1
            bad0 = dict(e.findings)
            self.owned(st, v, 'parsed')
            self.consumed(st, v, dp, c0, c1)
        elif v is NULL:
            self.owned(st, v, 'parsed')
            self.absent(st, dp, c0, c1)
        else:
            e.prove(st, 'C09', False, 'the result is no object')

    HEADERS = {'time': (2, 3), 'ppv': (2,), 'body': (2,), 'tree': (3, None), 'treepath': (None,), 'seq': (None,), 'list': (None, 7), 'message': (6,)}

    def rejected(self, st, dp, L, c0, c1):
        """an element that has the layout of its type is not rejected"""
        e = self.e
        if self.nullable and not st.trace and not st.ghosts.get('$just') and self.byte_is(st, dp, L, c1, 1) and st.store.eq(c1 - c0):
            e.oblig['C05'] = e.oblig.get('C05', 0) + 1
            e.report(st, 'C05', None, 'a field that is marked as skipped is rejected')
            return
        if self.kind == 'octet':
            self.rejected_octets(st, L, dp)
        if self.kind not in self.HEADERS and self.spec not in LAYOUT:
            return
        e.oblig['C10'] = e.oblig.get('C10', 0) + 1
        if st.ghosts.get('$just') or self.justified(st, dp, L, c0, c1, True):
            return
        if not st.trace and not st.store.ge(L - c1 - 1) and st.feasible([('ge', L - c1 - 1)]) is not None:
            raise Split([[('ge', L - c1 - 1)], [('ge', c1 - L)]])
        if self.kind == 'message' and any(x[0] == 'crc' for x in st.trace):
            e.report(st, 'C08', None, 'a complete message is rejected with an error, so that the parse of a file ends there')
            return
        if self.kind == 'time':
            e.report(st, 'C22', None, 'a time in one of the documented encodings is rejected')
        e.report(st, 'C10', None, 'a %s is rejected although none of its elements is malformed' % self.kind)

    def byte_is(self, st, dp, L, at, val):
        """is there a byte at this position of the input, and is it val?"""
        if not st.store.ge(L - at - 1):
            if st.feasible([('ge', L - at - 1)]) is None:
                return False
            raise Split([[('ge', L - at - 1)], [('ge', at - L)]])
        x = self.e.read(st, st.mem[dp.oid], st.store.norm(at), 1, None, None)
        if not isinstance(x, Lin):
            return False
        x = self.e.uview(st, x, 8)
        if st.store.eq(x - val):
            return True
        if st.feasible([('eq', x - val)]) is None:
            return False
        sp = Split([[('eq', x - val)], [('ge', x - val - 1)], [('ge', -x + val - 1)]])
        sp.mut = True
        raise sp

    def rejected_octets(self, st, L, dp):
        """an octet string whose bytes are all there, and at least one behind them, is not rejected"""
        e = self.e
        e.oblig['C14'] = e.oblig.get('C14', 0) + 1
        tr = [x for x in st.trace if x[0] not in OTHER]
        if len(tr) != 1 or tr[0][0] != 'tl' or tr[0][1] != 'simple':
            return
        y = e.read(st, st.mem[dp.oid], st.store.norm(tr[0][2]), 1, None, None)
        y = e.andc(st, e.uview(st, y, 8), 0x70, 8) if isinstance(y, Lin) else None
        if y is None or not st.store.eq(y) and st.feasible([('eq', y)]) is None:
            return
        n, at = tr[0][4], tr[0][3]
        for g in (n, L - at - n - 1):
            if not st.store.ge(g):
                if st.feasible([('ge', g)]) is None:
                    return
                raise Split([[('ge', g)], [('ge', -g - 1)]])
        e.report(st, 'C14', None, 'an octet string is rejected although all of its bytes are there')

    def justified(self, st, dp, L, c0, c1, split):
        """does what was read so far give a reason to reject the element?"""
        e = self.e
        counts = self.HEADERS.get(self.kind) or (len(LAYOUT[self.spec]), None)
        if self.spec in WIRE_COUNT:
            counts = (WIRE_COUNT[self.spec],) + counts[1:]
        room = 3 if self.kind == 'message' else 1
        if any(x[0] in ('err', 'dirtycall') for x in st.trace) or st.store.ge(c1 - L + room - 1):
            return True
        n = 0
        for x in st.trace:
            if x[0] == 'tl':
                if x[1] != 'list':
                    return True
                w = counts[min(n, len(counts) - 1)]
                if w is not None and not st.store.eq(x[4] - w) and st.feasible([('eq', x[4] - w)]) is None:
                    return True
                if w is None and not st.store.ge(x[4] - 1):
                    return True
                n += 1
            elif x[0] == 'el' and x[1] in ('u8', 'u16', 'u32'):
                p = x[4]
                if self.kind in ('ppv', 'body', 'message') and (p is NULL or isinstance(p, Ptr) and p.oid in st.nulled):
                    return True                 # an absent tag or checksum
                if isinstance(p, Ptr) and p.oid in st.mem and self.kind in ('ppv', 'body'):
                    if st.mem[p.oid].mnull is not None:
                        if not split:
                            return True
                        raise Split([[('nonnull', p.oid)], [('null', p.oid)]])
                    table = PPV_TAGS if self.kind == 'ppv' else MSG_TAGS
                    t = e.tagof(st, st.mem[p.oid], 1 if self.kind == 'ppv' else 4)
                    if t is None or all(st.feasible([('eq', t - k)]) is None for k in table):
                        return True             # an unknown tag
            elif x[0] not in ('el',) + OTHER and not (x[0] == 'crc' and self.kind == 'message'):
                return True                     # a part of the input the analysis has summarised
        if n == 0 and self.extra:
            return True                         # nested too deep
        if st.feasible([('ge', L - c1 - 1)]) is None:
            return True
        if not st.store.ge(c1 - c0) or not st.store.ge(L - c1 - 1):
            return False
        if self.kind == 'message' and any(x[0] == 'crc' for x in st.trace):
            return False
        if self.kind == 'time' and n == 0 and not st.trace:
            # the bare second index of some meters
            if split and self.byte_is(st, dp, L, c1, 0x65):
                return False
            x = None if split else e.read(st, st.mem[dp.oid], st.store.norm(c1), 1, None, None)
            if isinstance(x, Lin) and st.feasible([('eq', e.uview(st, x, 8) - 0x65)]) is not None:
                return False
        x = e.read(st, st.mem[dp.oid], st.store.norm(c1), 1, None, None)
        if isinstance(x, Lin):
            y = e.andc(st, e.uview(st, x, 8), 0x70, 8)
            if st.feasible([('eq', y - 0x70)]) is None:
                return True                     # no list where one has to be
        return False

    def reason(self, st):
        """called before states are merged: remember that there is a reason to reject the element"""
        if '$just' in st.ghosts or '$in0' not in st.ghosts:
            return
        bp, dp, L, c0 = st.ghosts['$in0']
        e = self.e
        sp = self.specs.get('sml_buffer')
        b = st.mem.get(bp.oid)
        if b is None:
            return
        er = b.cells.get(sp.byname['error'].off)
        er = er[1] if er else ZERO
        bad = isinstance(er, Lin) and st.store.neq(er)
        if not bad and st.trace and not (self.kind == 'list' and len(st.trace) == 1):
            return
        c = b.cells.get(sp.byname['cursor'].off)
        if c is None or not isinstance(c[1], Lin):
            return
        if self.justified(st, dp, L, c0, e.uview(st, c[1], 64), False):
            st.ghosts['$just'] = True

    def is_elem(self):
        """is this function handed to another one that calls it for the elements of a sequence?"""
        a = self.prog.__dict__.get('_taken')
        if a is None:
            a = self.prog._taken = {t.key for f in self.prog.funcs.values() for ins, k, t in self.prog.callees(f) if k == 'a'}
        return self.fn.key in a

    def keeps(self, st, v):
        """no object of the result refers to the input"""
        e = self.e
        seen, work = set(), [v]
        while work:
            x = work.pop()
            if not isinstance(x, Ptr) or x.oid in seen or x.oid not in st.mem:
                continue
            seen.add(x.oid)
            o = st.mem[x.oid]
            if o.attrs.get('input'):
                e.prove(st, 'C20', False, 'the result refers to the input of the caller')
                return
            if o.freed:
                continue
            work.extend(c[1] for c in o.cells.values())
            work.extend(en[3] for en in o.log or () if en[0] == 'c')
        e.prove(st, 'C20', True, '')

    # ---- ownership of the result
    def owned(self, st, v, mode):
        e = self.e
        self.keeps(st, v)
        own = set()
        if isinstance(v, Ptr):
            e.why = ''
            r = None
            if not st.store.eq(v.off):
                e.why = 'pointer into the middle of a block'
            else:
                r = e.conform(st, v.oid, self.spec, mode)
            if r is None:
                w = e.why
                e.prove(st, whycat(w, mode), False, 'the returned object is not complete: ' + w)
                return
            e.prove(st, 'C02', True, '')
            own = r
        for oid in st.mem:
            o = st.mem[oid]
            if oid in own or o.freed or o.kind not in ('heap', 'lseg') or o.attrs.get('borrowed') or oid in st.nulled:
                continue
            if o.mnull is not None and st.feasible([('nonnull', oid)]) is None:
                continue
            e.prove(st, 'C02', False, 'leak: the %s allocated at %s is neither released nor part of the result'
                    % (o.hint or o.name, o.site or 'a callee'))
        e.prove(st, 'C02', True, '')

    # ---- what a successful NULL means
    def absent(self, st, dp, c0, c1):
        e = self.e
        cur = Cursor(e, st, st.trace, c0, dp)
        it = cur.peek()
        if it is None:
            ok = st.store.eq(c1 - c0 - 1) and cur.skipbyte()
            if not self.nullable:
                e.prove(st, 'C04', False, 'no object is returned, but no error is reported')
            elif not ok:
                if st.store.eq(c1 - c0) or not cur.skipbyte():
                    e.prove(st, 'C04', False, 'no object is returned for a field that is not marked as skipped, but no error is reported')
                else:
                    e.prove(st, 'C05', False, 'skipping an optional field does not consume exactly its one byte')
            else:
                e.prove(st, 'C05', True, '')
                self.cases['skip'] += 1
            return
        if self.kind == 'list' and it[0] == 'tl' and it[1] == 'list':
            n = it[4]
            if st.store.ge(-n):
                try:
                    cur.tl('list', None, 'the list')
                    cur.end(c1, 'an empty list')
                    e.prove(st, 'C05', True, '')
                except Mismatch as m:
                    for c in m.cat.split('+'):
                        e.prove(st, catof(c), False, m.why)
                return
        if self.kind == 'message':
            self.cases['dropped'] += 1
            self.message_dropped(st, cur, dp, c0, c1)
            return
        e.prove(st, 'C04', False, 'no object is returned for an element that is present, but no error is reported')

    # ---- consumption and layout
    def consumed(self, st, v, dp, c0, c1):
        e = self.e
        o = st.mem[v.oid]
        e.prove(st, 'C05', st.store.ge(c1 - c0 - 1), 'success without consuming anything', c1 - c0 - 1)
        if o.base[0] == 'typed' and not o.cells and len([x for x in st.trace if x[0] not in OTHER]) == 1:
            it = [x for x in st.trace if x[0] not in OTHER][0]
            if it[0] == 'el' and isres(e, st, v, it[4]):
                # the work was delegated as a whole
                ok = st.store.eq(it[2] - c0) and st.store.eq(it[3] - c1)
                e.prove(st, 'C05', ok, 'the element does not extend over exactly what is consumed')
                k = self.kind
                e.prove(st, 'C10', k in ('elem', it[1]) or it[1] == k or KIND_SPEC.get(it[1], it[1]) == self.spec, 'element is parsed as ' + it[1])
                return
        cur = Cursor(e, st, st.trace, c0, dp)
        try:
            f = getattr(self, 'k_' + self.kind, None)
            if f is not None:
                f(st, o, cur)
            elif self.spec in LAYOUT:
                self.k_struct(st, o, cur)
            elif self.spec.startswith('num') or self.kind == 'octet':
                self.k_basic(st, o, cur, c1)
            else:
                e.note('no layout rule for ' + self.kind)
                return
            cur.end(c1, 'the ' + self.kind)
            e.prove(st, 'C05', True, '')
            e.prove(st, 'C10', True, '')
        except Mismatch as m:
            for c in m.cat.split('+'):
                e.prove(st, catof(c), False, m.why)

    def field(self, st, o, name, p, what):
        sp = self.specs.get(self.spec)
        v = fieldval(self.e, st, o, sp.byname[name])
        if v is UNDEF:
            raise Mismatch('init', '%s is not set' % what)
        if not isres(self.e, st, v, p):
            raise Mismatch('layout', '%s does not hold the element parsed for it' % what)

    def one(self, st, o, cur, name, kind, spec=None):
        what = '%s.%s' % (spec or self.spec, name)
        sp = self.specs.get(spec or self.spec)
        v = fieldval(self.e, st, o, sp.byname[name])
        if kind == 'objlist':
            return self.objlist(st, o, cur, name, v)
        it = cur.peek()
        if (it is None or it[0] != 'el' or not st.store.eq(it[2] - cur.pos)) and v is NULL and cur.skipbyte():
            cur.pos = cur.pos + 1
            return
        if kind.startswith('seq:') and it is not None and it[0] == 'el' and it[1] == 'seq:' + kind[4:]:
            pass
        p = cur.el((kind,), what)
        self.field(st, o, name, p, what)

    def k_struct(self, st, o, cur):
        lay = LAYOUT[self.spec]
        cur.tl('list', WIRE_COUNT.get(self.spec, len(lay)), self.spec)
        for name, kind in lay:
            self.one(st, o, cur, name, kind)

    def objlist(self, st, o, cur, name, v):
        what = '%s.%s' % (self.spec, name)
        it = cur.peek()
        if v is NULL:
            if it is not None and it[0] == 'tl' and it[1] == 'list' and st.store.eq(it[2] - cur.pos):
                n = cur.tl('list', None, what)
                if not st.store.ge(-n):
                    raise Mismatch('layout', '%s: the entries are lost' % what)
                return
            if cur.skipbyte():
                cur.pos = cur.pos + 1
                return
            raise Mismatch('layout', '%s is missing' % what)
        n = cur.tl('list', None, what)
        got = self.reps(st, cur, (('el', 'octet'),), what)
        if not st.store.eq(st.store.norm(n - got)):
            raise Mismatch('count', '%s is read with %r entries where %r are announced' % (what, got, n))

    def reps(self, st, cur, sig, what, each=None):
        """a run of equal groups; returns their number"""
        cnt = ZERO
        while True:
            it = cur.peek()
            if it is None:
                break
            if it[0] == 'rep':
                if not st.store.eq(it[4][2] - cur.pos):
                    break
                if it[2] != frozenset([sig]):
                    raise Mismatch('layout', '%s: the entries are not read as %s' % (what, sig))
                cur.i += 1
                cur.pos = it[5][3]
                cnt = cnt + it[3]
                continue
            if it[0] == sig[0][0] and it[1] == sig[0][1] and st.store.eq(it[2] - cur.pos):
                g = cur.items[cur.i:cur.i + len(sig)]
                if tuple(x[:2] for x in g) != sig:
                    break
                for x in g:
                    cur.at(x[2], what)
                    cur.pos = x[3]
                cur.i += len(sig)
                cnt = cnt + 1
                continue
            break
        return cnt

    def k_time(self, st, o, cur):
        it = cur.peek()
        if it is not None and it[0] == 'tl':
            cur.tl('list', 2, 'sml_time')
            self.one(st, o, cur, 'tag', 'u8')
        else:
            if not cur.skipbyte(0x65):
                raise Mismatch('layout+C22', 'a time without list header and tag is accepted although it is no 4-byte unsigned')
            sp = self.specs.get('sml_time')
            v = fieldval(self.e, st, o, sp.byname['tag'])
            ok = False
            if isinstance(v, Ptr):
                t = self.e.tagof(st, st.mem[v.oid], 1)
                ok = t is not None and st.store.eq(t - 1)
            if not ok:
                raise Mismatch('C22', 'a bare time is not taken as a second index')
        it = cur.peek()
        if it is not None and it[0] == 'tl':
            try:
                cur.tl('list', 3, 'a timestamp list')
                for k in ('u32', 'i16', 'i16'):
                    cur.el((k,), 'timestamp list')
            except Mismatch as m:
                raise Mismatch(m.cat + '+C22', m.why)
            v = fieldval(self.e, st, o, self.specs.get('sml_time').byname['data'])
            self.e.prove(st, 'C22', v is NULL or v is DEFAULT, 'a timestamp given as list is not left out')
            return
        self.one(st, o, cur, 'data', 'u32')

    def k_ppv(self, st, o, cur):
        cur.tl('list', 2, self.spec)
        self.tagged(st, o, cur, 'u8', 1, PPV_TAGS)

    def k_body(self, st, o, cur):
        cur.tl('list', 2, self.spec)
        self.tagged(st, o, cur, 'u32', 4, MSG_TAGS)

    def tagged(self, st, o, cur, kind, n, table):
        sp = self.specs.get(self.spec)
        fs = sorted(sp.fields.values(), key=lambda f: f.off)
        p = cur.el((kind,), self.spec + '.tag')
        if not isres(self.e, st, fieldval(self.e, st, o, fs[0]), p):
            raise Mismatch('layout', 'the tag does not hold the element parsed for it')
        if not (isinstance(p, Ptr) and p.oid in st.mem):
            raise Mismatch('C04', 'a missing tag is accepted')
        t = self.e.tagof(st, st.mem[p.oid], n)
        if t is None:
            raise Mismatch('C09', 'the tag is not kept')
        ks = [k for k in table if not st.store.neq(t - k)]
        it = cur.peek()
        if it is None or it[0] != 'el':
            raise Mismatch('C09+C04', 'for tag %s no data is parsed, but success is reported' % (('%#x' % ks[0]) if len(ks) == 1 else 'unknown'))
        cur.el((it[1],), 'data of ' + self.spec)
        for k in ks:
            if KIND_SPEC.get(it[1], it[1]) != table[k]:
                raise Mismatch('C09+layout', 'the data of tag %#x is parsed as %s instead of %s' % (k, KIND_SPEC.get(it[1], it[1]), table[k]))
            self.e.tags.add(k)
        if not ks:
            raise Mismatch('C09', 'data of an unknown tag is parsed as %s' % it[1])
        rest = st.copy()
        if all(rest.store.assume_ne(t - k) for k in ks) and rest.check() and not st.store.eq(t - ks[0]):
            raise Mismatch('C09', 'data of an unknown tag is parsed as %s' % it[1])
        if not isres(self.e, st, fieldval(self.e, st, o, fs[1]), it[4]):
            raise Mismatch('layout', 'the data does not hold the element parsed for it')

    def k_tree(self, st, o, cur):
        cur.tl('list', 3, 's_tree')
        self.one(st, o, cur, 'parameter_name', 'octet')
        self.one(st, o, cur, 'parameter_value', 'ppv')
        self.array(st, o, cur, 'child_list', 'child_list_len', 'tree', True)

    def k_treepath(self, st, o, cur):
        self.array(st, o, cur, 'path_entries', 'path_entries_len', 'octet', False)

    def array(self, st, o, cur, arr, ln, kind, opt):
        what = '%s.%s' % (self.spec, arr)
        sp = self.specs.get(self.spec)
        cnt = fieldval(self.e, st, o, sp.byname[ln])
        cnt = ZERO if cnt is NULL else cnt
        if not isinstance(cnt, Lin):
            raise Mismatch('init', 'the count of %s is not set' % what)
        it = cur.peek()
        if opt and it is None:
            if not cur.skipbyte():
                raise Mismatch('layout', '%s is missing, but not skipped' % what)
            cur.pos = cur.pos + 1
            if not st.store.eq(cnt):
                raise Mismatch('count', '%s is counted with %r entries although it is skipped' % (what, cnt))
            return
        n = cur.tl('list', None, what)
        got = self.reps(st, cur, (('el', kind),), what)
        if not st.store.eq(st.store.norm(n - got)) and not (st.store.ge(-n) and st.store.eq(got)):
            raise Mismatch('count', '%s is accepted with %r elements where %r are announced' % (what, st.store.norm(got), st.store.norm(n)))
        # an element that was marked as skipped (NULL) need not be stored; one that is stored nowhere would be a leak
        if not st.store.ge(st.store.norm(got - cnt)):
            raise Mismatch('count', '%s is counted with %r entries after %r elements' % (what, cnt, got))

    def k_list(self, st, o, cur):
        n = cur.tl('list', None, 'the list')
        sig = self.entry_sig()
        cnt = ZERO
        while True:
            it = cur.peek()
            if it is None:
                break
            if it[0] == 'rep':
                if it[2] != frozenset([sig]):
                    raise Mismatch('layout', 'list entries are read as %s' % '; '.join(
                        ' '.join(y[1] if isinstance(y, tuple) else y for y in x) for x in it[2] - {sig} if x != 'bad') or 'something else')
                cur.at(it[4][2], 'the first list entry')
                cur.i += 1
                cur.pos = it[5][3]
                cnt = cnt + it[3]
            elif it[0] == 'tl':
                g = cur.items[cur.i:cur.i + 1 + len(sig)]
                r = self.e.entry_group(st, tuple(x for x in g if x[0] not in OTHER)[:len(sig)])
                if r is not True:
                    raise Mismatch(*r)
                cur.at(it[2], 'list entry')
                k = 0
                while k < len(sig):
                    x = cur.peek()
                    cur.pos = x[3]
                    cur.i += 1
                    k += 1
                cnt = cnt + 1
            else:
                raise Mismatch('layout', 'a list continues with ' + cur.desc(it))
        if not st.store.eq(st.store.norm(n - cnt)):
            raise Mismatch('count', 'a list is accepted with %r entries where %r are announced' % (st.store.norm(cnt), st.store.norm(n)))
        ln = self.chainlen(st, o)
        if ln is None or not st.store.eq(st.store.norm(ln - cnt)):
            raise Mismatch('count', 'the returned list has %r entries after %r were read' % (ln, st.store.norm(cnt)))

    def chainlen(self, st, o):
        n = ZERO
        noff = self.specs.off('sml_list_entry', 'next')
        for _ in range(20):
            n = n + (o.size if o.kind == 'lseg' else ONE)
            c = o.cells.get(noff)
            v = self.e.nz(st, c[1]) if c is not None else NULL
            if v is NULL:
                return st.store.norm(n)
            if not isinstance(v, Ptr) or v.oid not in st.mem:
                return None
            o = st.mem[v.oid]
        return None

    def entry_sig(self):
        return ('tl',) + tuple(('el', k) for _, k in LAYOUT['sml_list_entry'])

    def k_basic(self, st, o, cur, c1):
        it = cur.peek()
        if it is None or it[0] != 'tl':
            raise Mismatch('layout', 'no type-length field is read')
        cur.at(it[2], 'the type-length field')
        cur.i += 1
        n = it[4]
        cur.pos = it[3] + n
        if not st.store.ge(n):
            raise Mismatch('C04', 'an element of negative length is accepted')
        if self.kind == 'octet':
            self.octets(st, o, cur, it[3], n)

    def octets(self, st, o, cur, at, n):
        """the string holds exactly the bytes after the header"""
        e = self.e
        sp = self.specs.get(self.spec)
        ln = fieldval(e, st, o, sp.byname['len'])
        ln = ZERO if ln is NULL else ln
        if not isinstance(ln, Lin) or not st.store.eq(e.sview(st, ln, 32) - n):
            raise Mismatch('C14', 'an octet string of %r bytes gets the length %r' % (n, ln))
        if not st.store.ge(n - 1):
            if st.store.eq(n):
                return
            raise Split([[('ge', n - 1)], [('eq', n)]])
        s = fieldval(e, st, o, sp.byname['str'])
        so = st.mem.get(s.oid) if isinstance(s, Ptr) else None
        if so is None:
            raise Mismatch('C14', 'an octet string has no content')
        j = st.sym('j', 0, None)
        st.store.add_ge(n - 1 - j)
        x = e.read(st, so, st.store.norm(s.off + j), 1, None, None)
        y = e.read(st, st.mem[cur.inp.oid], st.store.norm(at + j), 1, None, None)
        if not isinstance(x, Lin) or not isinstance(y, Lin) or not st.store.eq(st.store.norm(x - y)):
            raise Mismatch('C14', 'the content of an octet string is not the bytes of the element')
        e.prove(st, 'C14', True, '')

    def k_value(self, st, o, cur):
        it = cur.peek()
        sp = self.specs.get(self.spec)
        fs = sorted(sp.fields.values(), key=lambda f: f.off)
        if it is None or it[0] != 'el':
            raise Mismatch('layout', 'no element is read')
        cur.el((it[1],), 'the value')
        if not isres(self.e, st, fieldval(self.e, st, o, fs[1]), it[4]):
            raise Mismatch('layout', 'the %s does not hold the element parsed for it' % self.kind)
        t = fieldval(self.e, st, o, fs[0])
        t = ZERO if t is NULL else t
        if not isinstance(t, Lin):
            raise Mismatch('init', 'the type is not set')
        t = st.store.norm(self.e.uview(st, t, 8))
        k = it[1]
        want = {'octet': 0, 'bool': 0x40}.get(k)
        if want is None and k[0] in 'iu' and k[1:].isdigit():
            want = (0x50 if k[0] == 'i' else 0x60) + int(k[1:]) // 8
        if want is None or not st.store.eq(t - want):
            raise Mismatch('C09', 'an element parsed as %s gets the type %r' % (k, t))

    k_status = k_value

    def k_message(self, st, o, cur):
        lay = LAYOUT['sml_message']
        cur.tl('list', 6, 'sml_message')
        c0 = cur.items[0][2] if cur.items and cur.items[0][0] == 'tl' else cur.pos
        body = None
        crcs = []
        crcp = None
        for name, kind in lay:
            self.crcs(cur, crcs)
            if name == 'crc':
                body = cur.pos
            self.one(st, o, cur, name, kind)
        self.crcs(cur, crcs)
        self.message_crc(st, o, cur, crcs, c0, body, True)
        it = cur.peek()
        if it is None and st.store.ge(self.e.inlen - cur.pos - 1):
            # the byte that ends a message belongs to it
            v = self.e.read(st, st.mem[cur.inp.oid], st.store.norm(cur.pos), 1, None, None)
            if isinstance(v, Lin):
                v = self.e.uview(st, v, 8)
                if st.store.eq(v):
                    cur.pos = cur.pos + 1
                elif not st.store.ge(v - 1):
                    sp = Split([[('ge', v - 1)], [('eq', v)]])
                    sp.mut = True
                    raise sp

    def crcs(self, cur, out):
        while True:
            it = cur.peek()
            if it is None or it[0] != 'crc':
                return
            out.append(it)
            cur.i += 1

    def message_crc(self, st, o, cur, crcs, c0, body, good):
        e = self.e
        sp = self.specs.get('sml_message')
        v = fieldval(e, st, o, sp.byname['crc'])
        if not isinstance(v, Ptr) or v.oid not in st.mem or st.mem[v.oid].mnull is not None:
            e.prove(st, 'C07', False, 'a message without checksum is delivered')
            return
        x = e.tagof(st, st.mem[v.oid], 2)
        ok = False
        for c in crcs:
            if c[2].oid == cur.inp.oid and st.store.eq(c[2].off - c0) and st.store.eq(c[3] - (body - c0)) and x is not None \
                    and st.store.eq(x - c[4]):
                ok = True
        e.prove(st, 'C07', ok, 'a message is delivered although its checksum was not found equal to the checksum of exactly the bytes before the checksum field')

    def message_dropped(self, st, cur, dp, c0, c1):
        """no message, no error: only for a complete message whose checksum is wrong"""
        e = self.e
        try:
            cur.tl('list', 6, 'sml_message')
            crcs = []
            x = None
            body = None
            for name, kind in LAYOUT['sml_message']:
                self.crcs(cur, crcs)
                if name == 'crc':
                    body = cur.pos
                p = cur.el((kind,), name)
                if name == 'crc':
                    x = p
            self.crcs(cur, crcs)
        except Mismatch as m:
            e.prove(st, 'C04', False, 'a message is dropped without an error although it is not complete (%s)' % m.why)
            return
        ks = set()
        for c in crcs:
            if c[2].oid == dp.oid and st.store.eq(c[2].off - c0) and st.store.eq(c[3] - (body - c0)):
                if isinstance(x, Ptr) and x.oid in st.mem:
                    t = e.tagof(st, st.mem[x.oid], 2)
                    if t is not None and st.store.neq(t - c[4]):
                        ks.add(c[1])
                elif x.oid not in st.nulled:
                    ks.add(c[1])
        e.prove(st, 'C07', ks == {'x25', 'kermit'}, 'a message is dropped although not both of its possible checksums were found to be wrong')


def whycat(w, mode):
    if 'not initialised' in w or 'not set' in w:
        return 'C03'
    if 'released' in w or 'twice' in w or 'gone' in w or 'not an own' in w or 'not its own' in w or 'instead of' in w and mode == 'free' or 'middle' in w:
        return 'C02'
    if 'missing' in w:
        return 'C04'
    if 'counts' in w:
        return 'C05'
    return 'C09'


def catof(c):
    return {'layout': 'C10', 'gap': 'C05', 'count': 'C05', 'init': 'C03'}.get(c, c)


class ParseEngine(RootEngine):
    def __init__(self, *a):
        RootEngine.__init__(self, *a)
        self.tags = set()
        self.reason = None

    def merge_vals(self, outs, *a):
        if self.reason is not None and len(outs) > 1:
            for s, v in outs:
                self.reason(s)
        return RootEngine.merge_vals(self, outs, *a)

    def entry_group(self, st, ev):
        lay = LAYOUT['sml_list_entry']
        sp = self.specs.get('sml_list_entry')
        ev = [x for x in ev if x[0] not in OTHER]
        if len(ev) != 1 + len(lay) or ev[0][0] != 'tl' or ev[0][1] != 'list':
            return ('layout', 'a list entry is read as ' + ' '.join(x[0] if x[0] != 'el' else x[1] for x in ev))
        if not st.store.eq(ev[0][4] - len(lay)):
            return ('layout+count', 'a list entry is accepted with %r elements' % st.store.norm(ev[0][4]))
        pos = ev[0][3]
        holder = None
        for (name, kind), x in zip(lay, ev[1:]):
            if x[0] != 'el' or x[1] != kind:
                return ('layout', 'sml_list_entry.%s is read as %s instead of %s' % (name, x[1], kind))
            if not st.store.eq(x[2] - pos):
                return ('gap', 'sml_list_entry.%s does not follow directly on the element before it' % name)
            pos = x[3]
            p = x[4]
            if isinstance(p, Ptr):
                hs = set()
                for o in st.mem.values():
                    if o.freed:
                        continue
                    for a, (s, v) in o.cells.items():
                        if isinstance(v, Ptr) and v.oid == p.oid and o.kind == 'heap':
                            hs.add((o.oid, a))
                hs = {h for h in hs if holder is None or h[0] == holder}
                if (holder, sp.byname[name].off) in hs:
                    pass
                elif holder is None and len(hs) == 1 and list(hs)[0][1] == sp.byname[name].off:
                    holder = list(hs)[0][0]
                elif p.oid in st.nulled and not hs:
                    pass
                else:
                    return ('layout', 'sml_list_entry.%s does not hold the element parsed for it' % name)
        return True

    def group_events(self, st, ev, rep):
        sig, pay = Engine.group_events(self, st, ev, rep)
        # every round must continue where the one before ended
        ch = [x for x in ev if x[0] in ('el', 'tl')]
        pos = rep[5][3] if rep and len(rep) > 5 and rep[5][0] in ('el', 'tl') else None
        for x in ch:
            if pos is not None and not st.store.eq(x[2] - pos):
                self.prove(st, 'C05', False, 'an element read in a loop does not follow directly on the one before it')
            pos = x[3]
        if ch:
            pay = (ch[0], ch[-1])
        if ch and ch[0][0] == 'tl' and len(ch) > 2:
            r = self.entry_group(st, ch)
            if r is True:
                self.prove(st, 'C10', True, '')
            else:
                for c in r[0].split('+'):
                    self.prove(st, catof(c), False, r[1])
        sig = tuple(x[:2] if x[0] == 'el' else x[0] for x in ch)
        return sig, pay


def subanalysis(prog, specs, fn, what):
    if what[0] == 'parse':
        e = ParseEngine(prog, specs, fn.name, {'rootfn': fn, 'time': 60, 'mode': 'parsed'})
        st = fresh_state()
        bp, dp, L, c0 = mkinput(e, st)
        e.inlen = L
        res = set()
        for s, v in e.exec_fn(fn, [bp], st):
            v = e.nz(s, v)
            if isinstance(v, Ptr) and v.oid in s.mem:
                o = s.mem[v.oid]
                if o.freed:
                    continue
                res.add(o.base[1] if o.base[0] == 'typed' else o.hint)
        return res.pop() if len(res) == 1 else None
    if what[0] == 'free':
        e = RootEngine(prog, specs, fn.name, {'rootfn': fn, 'time': 60, 'mode': 'free'})
        st = fresh_state()
        p = e.typed(st, what[1], 'free', mnull=())
        try:
            outs = e.exec_fn(fn, [p], st)
        except Incomplete:
            return True
        if e.findings or not outs:
            return False
        for s, v in outs:
            if p.oid in s.nulled:
                continue
            if p.oid in s.mem and not s.mem[p.oid].freed:
                return bool(s.lossy)
        return True
    if what[0] == 'write':
        from .wroots import WriteRoot
        r = WriteRoot(prog, specs, fn, SPEC_KIND.get(what[1], what[1]), what[1], {'time': 60, 'soft': 4})
        try:
            r.run()
        except Incomplete:
            return True
        for f in r.e.findings.values():
            if not f.lossy:
                return f.msg
    return True
