"""Workarounds for broken meters: what they may change, and when."""
from .core import *
from .spec import *
from .roots import ParseEngine, ParseRoot, fieldval

POWER = (1, 0, 16, 7, 0, 255)
SERIAL = (1, 0, 96, 1, 0, 255)
DZG = (0x0a, 0x01, 0x44, 0x5a, 0x47)
RANGES = ((42000000, 48999999), (55000000, 58999999))
INTEGER, UNSIGNED, OCTETS = 0x50, 0x60, 0x00


class ListEngine(ParseEngine):
    """$v, $vc: value of the entry at hand and the position it was read from; $vt: its type before the first change;
    $dzg: an earlier entry of the list holds the serial number of one of the broken meters"""

    CONSTLOOPS = True

    def ghosts0(self, st):
        self.reset(st)
        st.ghosts['$dzg'] = False

    def check(self, st, ok, msg, ins=None):
        self.oblig['C22'] = self.oblig.get('C22', 0) + 1
        if not ok:
            self.report(st, 'C22', ins, msg)
        return ok

    def parse_contract(self, st, bp, kind, spec, ins, nullable, elem=None):
        if kind == 'value' and '$v' in st.ghosts:
            c = self.bufview(st, bp, ins).c
            outs = ParseEngine.parse_contract(self, st, bp, kind, spec, ins, nullable, elem)
            for s, p in outs:
                if s.trace and s.trace[-1][0] == 'el' and s.trace[-1][4] is p:
                    self.reset(s)
                    s.ghosts['$v'], s.ghosts['$vc'] = p, c
            return [(s2, p) for s, p in outs for s2 in self.lengths(s)]
        return ParseEngine.parse_contract(self, st, bp, kind, spec, ins, nullable, elem)

    def lengths(self, st):
        """a value that is there and one that is not are told apart at once; when a broken meter is known, also in how
        many bytes the value was sent"""
        g = st.ghosts
        p = g['$v']
        if not isinstance(p, Ptr) or p.oid in st.nulled:
            self.reset(st)
            return [st]
        out = []
        if st.mem[p.oid].mnull is not None:
            s = st.copy()
            if s.assume(('null', p.oid)):
                self.reset(s)
                out.append(s)
            if not st.assume(('nonnull', p.oid)):
                return out
        if g['$dzg'] is not True:
            return out + [st]
        d = st.mem[g['$in'].oid]
        x = self.uview(st, self.read(st, d, st.store.norm(g['$vc']), 1, None, None), 8)
        l = self.andc(st, x, 0x8f, 8)
        for k in range(5):
            s = st.copy()
            if s.assume(('eq', l - k) if k < 4 else ('ge', l - 4)):
                s.ghosts['$len'] = k
                out.append(s)
        return out

    def on_write(self, st, o, off, size, v, ins):
        ParseEngine.on_write(self, st, o, off, size, v, ins)
        p = st.ghosts.get('$v')
        if not isinstance(p, Ptr) or p.oid not in st.mem:
            return
        sp = self.specs.get('sml_value')
        ft = sp.byname['type']
        if o.oid == p.oid:
            if st.store.eq(off - ft.off) and st.store.eq(size - ft.size):
                if st.ghosts['$vt'] is None:
                    t = self.num0(self.read(st, o, C(ft.off), ft.size, None, ins))
                    st.ghosts['$vt'] = self.uview(st, t, 8 * ft.size) if isinstance(t, Lin) else None
                    self.check(st, isinstance(t, Lin), 'the type of a parsed value is replaced', ins)
                    h = self.holder(st)
                    if h is not None:
                        self.fact(st, 'power', *h)
                st.ghosts['$change'] = None
            else:
                self.check(st, False, 'the content of a parsed value is changed', ins)
            return
        for a, (s, x) in st.mem[p.oid].cells.items():
            if isinstance(x, Ptr) and x.oid == o.oid:
                self.check(st, False, 'the content of a parsed value is changed', ins)

    # ---- facts about an entry; each may ask for a case distinction
    def ask(self, st, atom):
        k, x = atom
        x = st.store.norm(x)
        s = st.store
        if k == 'eq':
            r = True if s.eq(x) else False if s.neq(x) else None
            no = ('ne', x)
        else:
            r = True if s.ge(x) else False if s.ge(-x - 1) else None
            no = ('ge', -x - 1)
        if r is None:
            raise Split([[(k, x)], [no]])
        return r

    @staticmethod
    def num0(v):
        return ZERO if v is NULL else v

    def ptr(self, st, v):
        v = self.nz(st, v)
        if isinstance(v, Ptr) and v.oid in st.mem and st.mem[v.oid].mnull is not None:
            raise Split([[('nonnull', v.oid)], [('null', v.oid)]])
        if isinstance(v, Ptr) and v.oid in st.nulled:
            return NULL
        return v

    def cell(self, st, o, f):
        return self.read(st, o, C(f.off), f.size, None, None)

    def octets(self, st, v, n):
        """bytes of an octet string of exactly n bytes, or None"""
        v = self.ptr(st, v)
        if not isinstance(v, Ptr) or v.oid not in st.mem or st.mem[v.oid].freed:
            return None
        sp = self.specs.get('octet_string')
        o = st.mem[v.oid]
        ln = self.num0(self.cell(st, o, sp.byname['len']))
        if not isinstance(ln, Lin) or not self.ask(st, ('eq', self.sview(st, ln, 32) - n)):
            return None
        d = self.ptr(st, self.cell(st, st.mem[v.oid], sp.byname['str']))
        if not isinstance(d, Ptr):
            return None
        r = []
        for k in range(n):
            x = self.read(st, st.mem[d.oid], st.store.norm(d.off + k), 1, None, None)
            if not isinstance(x, Lin):
                return None
            r.append(self.uview(st, x, 8))
        return r

    def same(self, st, bts, ref):
        ds = [st.store.norm(x - k) for x, k in zip(bts, ref)]
        if all(st.store.eq(d) for d in ds):
            return True
        if any(st.store.neq(d) for d in ds):
            return False
        key = ('mc',) + tuple(ds)
        if st.memo.get(key) is not None or st.memo.get(('mc',) + tuple(st.store.norm(-d) for d in ds)) is not None:
            return False

        def differ(s):
            s.memo[key] = ONE
            return True
        und = [d for d in ds if not st.store.eq(d)]
        raise Split([[('eq', d) for d in ds], [differ] + ([('ne', und[0])] if len(und) == 1 else [])])

    def named(self, st, E, name):
        b = self.octets(st, self.cell(st, st.mem[E], self.specs.get('sml_list_entry').byname['obj_name']), 6)
        return b is not None and self.same(st, b, name)

    def vtype(self, st, p):
        ft = self.specs.get('sml_value').byname['type']
        t = st.ghosts['$vt']
        if t is None:
            t = self.num0(self.read(st, st.mem[p.oid], C(ft.off), ft.size, None, None))
            t = self.uview(st, t, 8 * ft.size) if isinstance(t, Lin) else UNDEF
        return t

    def content(self, st, p):
        d = self.read(st, st.mem[p.oid], C(self.specs.get('sml_value').byname['data'].off), 8, None, None)
        return self.octets(st, d, 10)

    def inrange(self, st, p):
        b = self.content(st, p)
        if b is None:
            return False
        n = ZERO
        for x in b[5:]:
            n = n * 256 + x
        return any(self.ask(st, ('ge', n - lo)) and self.ask(st, ('ge', C(hi) - n)) for lo, hi in RANGES)

    def start(self, st, p):
        b = self.content(st, p)
        return b is not None and self.same(st, b[:5], DZG)

    def serial(self, st, E, p):
        """does the entry hold the serial number of a broken meter?"""
        isoct = lambda s: isinstance(self.vtype(s, p), Lin) and self.ask(s, ('eq', self.vtype(s, p) - OCTETS))
        return self.all(st, (lambda s: self.named(s, E, SERIAL), isoct,
                             lambda s: isoct(s) and self.start(s, p), lambda s: isoct(s) and self.inrange(s, p)))

    def power(self, st, E, p):
        """is it a reading that the defect falsifies?"""
        def isint(s):
            t = self.vtype(s, p)
            return isinstance(t, Lin) and self.ask(s, ('eq', self.andc(s, t, 0x70, 8) - INTEGER))

        def short(s):
            return s.ghosts['$len'] in (1, 2, 3)
        return self.all(st, (lambda s: self.named(s, E, POWER), isint, short))

    def change(self, st, E, p):
        ft = self.specs.get('sml_value').byname['type']
        new = self.num0(self.read(st, st.mem[p.oid], C(ft.off), ft.size, None, None))
        if not isinstance(new, Lin):
            return 'other'
        new = self.uview(st, new, 8 * ft.size) - st.ghosts['$vt']
        return 'none' if self.ask(st, ('eq', new)) else 'unsigned' if self.ask(st, ('eq', new - (UNSIGNED - INTEGER))) else 'other'

    def all(self, st, conds):
        """conjunction; a case distinction is asked for only if no part is already false"""
        sp = None
        for c in conds:
            try:
                if not c(st):
                    return False
            except Split as x:
                sp = sp or x
        if sp is not None:
            raise sp
        return True

    def holder(self, st):
        """(entry, value) at hand, if there is one with a value"""
        g = st.ghosts
        p = g.get('$v')
        if isinstance(p, Ptr) and p.oid in st.mem and not st.mem[p.oid].freed:
            fv = self.specs.get('sml_list_entry').byname['value']
            hs = [o.oid for o in st.mem.values() if not o.freed and o.kind == 'heap' and o.hint in (None, 'sml_list_entry')
                  and isinstance(o.cells.get(fv.off, (8, None))[1], Ptr) and o.cells[fv.off][1].oid == p.oid]
            if len(hs) == 1:
                return hs[0], p
        return None

    def fact(self, st, name, E, p):
        """a fact found out earlier stays; a path on which it has become the opposite meanwhile does not exist (nothing
        it depends on is ever changed), it is only left over from a join"""
        g = st.ghosts
        if g['$' + name] is None:
            g['$' + name] = getattr(self, name)(st, E, p)
        elif name != 'change':
            try:
                now = getattr(self, name)(st.copy(), E, p)
            except Split:
                now = g['$' + name]
            if now != g['$' + name]:
                raise Kill()
        return g['$' + name]

    def mark(self, st):
        """what is known about the entry at hand is kept apart when paths meet"""
        g = st.ghosts
        if g.get('$v') is None or '$dzg' not in g:
            return
        for name in ('serial',) + (('power',) if g['$dzg'] or g['$vt'] is not None else ()) + (('change',) if g['$vt'] is not None else ()):
            if g['$' + name] is None:
                s = st.copy()
                try:
                    h = self.holder(s)
                    if h is not None:
                        g['$' + name] = getattr(self, name)(s, *h)
                except Split:
                    pass

    def normalize(self, st, *a):
        self.mark(st)
        return ParseEngine.normalize(self, st, *a)

    def pre_merge(self, st, v):
        self.mark(st)
        return ParseEngine.pre_merge(self, st, v)

    def entry(self, st):
        """the entry at hand is complete"""
        h = self.holder(st)
        if h is not None:
            self.judge(st, *h)
        self.reset(st)

    def reset(self, st):
        g = st.ghosts
        g['$v'], g['$vc'], g['$vt'], g['$serial'], g['$power'], g['$change'], g['$len'] = None, ZERO, None, None, None, None, None

    def judge(self, st, E, p):
        g = st.ghosts
        if g['$vt'] is not None or g['$dzg']:
            ch = self.fact(st, 'change', E, p) if g['$vt'] is not None else 'none'
            want = g['$dzg'] and self.fact(st, 'power', E, p)
            if ch != 'none':
                self.check(st, want, 'a parsed value is re-marked although it is no power reading of a meter with the DZG defect')
                self.check(st, not want or ch == 'unsigned', 'the type of a parsed value is changed to something else than unsigned')
            else:
                self.check(st, not want, 'a power reading of a meter with the DZG defect is not corrected')
        if not g['$dzg']:
            g['$dzg'] = self.fact(st, 'serial', E, p)

    def at_back(self, st, fn, head, kname):
        if len(st.loopmarks) > 1 or '$v' not in st.ghosts:
            return ParseEngine.at_back(self, st, fn, head, kname)
        out, work = [], [st]
        while work:
            s = work.pop()
            try:
                self.entry(s)
            except Split as sp:
                work.extend(self.split(s, sp))
                continue
            except Kill:
                continue
            ParseEngine.at_back(self, s, fn, head, kname)
            out.append(s)
        return out


class ListRoot(ParseRoot):
    ENGINE = ListEngine

    def begin(self, st, dp):
        self.e.ghosts0(st)
        st.ghosts['$in'] = dp

    def exit(self, st, v, bp, dp, L, c0, dirty):
        if not dirty:
            try:
                self.e.entry(st)
            except Kill:
                return None
        return ParseRoot.exit(self, st, v, bp, dp, L, c0, dirty)
