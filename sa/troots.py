"""The transport layer: frames read from and written to a file descriptor.

The device is one endless sequence of bytes (object $sobj, read position $pos).  What has been read is followed by the automaton that
recognises the start sequence ($q, the length of the longest suffix of the bytes read that is a prefix of it); $start is the position at
which the first complete start sequence begins, and $chk the position up to which the groups of four bytes behind it are known not to be
an escape sequence."""
from .core import *
from .spec import *
from .engine import Incomplete
from .roots import RootEngine, fresh_state, decide, cond, fieldval, MAXIN, Mismatch
from .xroots import Root, same_bytes, ptrty
from . import wroots

EINTR, EAGAIN = 4, 11
ESC, VER, END = 0x1b, 0x01, 0x1a


class StreamEngine(RootEngine):
    MAXCLASS = 200
    search = True

    def partition(self, st, slots):
        return tuple(sorted((n, k, v.c) for n, fr in enumerate(st.frames) for k, v in fr.items()
                            if isinstance(v, Lin) and not v.t and 0 <= v.c <= 8))

    def peelmode(self, cls, slots, changed, kname):
        return bool(cls.get('decided')) and RootEngine.peelmode(self, cls, slots, changed, kname)

    def on_vla(self, st, size, ins):
        """sized by the caller"""
        self.oblig['C24'] = self.oblig.get('C24', 0) + 1
        ent = self.opts.get('vlabound')
        if ent is not None and not st.store.ge(ent - size):
            self.report(st, 'vla', ins, 'a stack block is larger than the size the caller allows', ent - size)

    def arith(self, st, i, a, b):
        if i.op == 'shl' and isinstance(a, Lin) and isinstance(b, Lin) and st.store.norm(b).t:
            v = self.opaque(st, 'shl', i.ty.n, st.store.norm(a), st.store.norm(b))      # the bit of a descriptor in a set
            if st.store.norm(a) == C(1) and st.store.ge(b) and st.store.ge(C(i.ty.n - 1) - b):
                st.store.add_ge(v - 1)
            return v
        return RootEngine.arith(self, st, i, a, b)

    def pending(self, st):
        """settle what followed on a failed read"""
        l = st.ghosts.get('$last')
        if isinstance(l, tuple) and l[0] == 'err':
            en = l[1]
            if st.store.eq(en - EINTR) or st.store.eq(en - EAGAIN):
                st.ghosts['$last'] = 'again'
            elif st.store.neq(en - EINTR) and st.store.neq(en - EAGAIN):
                st.ghosts['$last'] = 'failed'

    def holds_fd(self, x, fd, depth=0):
        """x is a word of a descriptor set that contains the bit of fd"""
        if not isinstance(x, Lin) or len(x.t) != 1 or x.c or x.t[0][1] != 1 or depth > 8:
            return False
        d = DEF.get(x.t[0][0])
        if d is None:
            return False
        if d[0] == 'shl':
            return d[2] == C(1) and d[3] == fd
        return d[0] == 'or' and any(self.holds_fd(y, fd, depth + 1) for y in d[2:4])

    def b_select(self, st, a, ins):
        """a wait for input has to be a wait for the descriptor that is then read"""
        fd = st.ghosts.get('$fd')
        if fd is None:
            return st.sym('ready', -1, 64)
        n = self.num(st, a[0], 32, ins, signed=True)
        self.prove_at(st, 'C18', st.store.ge(n - fd - 1), ins, 'the wait for input does not include the descriptor that is read (first argument of select)')
        p = self.nz(st, a[1])
        self.prove_at(st, 'C18', isinstance(p, Ptr), ins, 'the wait for input has no set of descriptors to read from')
        if not isinstance(p, Ptr):
            raise Kill()
        self.target(st, p, ins, 'write', C(8))
        x = self.read(st, st.mem[p.oid], p.off, 8, None, None)
        if isinstance(x, Lin) and self.holds_fd(st.store.norm(x), st.store.norm(fd)):
            self.prove_at(st, 'C18', True, ins, '')
        elif isinstance(x, Lin) and st.store.eq(x):
            self.prove_at(st, 'C18', False, ins, 'the wait for input is for an empty set of descriptors')
        elif x is UNDEF or isinstance(x, Lin) and any(y is UNDEF for t in x.t for y in (DEF.get(t[0]) or ())):
            self.prove_at(st, 'C18', False, ins, 'the set of descriptors waited for has not been initialised')
        else:
            st.lose('the set of descriptors waited for is not known')
        if len(a) > 4 and self.nz(st, a[4]) is not NULL:
            idle = st.copy()
            o = idle.wobj(p.oid)
            o.base, o.log, o.cells = ('zero',), None, {}
            return [(st, st.sym('ready', -1, 64)), (idle, ZERO)]
        return st.sym('ready', -1, 64)

    def sysread(self, st, a, ins):
        fd = self.num(st, a[0], 32, ins, signed=True)
        n = self.num(st, a[2], 64, ins, 'length')
        if not st.store.ge(n - 1):
            if st.store.ge(-n):
                return [(st, ZERO)]
            raise Split([[('ge', n - 1)], [('ge', -n)]])
        if st.ghosts.get('$esc') and self.search and st.store.ge(st.ghosts['$pos'] - st.ghosts['$chk'] - 8):
            self.report(st, 'C16', ins, 'reading goes on behind the escape sequence that ends the frame')
            raise Kill()
        l = st.ghosts.get('$last')
        if isinstance(l, tuple) and l[0] == 'err':
            en = l[1]
            if not (st.store.eq(en - EINTR) or st.store.eq(en - EAGAIN)):
                if st.store.neq(en - EINTR) and st.store.neq(en - EAGAIN):
                    st.ghosts['$last'] = 'failed'
                else:
                    raise Split([[('eq', en - EINTR)], [('eq', en - EAGAIN)], [('ne', en - EINTR), ('ne', en - EAGAIN)]])
        l = st.ghosts.get('$last')
        self.prove_at(st, 'C18', l not in ('eof', 'failed'), ins, 'reading goes on after %s' % ('the end of the input' if l == 'eof' else 'a read error'))
        if l in ('eof', 'failed'):
            raise Kill()
        self.prove_at(st, 'C18', st.store.eq(fd - st.ghosts['$fd']), ins, 'another descriptor is read')
        self.target(st, a[1], ins, 'write', n)
        self.on_write(st, st.mem[a[1].oid], a[1].off, n, 'read', ins)
        off = st.store.norm(a[1].off)
        outs = []
        bad = st.copy()
        er = self.b_errno_location(bad, [], ins)
        en = bad.sym('errno', 1, 200)
        self.write(bad, er.oid, ZERO, 4, en)
        bad.ghosts['$last'] = ('err', en)
        outs.append((bad, C(-1)))
        eof = st.copy()
        eof.ghosts['$last'] = 'eof'
        outs.append((eof, ZERO))
        st.ghosts['$last'] = None
        if st.ghosts.get('$q', 8) < 8 and not n.t and n.c <= 4:
            # byte by byte, followed by the automaton
            for r in range(1, n.c + 1):
                outs.extend((s, C(r)) for s in self.sread(st.copy(), a[1].oid, off, r))
            return outs
        if st.ghosts.get('$q', 8) < 8:
            st.lose('the start sequence is searched for in blocks')
            st.ghosts['$q'] = 8
            st.ghosts['$start'] = st.ghosts['$chk'] = st.sym('start', 0, None)
        self.advance(st)
        pos = st.ghosts['$pos']
        work = [st]
        if self.search and st.ghosts.get('$esc') and st.store.eq(pos - st.ghosts['$chk'] - 4):
            # the byte that tells what the escape sequence means
            x = self.sbytes(st, pos, 1)[0]
            work = []
            for alt, k in (([('eq', x - END)], 'end'), ([('ge', x - END - 1)], 'above'), ([('ge', -x + END - 1)], 'below')):
                t = st.feasible(alt)
                if t is not None:
                    t.ghosts['$fin'] = k
                    t.wobj(t.ghosts['$sobj'].oid).log = [('c', pos, 1, t.store.norm(x))]
                    work.append(t)
        for t in work:
            r = t.sym('r', 1, None)
            t.store.add_ge(n - r)
            r = t.store.norm(r)
            self.write_region(t, a[1].oid, off, off + r, 'copy', (t.mem[t.ghosts['$sobj'].oid], pos))
            t.ghosts['$pos'] = t.store.norm(pos + r)
            outs.append((t, r))
        return outs

    def sread(self, st, oid, off, r):
        """r bytes from the device, with the cases the automaton tells apart"""
        work = [st]
        cid = st.mem[st.ghosts['$sobj'].oid].base[1]
        for k in range(r):
            nxt = []
            for s in work:
                pos = s.ghosts['$pos']
                b = s.byte(cid, pos)
                s.ghosts['$pos'] = s.store.norm(pos + 1)
                q = s.ghosts['$q']
                if q >= 8:
                    self.write(s, oid, off + k, 1, b)
                    nxt.append(s)
                    continue
                for alt, q2 in (([('eq', b - ESC)], q + 1 if q < 4 else 4 if q == 4 else 1),
                                ([('eq', b - VER)], q + 1 if q >= 4 else 0),
                                ([('ne', b - ESC), ('ne', b - VER)], 0)):
                    t = s.feasible(alt)
                    if t is None:
                        continue
                    self.write(t, oid, off + k, 1, t.store.norm(b))
                    t.ghosts['$q'] = q2
                    if q2 == 8:
                        t.ghosts['$start'] = t.store.norm(t.ghosts['$pos'] - 8)
                        t.ghosts['$chk'] = t.ghosts['$pos']
                    nxt.append(t)
            work = nxt
        return work

    def prove_at(self, st, cat, ok, ins, msg):
        self.oblig[cat] = self.oblig.get(cat, 0) + 1
        if not ok:
            self.report(st, cat, ins, msg)

    # ---- groups of four behind the start sequence
    def sbytes(self, st, at, n=4):
        o = st.mem[st.ghosts['$sobj'].oid]
        return [self.uview(st, self.read(st, o, st.store.norm(at + k), 1, None, None), 8) for k in range(n)]

    def group(self, st, at):
        """'esc', 'other' or None for the group at stream position at"""
        xs = self.sbytes(st, at)
        if all(st.store.eq(x - ESC) for x in xs):
            return 'esc'
        if any(st.store.neq(x - ESC) for x in xs):
            return 'other'
        ds = {st.store.norm(x - ESC) for x in xs} | {st.store.norm(-x + ESC) for x in xs}
        for k in st.memo:
            if k[0] == 'mc' and len(k) <= 5 and all(st.store.norm(d) in ds for d in k[1:]):
                return 'other'
        return None

    def advance(self, st):
        if st.ghosts.get('$start') is None or not self.search:
            return
        for _ in range(40):
            if st.ghosts.get('$esc'):
                return
            if not st.store.ge(st.ghosts['$pos'] - st.ghosts['$chk'] - 4):
                return
            g = self.group(st, st.ghosts['$chk'])
            if g == 'esc':
                st.ghosts['$esc'] = 1
            elif g == 'other':
                st.ghosts['$chk'] = st.store.norm(st.ghosts['$chk'] + 4)
            else:
                return

    def signature(self, st):
        """everything the program knows at a loop head apart from the content of big blocks"""
        def val(v):
            if isinstance(v, Lin):
                v = st.store.norm(v)
                return ('n', v.c, tuple(sorted((str(s).split('.')[0], k) for s, k in v.t)))
            if isinstance(v, Ptr):
                o = st.mem.get(v.oid)
                return ('p', o.kind if o else None, o.name if o else None) + val(v.off)
            return (str(type(v).__name__), str(v) if isinstance(v, (bool, Fn)) else '')
        r = []
        for fr in st.frames:
            r.append(tuple((k, val(fr[k])) for k in sorted(fr)))
        for o in sorted((o for o in st.mem.values() if o.kind == 'stack' and not o.freed and o.size is not None and not st.store.norm(o.size).t
                         and st.store.norm(o.size).c <= 64), key=lambda o: (o.name or '', o.oid)):
            r.append((o.name, tuple((a, c[0], val(c[1])) for a, c in sorted(o.cells.items())), len(o.log or ())))
        return tuple(r)

    def missed(self, st, fn, kname):
        """a start sequence has just been completed, but the program is in the same state as somewhere in the search for one"""
        if not self.search or len(st.loopmarks) != 1 or st.ghosts.get('$started'):
            return
        a = self.__dict__.setdefault('searching', {}).setdefault(kname, set())
        b = self.__dict__.setdefault('found', {}).setdefault(kname, {})
        sig = self.signature(st)
        if st.ghosts['$start'] is None:
            a.add(sig)
        elif st.store.eq(st.ghosts['$pos'] - st.ghosts['$start'] - 8):
            b[sig] = st
            self.oblig['C16'] = self.oblig.get('C16', 0) + 1
        for s in a & set(b):
            self.prove(b.pop(s), 'C16', False, 'a start sequence is passed over because of what precedes it')
            if st.ghosts['$start'] is not None:
                raise Kill()

    def at_back(self, st, fn, head, kname):
        self.pending(st)
        self.advance(st)
        self.missed(st, fn, kname)
        for oid in list(st.mem):
            o = st.mem[oid]
            if o.log is not None and len(o.log) > 24 and not o.freed and o.base[0] in ('op', 'zero', 'fill') and all(
                    en[0] == 'r' and en[3] in ('init', 'copy', 'fill') or en[0] == 'c' and isinstance(en[3], Lin) for en in o.log):
                # blocks written to all over again: only that they are initialised is kept
                o = st.wobj(oid)
                o.base, o.log, o.cells = ('op', new_cid()), [], {}
        if self.search and st.ghosts['$start'] is None and len(st.loopmarks) == 1:
            # nothing but the state of the automaton and the bytes of the prefix found matter
            q = st.ghosts['$q']
            if st.ghosts['$last'] == 'again':
                st.ghosts['$last'] = None
            st.ghosts['$pos'] = st.sym('pos', 0, 1 << 40)
            st.ghosts[kname] = st.sym('rounds', 0, None)
            er = st.wobj(st.ghosts['$errno'])
            er.base = ('op', new_cid())
            er.cells = {}
            er.log = None
            for oid in list(st.mem):
                self.prefix_only(st, oid, q)
            self.compact(st, limit=0)


    def prefix_only(self, st, oid, q):
        """forget the content of a big block but for its first q bytes"""
        o = st.mem[oid]
        if o.kind not in ('heap', 'stack') or o.freed or o.size is None or not (o.size.t or o.size.c > 64):
            return
        if o.base[0] not in ('zero', 'fill', 'op') or any(not isinstance(v, Lin) for n, v in o.cells.values()):
            return
        known = {a: c[1] for a, c in o.cells.items() if c[0] == 1}
        for en in o.log or ():
            if en[0] == 'r' and en[3] in ('init', 'fill', 'copy'):
                known = {}
            elif en[0] == 'c' and isinstance(en[3], Lin):
                at = st.store.norm(en[1])
                if at.t:
                    known = {}
                elif en[2] == 1:
                    known[at.c] = en[3]
                else:
                    for k in range(en[2]):
                        known.pop(at.c + k, None)
            else:
                return
        w = st.wobj(oid)
        w.base = ('op', new_cid())
        known = {a: st.store.norm(v) for a, v in known.items() if a < q}
        if o.log is None:
            w.cells = {a: (1, v) for a, v in known.items()}
        else:
            w.log = [('c', C(a), 1, known[a]) for a in sorted(known)]
            w.cells = {}


class StreamRoot(Root):
    def engine(self):
        return StreamEngine

    def state(self, search):
        st = fresh_state()
        s = Obj('stream', None, ('op', new_cid()), 'device')
        s.attrs['borrowed'] = s.attrs['input'] = 1
        st.ghosts['$sobj'] = st.add(s)
        st.ghosts['$pos'] = st.sym('pos', 0, 1 << 40)
        st.ghosts['$fd'] = st.sym('fd', 0, 63)
        st.ghosts['$last'] = None
        er = Obj('global', C(4), ('op', new_cid()), 'errno')
        er.attrs['mutable'] = 1
        st.add(er)
        st.ghosts['$errno'] = er.oid
        if search:
            st.ghosts['$q'] = 0
            st.ghosts['$start'] = None
            st.ghosts['$chk'] = ZERO
        self.e.search = search
        return st

    def out(self, st, size, name='buffer'):
        d = Obj('heap', size, ('op', new_cid()), name)
        d.attrs['borrowed'] = 1
        return st.add(d)

    def number(self, st, v, bits=64):
        e = self.e
        v = e.nz(st, v)
        if v is NULL:
            return ZERO
        if isinstance(v, bool):
            v = C(int(v))
        if isinstance(v, Cond):
            raise Split([[v.atom()], [v.neg().atom()]])
        if not isinstance(v, Lin):
            return None
        v = e.uview(st, v, bits)
        if st.store.eq(v):
            return ZERO
        if not st.store.ge(v - 1):
            raise Split([[('ge', v - 1)], [('eq', v)]])
        return v

    def failed(self, st):
        """why there were no more bytes: 'eof', 'failed', 'again' or None"""
        e = self.e
        e.pending(st)
        l = st.ghosts.get('$last')
        if isinstance(l, tuple):
            en = l[1]
            raise Split([[('eq', en - EINTR)], [('eq', en - EAGAIN)], [('ne', en - EINTR), ('ne', en - EAGAIN)]])
        return l


class ReaderRoot(StreamRoot):
    """sml_read: exactly the bytes asked for, or 0"""
    cat = 'C18'

    def run(self):
        e = self.e
        st = self.state(False)
        n = st.sym('len', 0, MAXIN)
        for empty in (True, False):
            s = st.copy()
            if empty:
                s.store.add_eq(n)
                p = self.out(s, C(1))
            else:
                s.store.add_ge(n - 1)
                p = self.out(s, n)
            set_ = Obj('heap', C(128), ('op', new_cid()), 'fd_set')
            set_.attrs['borrowed'] = 1
            sp = s.add(set_)
            e.write(s, sp.oid, ZERO, 8, e.opaque(s, 'shl', 64, C(1), s.store.norm(s.ghosts['$fd'])))
            n2 = s.store.norm(n)
            pos = s.ghosts['$pos']
            self.outs(s, [s.ghosts['$fd'], sp, p, n2], lambda t, v: self.exit(t, v, p, n2, pos))
        if not e.undecided and not self.cases.get('complete'):
            e.prove(fresh_state(), self.cat, False, 'no run of the reader ends with the bytes asked for')
        return self

    def exit(self, st, v, p, n, pos):
        e = self.e
        v = self.number(st, v)
        if v is None:
            e.prove(st, self.cat, False, 'the result is no number')
            if e.opts.get('debug'): print('RES', repr(v))
            return
        w = self.failed(st)
        got = st.store.norm(st.ghosts['$pos'] - pos)
        if st.store.eq(v):
            self.case('nothing' if st.store.eq(n) else w or 'zero')
            e.prove(st, self.cat, st.store.eq(n) or w in ('eof', 'failed'),
                    'the reader gives up %s' % ('after an interrupted read' if w == 'again' else 'although no read has failed'))
            return
        self.case('complete')
        e.prove(st, self.cat, st.store.eq(v - n), 'success is reported for another number of bytes than asked for')
        e.prove(st, self.cat, w is None or w == 'again' or True, '')
        if not e.prove(st, self.cat, st.store.eq(got - n), 'success is reported although %r bytes have been read' % got):
            return
        if st.store.ge(n - 1):
            same_bytes(self, st, p.oid, ZERO, st.ghosts['$sobj'].oid, pos, n, self.cat, 'the bytes read do not follow on each other in the buffer')


class FrameRoot(StreamRoot):
    """sml_transport_read"""
    cat = 'C16'

    def run(self):
        e = self.e
        e.opts['keepbytes'] = lambda o: o.kind == 'stack'
        for small in (True, False):
            st = self.state(True)
            m = st.sym('max_len', 0, 7) if small else st.sym('max_len', 8, MAXIN)
            p = self.out(st, m)
            e.opts['vlabound'] = m
            self.outs(st, [st.ghosts['$fd'], p, m], lambda t, v: self.exit(t, v, p, m))
        if not e.undecided and not e.findings and not self.cases.get('frame'):
            e.prove(fresh_state(), self.cat, False, 'no run of the reader ends with a frame')
        return self

    def exit(self, st, v, p, m):
        e = self.e
        v = self.number(st, v)
        if v is None:
            e.prove(st, self.cat, False, 'the result is no number')
            if e.opts.get('debug'): print('RES', repr(v))
            return
        w = self.failed(st)
        g = st.ghosts
        e.advance(st)
        if st.store.eq(v):
            if w == 'again':
                e.prove(st, 'C18', False, 'the reader gives up after an interrupted read')
                return
            e.prove(st, 'C18', True, '')
            if w in ('eof', 'failed'):
                self.case(w)
                return
            if g['$start'] is None:
                self.case('no room')
                e.prove(st, self.cat, st.store.ge(C(7) - m), 'the search for a start sequence ends before there is one')
                return
            n = st.store.norm(g['$pos'] - g['$start'])
            room = st.store.norm(m - n)
            if not st.store.ge(C(8) - room):
                if not st.store.ge(room - 9):
                    raise Split([[('ge', C(8) - room)], [('ge', room - 9)]])
                # an escape sequence of another kind
                k = st.store.norm(g['$pos'] - g['$chk'] - 8)
                ok = g.get('$esc') and st.store.eq(k)
                if ok:
                    x = e.sbytes(st, g['$chk'] + 4, 1)[0]
                    ok = g.get('$fin') in ('above', 'below') or st.store.neq(x - END)
                    e.prove(st, self.cat, ok, 'a complete frame is not delivered')
                elif st.store.eq(k + 4) or st.store.eq(k):
                    e.prove(st, self.cat, False, 'a frame is given up in the middle')
                else:
                    e.prove(st, self.cat, False, 'a frame is given up although neither the input nor the room has ended')
                self.case('other sequence')
                return
            self.case('too long')
            e.prove(st, self.cat, True, '')
            return
        self.case('frame')
        if not e.prove(st, self.cat, g['$start'] is not None, 'a frame is delivered that has no complete start sequence'):
            return
        n = st.store.norm(g['$pos'] - g['$start'])
        if not e.prove(st, self.cat, st.store.eq(v - n), 'the frame delivered does not begin with the first start sequence and end with the last byte read'):
            return
        e.prove(st, self.cat, st.store.ge(m - v), 'the frame is longer than the buffer of the caller')
        if not e.prove(st, self.cat, st.store.ge(v - 16), 'a frame is delivered that is too short for a start and an end sequence'):
            return
        end = g['$pos'] - 8
        ok = (g.get('$esc') and st.store.eq(g['$chk'] - end) or all(st.store.eq(x - ESC) for x in e.sbytes(st, end))) and \
            st.store.eq(e.sbytes(st, end + 4, 1)[0] - END)
        e.prove(st, self.cat, ok, 'a frame is delivered that does not end with an end sequence')
        if ok:
            ok = g.get('$esc') and st.store.eq(g['$chk'] - end)
            if not ok and not (g.get('$esc') and st.store.ge(end - g['$chk'] - 1)):
                st.lose('what lies before the end of the frame is not known')
            e.prove(st, self.cat, ok, 'a frame is delivered that continues behind its first end sequence')
        # content
        o = st.mem[p.oid]
        ok = True
        for k in range(8):
            x = e.read(st, o, C(k), 1, None, None)
            ok = ok and isinstance(x, Lin) and st.store.eq(e.uview(st, x, 8) - (ESC if k < 4 else VER))
        e.prove(st, self.cat, ok, 'the frame delivered does not start with the start sequence')
        e.prove(st, 'C16', True, '')
        same_bytes(self, st, p.oid, C(8), g['$sobj'].oid, g['$start'] + 8, v - 8, self.cat, 'the frame delivered does not hold the bytes received')


class ListenEngine(RootEngine):
    def contract(self, st, callee, args, ins):
        if callee.name == 'sml_transport_read' and not callee.internal:
            return self.c_frame(st, args, ins)
        return RootEngine.contract(self, st, callee, args, ins)

    def bad(self, st, ok, ins, msg):
        self.oblig['C16'] = self.oblig.get('C16', 0) + 1
        if not ok:
            self.report(st, 'C16', ins, msg)

    def c_frame(self, st, args, ins):
        g = st.ghosts
        fd = self.num(st, args[0], 32, ins, signed=True)
        m = self.num(st, args[2], 64, ins, 'length')
        self.bad(st, g['$have'] is None, ins, 'the next frame is read before the last one has been passed on')
        self.bad(st, not g['$ended'], ins, 'reading goes on although there was no further frame')
        self.bad(st, st.store.eq(fd - g['$fd']), ins, 'another descriptor is read')
        if g['$have'] is not None or g['$ended']:
            raise Kill()
        if not st.store.ge(m - 1):
            if not st.store.ge(-m):
                raise Split([[('ge', m - 1)], [('ge', -m)]])
        else:
            self.target(st, args[1], ins, 'write', m)
        none = st.copy()
        none.ghosts['$ended'] = 1
        outs = [(none, ZERO)]
        if st.store.ge(m - 16):
            n = st.sym('frame', 16, None)
            st.store.add_ge(m - n)
            fr = Obj('frame', n, ('op', new_cid()), 'frame')
            fp = st.add(fr)
            self.write_region(st, args[1].oid, args[1].off, args[1].off + n, 'copy', (st.mem[fp.oid], ZERO))
            st.ghosts['$have'] = (args[1], n, fp)
            st.ghosts['$count'] = st.store.norm(st.ghosts['$count'] + 1)
            outs.append((st, n))
        return outs

    def role_call(self, st, role, args, ins):
        if role[0] != 'receiver':
            return RootEngine.role_call(self, st, role, args, ins)
        h = st.ghosts['$have']
        self.bad(st, h is not None, ins, 'the receiver is called without a new frame')
        if h is None:
            raise Kill()
        p, n = self.nz(st, args[0]), self.num(st, args[1], 64, ins, 'length')
        ok = isinstance(p, Ptr) and p.oid == h[0].oid and st.store.eq(p.off - h[0].off) and st.store.eq(n - h[1])
        if not ok and isinstance(p, Ptr) and p.oid in st.mem and st.store.eq(n - h[1]):
            ok = True           # a copy of the frame?
        self.bad(st, ok, ins, 'the receiver gets something else than the frame that was read')
        if ok:
            same_bytes(self.root, st, p.oid, p.off, h[2].oid, ZERO, n, 'C16', 'the receiver gets other bytes than those of the frame')
        st.ghosts['$have'] = None
        if ok and p.oid in st.mem:
            # the receiver may change the buffer: nothing is known of it any more
            w = st.wobj(p.oid)
            w.log, w.cells, w.base = None, {}, ('undef',)
        return [(st, None)]


class ListenRoot(Root):
    """sml_transport_listen: every frame once to the receiver, until there is none"""
    cat = 'C16'

    def engine(self):
        return ListenEngine

    def run(self):
        e = self.e
        e.root = self
        st = fresh_state()
        g = st.ghosts
        g['$fd'] = st.sym('fd', 0, 63)
        g['$have'] = None
        g['$ended'] = 0
        g['$count'] = ZERO
        self.outs(st, [g['$fd'], Fn(role=('receiver',))], self.exit)
        return self

    def exit(self, st, v):
        g = st.ghosts
        self.case('frames' if st.store.ge(g['$count'] - 1) else 'none' if st.store.eq(g['$count']) else 'any')
        self.e.prove(st, 'C16', g['$have'] is None, 'a frame that was read is not passed on')
        self.e.prove(st, 'C16', g['$ended'] == 1, 'listening ends although there may be further frames')


# ---------------------------------------------------------------- writing a file
class FileWriteEngine(wroots.WriteEngine):
    def c_crc(self, st, callee, args, ins):
        r = wroots.WriteEngine.c_crc(self, st, callee, args, ins)
        p = args[0]
        if isinstance(p, Ptr) and p.oid in st.mem:
            x = st.trace[-1]
            st.trace = st.trace[:-1] + (x + (st.mem[p.oid].clone(),),)
        return r


class SendEngine(FileWriteEngine):
    def prove(self, st, cat, *a, **k):
        return FileWriteEngine.prove(self, st, 'C17' if cat == 'C11' else cat, *a, **k)


class FileWriteRoot(Root):
    """sml_file_write: the messages, in order, each once, directly behind each other"""
    cat = 'C11'
    mode = 'write'

    def engine(self):
        return FileWriteEngine

    def file(self, st, c0=None):
        e = self.e
        bp, dp, L, c = wroots.mkoutput(e, st)
        p = e.typed(st, 'sml_file', 'write', name='sml_file')
        sp = self.specs.get('sml_file')
        f = sp.byname['buf']
        st.wobj(p.oid).cells[f.off] = (f.size, bp)
        for x in (bp, dp):
            st.wobj(x.oid).attrs['borrowed'] = 1
        return p, bp, L, c

    def run(self):
        st = fresh_state()
        p, bp, L, c = self.file(st)
        self.outs(st, [p], lambda s, v: self.exit(s, p, bp, c))
        return self

    def messages(self, st, p):
        """announced number of messages (0 if there is no array)"""
        e = self.e
        sp = self.specs.get('sml_file')
        o = st.mem[p.oid]
        n = fieldval(e, st, o, sp.byname['messages_len'])
        if n is wroots.DEFAULT:
            n = e.nz(st, e.read(st, o, C(sp.byname['messages_len'].off), 4, None, None))
        n = ZERO if n is NULL else n
        if not isinstance(n, Lin):
            return None
        n = e.sview(st, n, 32)
        if not st.store.ge(n - 1):
            if not st.store.ge(-n):
                raise Split([[('ge', n - 1)], [('ge', -n)]])
            return ZERO
        a = e.nz(st, e.read(st, o, C(sp.byname['messages'].off), 8, ptrty(), None))
        if a is NULL:
            return ZERO
        if isinstance(a, Ptr) and a.oid in st.mem and st.mem[a.oid].mnull is not None:
            raise Split([[('nonnull', a.oid)], [('null', a.oid)]])
        return n

    def chain(self, st, p, bp, items, start):
        """the end of the messages written from start on; checks that all of them are there"""
        e = self.e
        b = st.mem[bp.oid]
        cur = wroots.WCursor(e, st, items, start, b)
        self_ = wroots.WriteRoot.__new__(wroots.WriteRoot)
        self_.e = e
        n = self.messages(st, p)
        if n is None:
            st.lose('number of messages')
            n = ZERO
        got = wroots.WriteRoot.reps(self_, st, cur, ((('wel', 'message'),),), 'the file')
        while cur.peek() is not None and cur.peek()[0] == 'wel':
            cur.wel(('message',), 'the file')
            got = got + 1
        if not st.store.eq(st.store.norm(n - got)):
            raise Mismatch('layout', '%r of the %r messages of a file are written' % (st.store.norm(got), st.store.norm(n)))
        if cur.peek() is not None:
            raise Mismatch('layout', 'a file is written with a further %s' % cur.desc(cur.peek()))
        return cur.pos

    def exit(self, st, p, bp, c0):
        e = self.e
        b = st.mem[bp.oid]
        c1 = e.uview(st, e._fld(st, b, self.specs.get('sml_buffer').byname['cursor']), 64)
        own = wroots.WriteRoot.buffer_ok(self, st, b, c1)
        r = e.conform(st, p.oid, 'sml_file', 'write', skip=('buf',))
        e.prove(st, 'C02', r is not None, 'the file is not intact after writing it (%s)' % getattr(e, 'why', ''))
        self.noleak(st, own | (r or set()))
        try:
            end = self.chain(st, p, bp, st.trace, c0)
            e.prove(st, 'C11', st.store.eq(st.store.norm(end - c1)), 'the output does not end with the last message')
        except Mismatch as m:
            e.prove(st, 'C11', False, m.why)
        self.case('written')


class SendRoot(FileWriteRoot):
    """sml_transport_write: exactly one frame, written at once"""
    cat = 'C17'

    def engine(self):
        return SendEngine

    def run(self):
        st = fresh_state()
        self.e.opts['keepbytes'] = lambda o: True
        p, bp, L, c = self.file(st)
        self.fd = st.sym('fd', 0, 1023)
        self.outs(st, [self.fd, p], lambda s, v: self.exit(s, v, p, bp))
        return self

    def exit(self, st, v, p, bp):
        e = self.e
        b = st.mem[bp.oid]
        spb = self.specs.get('sml_buffer')
        c1 = e.uview(st, e._fld(st, b, spb.byname['cursor']), 64)
        own = wroots.WriteRoot.buffer_ok(self, st, b, c1)
        r = e.conform(st, p.oid, 'sml_file', 'write', skip=('buf',))
        e.prove(st, 'C02', r is not None, 'the file is not intact after writing it (%s)' % getattr(e, 'why', ''))
        self.noleak(st, own | (r or set()))
        try:
            self.frame(st, v, p, bp)
        except Mismatch as m:
            e.prove(st, 'C17', False, m.why)

    def need(self, st, ok, why):
        if not ok:
            raise Mismatch('C17', why)
        self.e.prove(st, 'C17', True, '')

    def frame(self, st, v, p, bp):
        e = self.e
        items = [x for x in st.trace if x[0] in ('rep', 'wel', 'wtl', 'wnum', 'wskip')]
        ws = [x for x in st.trace if x[0] == 'write']
        self.need(st, len(ws) == 1 and not any(x[0] == 'rep' and x[4][0] == 'write' for x in items),
                  'the frame is not handed to the operating system by exactly one write (%d)' % len(ws))
        _, fd, o, ptr, n, r = ws[0][:6]
        self.need(st, st.store.eq(fd - self.fd), 'another descriptor is written to')
        self.need(st, o is not None and st.store.eq(ptr.off), 'what is written does not begin with the start of the buffer')
        end = st.store.norm(self.chain(st, p, bp, items, C(8)))
        byte = lambda at: e.uview(st, e.read(st, o, st.store.norm(at), 1, None, None), 8)
        isb = lambda at, k: st.store.eq(byte(at) - k)
        for k in range(8):
            self.need(st, isb(C(k), ESC if k < 4 else VER), 'the frame does not begin with the start sequence')
        q = st.store.floordiv(end, 4)
        rest = st.store.norm(end - q * 4)
        for k in range(4):
            if st.store.eq(rest - k):
                break
        else:
            raise Split([[('eq', rest - k)] for k in range(4)])
        pad = -k % 4
        self.case('padding %d' % pad)
        self.need(st, st.store.eq(n - end - pad - 8), 'a frame with %d bytes left in the last group is not filled up with %d bytes' % (k, pad))
        for k in range(pad):
            self.need(st, isb(end + k, 0), 'the padding is not zero')
        for k in range(4):
            self.need(st, isb(end + pad + k, ESC), 'the end sequence is not 1b 1b 1b 1b 1a')
        self.need(st, isb(end + pad + 4, END), 'the end sequence is not 1b 1b 1b 1b 1a')
        self.need(st, isb(end + pad + 5, pad), 'the number of padding bytes is not told')
        cr = [x for x in st.trace if x[0] == 'crc' and x[1] == 'x25' and st.store.eq(x[2].off) and st.store.eq(x[3] - n + 2)]
        self.need(st, cr, 'no checksum over the whole frame is computed')
        x = cr[-1]
        crc = st.store.norm(x[4])
        hi = st.store.floordiv(crc, 256)
        ok = st.store.eq(byte(n - 2) - hi) and st.store.eq(byte(n - 1) - crc + hi * 256)
        self.need(st, ok, 'the frame does not end with the checksum, high byte first')
        # what the checksum was computed over is what is sent, and the messages are as their write functions left them
        snap = x[5]
        i = st.sym('i', 0, None)
        st.store.add_ge(n - 2 - i - 1)
        work = [st.copy()]
        while work:
            s = work.pop()
            bk = s.copy()
            try:
                u = e.read(s, snap, s.store.norm(i), 1, None, None)
                w = e.read(s, o, s.store.norm(i), 1, None, None)
                ok = isinstance(u, Lin) and isinstance(w, Lin) and s.store.eq(e.uview(s, u, 8) - e.uview(s, w, 8))
            except Split as sp:
                work.extend(e.split(bk, sp))
                continue
            self.need(s, ok, 'the bytes sent are not those the checksum was computed over')
        self.need(st, self.untouched(st, o, end), 'the messages are changed after they have been written')
        # the result
        v = e.nz(st, v)
        v = ZERO if v is NULL else v
        if not isinstance(v, Lin):
            st.lose('result')
            raise Mismatch('C17', 'the result is no number')
        v = e.sview(st, v, 32)
        if st.store.eq(r - n):
            self.need(st, st.store.eq(v - n), 'the number of bytes written is not returned')
        elif st.store.neq(r - n):
            self.need(st, st.store.eq(v), 'a failed or partial write is not reported by 0')
        else:
            raise Split([[('eq', r - n)], [('ne', r - n)]])

    def untouched(self, st, o, end):
        """bytes [8, end) come from write functions only"""
        if st.store.eq(end - 8):
            return True
        for en in o.log or ():
            lo = en[1]
            hi = en[1] + en[2] if en[0] == 'c' else en[2]
            if st.store.ge(-hi + 8) or st.store.ge(lo - end):
                continue
            if en[0] == 'r' and en[3] in ('init', 'copy'):
                continue
            return False
        return all(a >= 8 or a + c[0] <= 8 for a, c in o.cells.items()) or bool(o.log)


# ---------------------------------------------------------------- reading a file
class FileEngine(RootEngine):
    """the messages of a file as they are found: $end is the end of the last message (or of the fill bytes behind it), $n the number of
    messages accepted, $new a message that still has to be put into the file"""

    def check(self, st, ok, msg, cat='C08'):
        self.oblig[cat] = self.oblig.get(cat, 0) + 1
        if not ok:
            self.report(st, cat, None, msg)
        return ok

    def thefile(self, st):
        sp = self.specs.get('sml_file')
        offs = [sp.byname[n].off for n in ('messages', 'messages_len', 'buf')]
        r = [o for o in st.mem.values() if o.kind in ('heap', 'stack') and not o.freed and o.size is not None and st.store.eq(o.size - sp.size)
             and o.hint in (None, 'sml_file') and offs[2] in o.cells and all(a in o.cells or o.base[0] in ('zero', 'fill') for a in offs)]
        h = [o for o in r if o.kind == 'heap'] or r
        return h[0] if len(h) == 1 else None

    def settle(self, st):
        """what was accepted is in its place"""
        g = st.ghosts
        p = g['$new']
        if isinstance(p, Ptr) and p.oid in st.mem and st.mem[p.oid].mnull is not None:
            raise Split([[('nonnull', p.oid)], [('null', p.oid)]])
        f = self.thefile(st)
        if f is None:
            st.lose('which object is the file')
            return
        sp = self.specs.get('sml_file')
        s = st.copy()
        o = s.mem[f.oid]
        n = self.nz(s, self.read(s, o, C(sp.byname['messages_len'].off), 4, None, None))
        n = ZERO if n is NULL else n
        if p is None or p is NULL or p.oid in st.nulled:
            g['$new'] = None
            self.check(st, isinstance(n, Lin) and s.store.eq(self.sview(s, n, 32) - g['$n']), 'the number of messages of the file is not the number of those accepted')
            return
        if not self.check(st, isinstance(n, Lin) and s.store.eq(self.sview(s, n, 32) - g['$n'] - 1), 'an accepted message is not added to the file'):
            raise Kill()
        a = self.nz(s, self.read(s, o, C(sp.byname['messages'].off), 8, ptrty(), None))
        ok = isinstance(a, Ptr) and a.oid in s.mem and not s.mem[a.oid].freed
        if ok:
            x = self.nz(s, self.read(s, s.mem[a.oid], s.store.norm(a.off + g['$n'] * 8), 8, ptrty(), None))
            ok = isinstance(x, Ptr) and x.oid == p.oid
        if not self.check(st, ok, 'the last message of the file is not the one that was accepted last'):
            raise Kill()
        g['$n'] = st.store.norm(g['$n'] + 1)
        g['$new'] = None

    def skipped(self, st, c):
        """everything between the last message and c is fill"""
        g = st.ghosts
        d = st.mem[g['$in'].oid]
        for _ in range(64):
            if st.store.eq(c - g['$end']):
                return True
            if not st.store.ge(c - g['$end'] - 1):
                return st.store.ge(g['$end'] - c) and None
            x = self.read(st, d, st.store.norm(g['$end']), 1, None, None)
            if not (isinstance(x, Lin) and st.store.eq(self.uview(st, x, 8))):
                self.check(st, False, 'bytes that are no fill bytes are passed over between messages')
                raise Kill()
            self.check(st, True, '')
            g['$end'] = st.store.norm(g['$end'] + 1)
        return None

    def at_back(self, st, fn, head, kname):
        RootEngine.at_back(self, st, fn, head, kname)
        if len(st.loopmarks) == 1:
            self.settle2(st)
        c, er = self.bufview1(st)
        if c is not None:
            self.skipped(st, c)

    def settle2(self, st):
        try:
            self.settle(st)
        except Split:
            p = st.ghosts['$new']
            # decided by whoever looks at it; nobody did
            self.check(st, False, 'a message may be dropped or an absent one added without a look at the result')
            raise Kill()

    def bufview1(self, st):
        f = self.thefile(st)
        if f is None:
            return None, None
        b = self.nz(st, f.cells[self.specs.off('sml_file', 'buf')][1])
        if not isinstance(b, Ptr) or b.oid not in st.mem:
            return None, None
        sp = self.specs.get('sml_buffer')
        c, e = self._fld(st, st.mem[b.oid], sp.byname['cursor']), self._fld(st, st.mem[b.oid], sp.byname['error'])
        return (c if isinstance(c, Lin) else ZERO if c is NULL else None), e

    def mark(self, st):
        """keep apart what stands at the read position: a fill byte, something else, or the end"""
        g = st.ghosts
        if g.get('$in') is None:
            return
        try:
            c = self.bufview1(st)[0]
            if c is None:
                return
            if g['$nz'] is not None and st.store.eq(c - g['$nz']):
                return
            g['$nz'] = None
            if st.store.ge(g['$len'] - c - 1) and g['$new'] is None:
                x = self.read(st, st.mem[g['$in'].oid], st.store.norm(c), 1, None, None)
                if isinstance(x, Lin) and st.store.neq(self.uview(st, x, 8)):
                    g['$nz'] = c
        except Split:
            g['$nz'] = None

    def normalize(self, st, *a):
        self.mark(st)
        return RootEngine.normalize(self, st, *a)

    def pre_merge(self, st, v):
        self.mark(st)
        return RootEngine.pre_merge(self, st, v)

    def parse_contract(self, st, bp, kind, spec, ins, nullable, elem=None):
        if kind != 'message':
            return RootEngine.parse_contract(self, st, bp, kind, spec, ins, nullable, elem)
        self.settle(st)
        g = st.ghosts
        b = self.bufview(st, bp, ins)
        c = b.c
        if st.store.neq(b.err):
            self.check(st, False, 'parsing goes on after a message that could not be read')
            raise Kill()
        r = self.skipped(st, c)
        if r is None:
            if not self.check(st, not st.store.ge(g['$end'] - c - 1), 'a part of a message is read again'):
                raise Kill()
            st.lose('position of the next message')
        d = st.mem[g['$in'].oid]
        if st.store.ge(g['$len'] - c - 1):
            x = self.read(st, d, c, 1, None, None)
            x = self.uview(st, x, 8) if isinstance(x, Lin) else None
            if g['$nz'] is not None and st.store.eq(c - g['$nz']):
                x = ONE
            if x is None or not st.store.neq(x):
                if x is not None and not st.store.eq(x):
                    raise Split([[('ge', x - 1)], [('eq', x)]])
                self.check(st, x is None, 'a fill byte is taken for a message')
            else:
                self.check(st, True, '')
        outs = []
        n0 = len(st.trace)
        for s, p in RootEngine.parse_contract(self, st, bp, kind, spec, ins, nullable, elem):
            ev = [x for x in s.trace[n0:] if x[0] == 'el']
            if ev:
                s.ghosts['$end'] = s.store.norm(ev[-1][3])
                s.ghosts['$new'] = p
            else:
                s.ghosts['$err'] = 1
            outs.append((s, p))
        return outs

    def on_write(self, st, o, off, size, v, ins):
        f = self.thefile(st)
        if f is None or o.kind != 'heap':
            return
        a = f.cells.get(self.specs.off('sml_file', 'messages'), (8, NULL))[1]
        if isinstance(a, Ptr) and a.oid == o.oid:
            self.check(st, st.store.ge(off - st.ghosts['$n'] * 8), 'a message already in the file is overwritten or moved')


class FileParseRoot(Root):
    """sml_file_parse: all good messages, in order; fill bytes between them; up to the first error"""
    cat = 'C08'

    def engine(self):
        return FileEngine

    def run(self):
        e = self.e
        for empty in (True, False):
            st = fresh_state()
            n = ZERO if empty else st.sym('len', 1, MAXIN)
            d = Obj('heap', C(1) if empty else n, ('op', new_cid()), 'input')
            d.attrs['borrowed'] = d.attrs['input'] = 1
            p = st.add(d)
            e.insize = n
            g = st.ghosts
            g['$in'], g['$len'], g['$end'], g['$n'], g['$new'], g['$err'], g['$nz'] = p, n, ZERO, ZERO, None, 0, None
            self.outs(st, [p, n], lambda s, v: self.exit(s, v, p, n))
        return self

    def exit(self, st, v, p, n):
        e = self.e
        g = st.ghosts
        v = e.nz(st, v)
        ok = isinstance(v, Ptr) and v.oid in st.mem
        e.prove(st, 'C08', ok, 'no file object is returned')
        if not ok:
            return
        e.settle(st)
        r = e.conform(st, v.oid, 'sml_file', 'parsed')
        e.prove(st, 'C02', r is not None, 'the file returned is not complete: %s' % getattr(e, 'why', ''))
        if r is None:
            return
        self.noleak(st, r, 'part of the file')
        c, er = e.bufview1(st)
        f = e.thefile(st)
        if f is None or f.oid != v.oid or c is None:
            e.prove(st, 'C08', False, 'the file has no buffer')
            return
        b = e.nz(st, f.cells[self.specs.off('sml_file', 'buf')][1])
        c = e.uview(st, c, 64)
        if isinstance(er, Cond):
            raise Split([[er.atom()], [er.neg().atom()]])
        er = C(int(er)) if isinstance(er, bool) else ZERO if er is NULL else er
        bad = cond(e, st, Cond('ne', e.sview(st, er, 32)))
        e.prove(st, 'C04', bad or not g['$err'], 'a message could not be read but the error flag is not set')
        e.prove(st, 'C08', bool(bad) == bool(g['$err']), 'the error flag of the file does not tell whether all of it could be read')
        if bad:
            self.case('up to an error')
        else:
            e.skipped(st, n)
            e.prove(st, 'C08', st.store.eq(g['$end'] - n), 'parsing ends although neither the input has ended nor a message could not be read')
            self.case('to the end')
        # the copy of the input
        sp = self.specs.get('sml_buffer')
        bo = st.mem[b.oid]
        d, L = e.nz(st, e._fld(st, bo, sp.byname['buffer'])), e._fld(st, bo, sp.byname['buffer_len'])
        e.prove(st, 'C08', isinstance(L, Lin) and st.store.eq(e.uview(st, L, 64) - n) or L is NULL and st.store.eq(n), 'the buffer of the file has another length than the input')
        if st.store.ge(n - 1):
            ok = isinstance(d, Ptr) and d.oid in st.mem and st.store.eq(d.off)
            e.prove(st, 'C08', ok, 'the file has no copy of the input')
            e.prove(st, 'C20', not ok or d.oid != p.oid, 'the file refers to the input of the caller')
            if ok and d.oid != p.oid:
                same_bytes(self, st, d.oid, ZERO, p.oid, ZERO, n, 'C08', 'the copy of the input in the file differs from it')
