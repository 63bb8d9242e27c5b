"""Shapes, joins and loop fixpoints."""
from .core import *
from .spec import *
from .lin import project, refute
from .lin import Store, _tight
import time


class Weak(Exception):
    pass


PTRLIKE = 8


class JoinMixin:
    MAXCLASS = 14
    MAXITER = 60

    # ------------------------------------------------------------ traversal
    def walk(self, st, f, tok, extra=None):
        """visit every value of st in canonical order.  f maps each Lin to a Lin; tok receives shape tokens.
        Rebuilds the state in place (on a private copy)."""
        order = {}
        queue = []
        norm = st.store.norm

        def lin(e):
            return f(norm(e))

        def vis(oid):
            i = order.get(oid)
            if i is None:
                i = order[oid] = len(order)
                queue.append(oid)
            return i

        def val(v):
            if isinstance(v, Lin):
                tok.append('L')
                return lin(v)
            if isinstance(v, Ptr):
                if v.oid in st.nulled and v.oid not in st.mem:
                    tok.append('N')
                    return NULL
                tok.append(('P', vis(v.oid)))
                return Ptr(v.oid, lin(v.off))
            if v is NULL:
                tok.append('N')
                return v
            if v is UNDEF:
                tok.append('U')
                return v
            if isinstance(v, bool):
                tok.append(v)
                return v
            if isinstance(v, Cond):
                tok.append(('C', v.k))
                if v.k in ('null', 'nonnull'):
                    tok.append(vis(v.e))
                    return v
                if v.k == 'any':
                    return v
                return Cond(v.k, lin(v.e))
            if isinstance(v, Fn):
                tok.append(('F', v))
                return v
            if isinstance(v, Flt):
                tok.append('f')
                return v
            if isinstance(v, Top):
                tok.append('T')
                return v
            if isinstance(v, tuple):
                tok.append('(')
                r = tuple(val(x) for x in v)
                tok.append(')')
                return r
            if v is None or isinstance(v, (str, int, float, frozenset)):
                tok.append(v)
                return v
            if isinstance(v, Obj):
                tok.append(('O', v.oid))
                return v
            if isinstance(v, Atomic):
                tok.append(v)
                return v
            n = type(v).__name__
            if n == 'PtrInt':
                tok.append(('PI', vis(v.oid)))
                return type(v)(v.oid, lin(v.off))
            if n == 'NullOff':
                tok.append('NO')
                return type(v)(lin(v.off))
            tok.append(('?', n))
            return v

        def atoms(a):
            if a is None:
                tok.append(None)
                return None
            r = []
            tok.append('[')
            for x in a:
                if callable(x):
                    tok.append(('fn', id(x)))
                    r.append(x)
                elif x[0] in ('null', 'nonnull'):
                    tok.append((x[0], vis(x[1])))
                    r.append(x)
                else:
                    tok.append(x[0])
                    r.append((x[0], lin(x[1])))
            return tuple(r)

        def obj(oid):
            o = st.mem.get(oid)
            if o is None:
                tok.append(('gone', oid in st.nulled))
                return
            if o.freed:
                tok.append(('freed', o.kind))
                return
            if o.kind == 'global':
                tok.append(('G', o.oid if not o.attrs.get('mutable') and oid in self.globids() else o.name))
                if not o.attrs.get('mutable'):
                    return
            o = o.clone()
            st.mem[oid] = o
            tok.append((o.kind, o.size is None, o.base[0]))
            if o.size is not None:
                o.size = lin(o.size)
            o.mnull = atoms(o.mnull)
            if (o.hint or (o.base[1] if o.base[0] == 'typed' else None)) in ('sml_message_body', 'sml_proc_par_value'):
                # the tag decides about the type of the data
                for tc in o.cells.values():
                    to = st.mem.get(tc[1].oid) if isinstance(tc[1], Ptr) else None
                    if to is not None and not to.freed and to.size is not None and to.hint in ('num1', 'num4'):
                        t = self.tagof(st, to, 1 if to.hint == 'num1' else 4)
                        tok.append(('tag', t.c if t is not None and not t.t else None))
            b = o.base
            if b[0] == 'typed':
                tok.append(b[1:])
            elif b[0] == 'var':
                tok.append(b[2:])
                o.base = ('var', lin(b[1]), b[2], b[3])
            elif b[0] == 'op':
                self._cid(tok, b[1])
            elif b[0] == 'copy':
                tok.append(b[1].oid)
                o.base = ('copy', b[1], lin(b[2]))
            elif b[0] == 'fill':
                o.base = ('fill', val(b[1]))
            elif b[0] == 'elem':
                tok.append(vis(b[1]) if b[1] in st.mem else 'x')
            for k in sorted(o.attrs):
                if k in ('ev', 'frame', 'moved'):
                    continue
                v = o.attrs[k]
                tok.append(k)
                if k == 'nn':
                    o.attrs[k] = atoms(v)
                elif k == 'elem_of':
                    pass
                else:
                    o.attrs[k] = val(v)
            for a in sorted(o.cells):
                s, v = o.cells[a]
                tok.append((a, s))
                o.cells[a] = (s, val(v))
            if o.log is None:
                tok.append('nolog')
            else:
                lg = []
                for en in o.log:
                    tok.append(en[0])
                    if en[0] == 'c':
                        tok.append(en[2])
                        lg.append(('c', lin(en[1]), en[2], val(en[3])))
                    else:
                        tok.append(en[3])
                        lo, hi = lin(en[1]), lin(en[2])
                        d = en[4]
                        if en[3] == 'init':
                            self._cid(tok, d)
                        elif en[3] == 'copy':
                            tok.append(d[0].oid)
                            d = (d[0], lin(d[1]))
                        elif en[3] == 'fill':
                            d = val(d)
                        elif en[3] == 'ptrs':
                            tok.append(d)
                        lg.append(('r', lo, hi, en[3], d))
                o.log = lg

        if extra is not None:
            extra = val(extra)
        for fr in st.frames:
            tok.append('frame')
            for k in sorted(fr):
                tok.append(k)
                fr[k] = val(fr[k])
        for k in sorted(st.ghosts):
            tok.append(k)
            st.ghosts[k] = val(st.ghosts[k])
        tok.append('trace')
        st.trace = val(st.trace)
        i = 0
        while True:
            while i < len(queue):
                obj(queue[i])
                i += 1
            rest = sorted(oid for oid, o in st.mem.items()
                          if oid not in order and not o.freed and o.kind in ('heap', 'lseg'))
            if not rest:
                break
            rest.sort(key=lambda x: (st.mem[x].hint or '', st.mem[x].site or '', x))
            tok.append('unref')
            vis(rest[0])
        # forget what nobody can reach
        for oid in [x for x in st.mem if x not in order]:
            o = st.mem[oid]
            if o.kind == 'global' and not o.attrs.get('result'):
                continue
            del st.mem[oid]
        return order, extra

    def globids(self):
        g = getattr(self, '_gids', None)
        if g is None or len(g) != len(self.globobj):
            g = self._gids = {o.oid for o in self.globobj.values()}
        return g

    def _cid(self, tok, c):
        tok.append('cid')
        self._cids.append(c)

    def shape(self, st, extra=None):
        """(key, slots, cids, order); st is rewritten with normalised values"""
        slots = []
        tok = []
        self._cids = []

        def f(e):
            slots.append(e)
            return e
        order, ex = self.walk(st, f, tok, extra)
        return tuple(tok), slots, self._cids, order, ex

    def rebuild(self, st, repl, cidmap, extra=None):
        """a copy of st with the slots replaced"""
        n = st.copy()
        it = iter(repl)
        tok = []
        self._cids = []
        order, ex = self.walk(n, lambda e: next(it), tok, extra)
        if cidmap:
            for oid in list(n.mem):
                o = n.mem[oid]
                hit = o.base[0] == 'op' and o.base[1] in cidmap
                if not hit and o.log:
                    hit = any(en[0] == 'r' and en[3] == 'init' and en[4] in cidmap for en in o.log)
                if hit:
                    o = n.wobj(oid)
                    if o.base[0] == 'op' and o.base[1] in cidmap:
                        o.base = ('op', cidmap[o.base[1]])
                    if o.log:
                        o.log = [(en[0], en[1], en[2], en[3], cidmap.get(en[4], en[4])) if en[0] == 'r' and en[3] == 'init' else en
                                 for en in o.log]
            for k in [k for k in n.memo if k[0] in cidmap]:
                del n.memo[k]
        return n, ex

    # ------------------------------------------------------------ joins
    def facts(self, store):
        """constraints of a store as ('ge'|'ne', Lin); equalities are in the substitution"""
        r = []
        for s, l in store.lo.items():
            r.append(('ge', Lin(-l, ((s, 1),))))
        for s, h in store.hi.items():
            r.append(('ge', Lin(h, ((s, -1),))))
        for t, c in store.rows.items():
            r.append(('ge', Lin(c, t)))
        for e in store.ne:
            r.append(('ne', e))
        return r

    def holds(self, st, a):
        k, e = a
        if k == 'ge':
            return st.store.ge(e)
        if k == 'eq':
            return st.store.eq(e)
        return st.store.neq(e)

    def allsyms(self, store):
        r = set(store.lo) | set(store.hi)
        for t in store.rows:
            r.update(s for s, _ in t)
        for e in store.ne:
            r.update(e.syms())
        r.update(store.sub)
        for e in store.sub.values():
            r.update(e.syms())
        return r

    def compact(self, st, extra=None, limit=40):
        """project the facts onto the symbols that still occur in the state"""
        o = st.store
        if len(o.rows) + len(o.ne) + len(o.lo) < limit:
            return extra
        key, slots, cids, order, extra = self.shape(st, extra)
        live = set()
        for e in slots:
            live.update(e.syms())
        memo = {}
        for k, v in st.memo.items():
            if k[0] == 'mc':
                continue
            ks = [x for x in k if isinstance(x, Lin)]
            ok = all(s in live for x in ks for s in o.norm(x).syms())
            if ok and isinstance(k[0], int) and k[0] not in cids and ks:
                ok = False
            if ok:
                memo[k] = v
        for v in memo.values():
            if isinstance(v, Lin):
                live.update(o.norm(v).syms())
        for k, v in st.memo.items():
            # comparisons of bytes that can still be read
            if k[0] == 'mc' and all(x in live for d in k[1:] for x in o.norm(d).syms()):
                memo[k] = v
        for k, q in o.quot.items():
            if all(s in live for s in o.norm(k).syms()):
                for s in q.values():
                    live.update(o.norm(V(s)).syms())
        dead = self.allsyms(o) - live - set(o.sub)
        dead = {s for s in dead}
        if not dead:
            return extra
        facts = self.facts(o)
        part = [f for f in facts if f[0] == 'ge' and any(s in dead for s in f[1].syms())]
        reach = [f for f in self.reach_facts([f for f in facts if f[0] == 'ge'], {s for f in part for s in f[1].syms() if s in dead})]
        proj = project([f[1] for f in reach], live, 260)
        n = Store()
        n.quot = {k: q for k, q in o.quot.items() if all(s in live for s in o.norm(k).syms())}
        for s, e in o.sub.items():
            if s in live or any(s in q.values() for q in n.quot.values()):
                n.sub[s] = e
        for s in live:
            if s in o.lo:
                n.lo[s] = o.lo[s]
            if s in o.hi:
                n.hi[s] = o.hi[s]
        for t, c in o.rows.items():
            if all(s in live for s, _ in t):
                n.rows[t] = c
        for e in o.ne:
            if all(s in live for s in e.syms()):
                n.ne.add(e)
        st.store = n
        for e in proj:
            if all(s in live for s in e.syms()):
                if not n.ge(e):
                    n.add_ge(e)
        st.memo = memo
        self.stats['compact'] = self.stats.get('compact', 0) + 1
        return extra

    def invariants(self, st):
        """expressions that are zero in every state worth keeping apart from others"""
        return ()

    def reach_facts(self, facts, syms):
        """facts connected to the given symbols (up to a few steps)"""
        cur = set(syms)
        out = {}
        for _ in range(5):
            new = set()
            for f in facts:
                if f in out:
                    continue
                if any(s in cur for s in f[1].syms()):
                    out[f] = 1
                    new.update(f[1].syms())
            if not (new - cur):
                break
            cur |= new
        return list(out)

    def join(self, X, sx, Z, sz, cx, cz, xphi=(), extra=None, loop=False):
        """join of two states of the same shape.  Returns (state, phis, extra)"""
        symx, symz = self.allsyms(X.store), self.allsyms(Z.store)
        for e in sx:
            symx.update(e.syms())
        for e in sz:
            symz.update(e.syms())
        shared = (symx & symz) - set(xphi)
        phi = []
        repl = []
        strided = None
        steps, stepof = {}, []
        for a, b in zip(sx, sz):
            if a == b and all(s in shared for s in a.syms()):
                repl.append(a)
                continue
            j = None
            for (p, pa, pb) in phi:
                if pa == a and pb == b:
                    j = p
                    break
            else:
                for (p, pa, pb) in stepof:
                    if pa == a and pb == b:
                        break
                else:
                    p = None
                if p is not None:
                    repl.append(steps[p])
                    continue
            if j is None:
                j = fresh('phi')
                self.phisyms.add(j)
                if strided is None:
                    strided = self.strided(X)
                if X.store.norm(a) in strided and a != b:
                    # steps of whole elements: base + 8 * step
                    lo = Lin(a.c % 8, tuple((s, k) for s, k in a.t if k % 8))
                    if all(s in shared for s in lo.syms()):
                        qa, qb = (a - lo).div(8), (b - lo).div(8)
                        if qa is not None and qb is not None:
                            q = fresh('phi')
                            self.phisyms.add(q)
                            phi.append((q, qa, qb))
                            steps[j] = lo + V(q) * 8
                            stepof.append((j, a, b))
                            repl.append(steps[j])
                            continue
                phi.append((j, a, b))
            repl.append(V(j))
        cidmap = {}
        for a, b in zip(cx, cz):
            if a != b and a not in cidmap:
                cidmap[a] = new_cid()
        N, ex = self.rebuild(X, repl, cidmap, extra)
        # ---- candidate facts
        cand = {}
        fx, fz = self.facts(X.store), self.facts(Z.store)
        okx = lambda e: all(s in shared for s in e.syms())
        for f in fx:
            if okx(f[1]) and self.holds(Z, f):
                cand[f] = 1
        for f in fz:
            if f not in cand and okx(f[1]) and self.holds(X, f):
                cand[f] = 1
        subx = {p: a for p, a, b in phi}
        subz = {p: b for p, a, b in phi}
        eqs = []
        # affine relations between the changed slots
        kidx = None
        base = []

        def const(e):
            return not e.t
        for n, (p, a, b) in enumerate(phi):
            d = X.store.norm(a), Z.store.norm(b)
            found = False
            for q, qa, qb in base:
                # p - k*q constant on both sides
                da, db = b - a, qb - qa
                if not da.t and not db.t and db.c and da.c % db.c == 0:
                    k = da.c // db.c
                    e = a - qa * k
                    if okx(e):
                        eqs.append(V(p) - V(q) * k - e)
                        found = True
                        break
                for k in (1, -1):
                    e1, e2 = a - qa * k, b - qb * k
                    if e1 == e2 and okx(e1):
                        eqs.append(V(p) - V(q) * k - e1)
                        found = True
                        break
                if found:
                    break
            if not found:
                base.append((p, a, b))
        self.gauge = getattr(self, 'gauge', {})
        # combinations of two base slots:  p - q changes by a constant, K does too
        extra_eq = []
        if len(base) > 2:
            kk = [x for x in base if not (x[2] - x[1]).t and (x[2] - x[1]).c in (1, -1)]
            if kk:
                kp, ka, kb = kk[0]
                dk = (kb - ka).c
                for i in range(len(base)):
                    for j in range(i):
                        p, a, b = base[i]
                        q, qa, qb = base[j]
                        if p == kp or q == kp:
                            continue
                        for sg in (1, -1):
                            e1, e2 = a - qa * sg, b - qb * sg
                            d = e2 - e1
                            if not d.t and d.c:
                                e = e1 - ka * (d.c * dk)
                                if okx(e):
                                    extra_eq.append(V(p) - V(q) * sg - V(kp) * (d.c * dk) - e)
        keep = shared | {p for p, _, _ in phi}

        def projections(store, facts, side):
            ss = set()
            for p, a, b in phi:
                ss.update((a if side == 0 else b).syms())
            ss -= shared
            fs = self.reach_facts([f for f in facts if f[0] == 'ge'], ss) if ss else []
            cons = [f[1] for f in fs]
            for p, a, b in phi:
                v = a if side == 0 else b
                if v.t:
                    cons.append(V(p) - v)
                    cons.append(v - V(p))
                else:
                    cons.append(V(p) - v)
                    cons.append(v - V(p))
            if len(cons) > 120:
                cons = cons[:120]
            return project(cons, keep, 160)
        c2 = {}
        for side, (s, fs) in enumerate(((X, fx), (Z, fz))):
            for e in projections(s.store, fs, side):
                if any(x in subx for x in e.syms()) and all(x in keep for x in e.syms()):
                    c2[('ge', e)] = 1
            for f in fs:
                if f[0] != 'ne':
                    continue
                # disequalities on single slots
                for p, a, b in phi:
                    v = a if side == 0 else b
                    if v.t and len(v.t) == 1 and abs(v.t[0][1]) == 1 and f[1].coef(v.t[0][0]):
                        s0, k0 = v.t[0]
                        inv = (V(p) - v.c) * k0
                        g = f[1].subst({s0: inv})
                        if all(x in keep for x in g.syms()):
                            c2[('ne', g)] = 1
        for p, a, b in phi:
            # monotone in one direction, relative to the older value
            if okx(a):
                c2[('ge', V(p) - a)] = 1
                c2[('ge', a - V(p))] = 1
            la, ha = X.store.range(X.store.norm(a))
            lb, hb = Z.store.range(Z.store.norm(b))
            if la is not None and lb is not None:
                c2[('ge', V(p) - min(la, lb))] = 1
            if ha is not None and hb is not None:
                c2[('ge', -V(p) + max(ha, hb))] = 1
            for t in (0, -128, -32768, -(1 << 31), -(1 << 63)):
                c2[('ge', V(p) - t)] = 1
            for t in (1, 127, 255, 32767, 65535, (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1):
                c2[('ge', -V(p) + t)] = 1
        # facts about the value a slot had, restated for the slot
        for side, fs in enumerate((fx, fz)):
            for p, a, b in phi:
                v = a if side == 0 else b
                if not v.t or len(v.t) > 3:
                    continue
                for s0, k0 in v.t:
                    if abs(k0) != 1:
                        continue
                    inv = (V(p) - (v - Lin(0, ((s0, k0),)))) * k0
                    for f in fs:
                        if f[0] == 'ge' and f[1].coef(s0) and len(f[1].t) <= 3:
                            g = f[1].subst({s0: inv})
                            if all(x in keep for x in g.syms()):
                                c2[('ge', g)] = 1
        # position relative to where the analysis started
        for e in X.ghosts.get('$pin', ()):
            if isinstance(e, Lin) and len(e.t) == 1 and okx(e):
                for p, a, b in phi:
                    c2[('ge', V(p) - e)] = 1
                    c2[('ge', e - V(p))] = 1
        stated = set()
        # bounds that move together with a counter
        kc = [(p, a.c, b.c) for p, a, b in phi if not a.t and not b.t and a.c != b.c][:6]
        if kc:
            gz = {f[1].t: f[1].c for f in fz if f[0] == 'ge'}
            for f in fx:
                if f[0] != 'ge' or f[1].t not in gz or not okx(f[1]):
                    continue
                dc = gz[f[1].t] - f[1].c
                if not dc:
                    continue
                for p, a, b in kc:
                    if dc % (b - a) == 0 and abs(dc // (b - a)) <= 16:
                        c2[('ge', f[1] + (V(p) - a) * (dc // (b - a)))] = 1
            # a bound that is used up as the counter grows
            if loop:
                for f in fz:
                    if f[0] == 'ge' and okx(f[1]) and 2 <= len(f[1].t) <= 3:
                        for p, a, b in kc[:3]:
                            g = f[1] + (Lin(b) - V(p)) * (1 if b > a else -1)
                            c2[('ge', g)] = 1
                            stated.add(g)
        # pairwise differences between changed slots
        if len(phi) <= 14:
            for i in range(len(phi)):
                for j in range(i):
                    p, a, b = phi[i]
                    q, qa, qb = phi[j]
                    c2[('ge', V(p) - V(q))] = 1
                    c2[('ge', V(q) - V(p))] = 1
                    d = a - qa
                    if okx(d) and d.t or (not d.t):
                        c2[('ge', V(p) - V(q) - d)] = 1
                        c2[('ge', V(q) - V(p) + d)] = 1
                    if okx(a + qa):
                        c2[('ge', V(p) + V(q) - a - qa)] = 1
                        c2[('ge', a + qa - V(p) - V(q))] = 1
        good = []
        for f in c2:
            fa = (f[0], f[1].subst(subx))
            if not self.holds(X, fa):
                continue
            fb = (f[0], f[1].subst(subz))
            if not self.holds(Z, fb):
                continue
            good.append(f)
        st = Store()
        N.store = st
        # quotient links over shared symbols survive
        for k, q in X.store.quot.items():
            if k in Z.store.quot and okx(k):
                q2 = {d: s for d, s in q.items() if Z.store.quot[k].get(d) == s and s in shared}
                if q2:
                    st.quot[k] = q2
        for e in eqs:
            st.add_eq(e)
        for a, b, e in zip(self.invariants(X), self.invariants(Z), self.invariants(N)):
            if X.store.eq(a) and Z.store.eq(b):
                st.add_eq(e)
        for e in extra_eq:
            e1, e2 = e.subst(subx), e.subst(subz)
            if X.store.eq(e1) and Z.store.eq(e2):
                st.add_eq(e)
        # equalities among shared symbols that both sides know
        for s, r in X.store.sub.items():
            if s in shared and okx(r):
                if Z.store.eq(V(s) - r):
                    st.add_eq(V(s) - r)
        for f in cand:
            st.add_ge(f[1]) if f[0] == 'ge' else st.add_ne(f[1])
        for f in sorted(good, key=lambda f: (len(f[1].t), abs(f[1].c))):
            if f[0] == 'ge':
                if not st.ge(f[1]):
                    st.add_ge(f[1])
            else:
                st.add_ne(f[1])
        if st.bad:
            raise Weak('join')
        # stated, not only implied: what implies it may be dropped later
        for f in good:
            if f[1] in stated:
                g = _tight(st.norm(f[1]))
                if g.t and g.t not in st.rows:
                    st.rows[g.t] = g.c
        for e in X.ghosts.get('$pin', ()):
            if isinstance(e, Lin) and len(e.t) == 1 and okx(e):
                for p, a, b in phi:
                    if p in st.sub:
                        continue
                    for g in (V(p) - e, e - V(p)):
                        if g.t not in st.rows and st.ge(g):
                            st.rows[_tight(g).t] = _tight(g).c
        # memoised content symbols known to both
        N.memo = {k: v for k, v in X.memo.items() if Z.memo.get(k) == v and isinstance(v, Lin) and all(s in shared for s in v.syms())}
        N.nulled = X.nulled & Z.nulled
        N.lossy = X.lossy or Z.lossy
        N.wid = max(X.wid, Z.wid) + 1
        return N, {p: i for i, (p, a, b) in enumerate(phi)}, ex

    def strided(self, st):
        """offsets of pointers into arrays of pointers"""
        r = set()
        ok = {}
        for fr in st.frames:
            for v in fr.values():
                if isinstance(v, Ptr) and v.oid in st.mem:
                    k = ok.get(v.oid)
                    if k is None:
                        o = st.mem[v.oid]
                        k = ok[v.oid] = bool(o.kind == 'heap' and (
                            any(en[0] == 'r' and en[3] in ('ptrs', 'dead') for en in o.log or ()) or
                            any(en[0] == 'c' and isinstance(en[3], Ptr) for en in o.log or ())))
                    if k:
                        r.add(st.store.norm(v.off))
        return r

    def include(self, cls, X, slots, cids):
        """make class state include X by dropping facts; returns 'same', 'changed' or 'rejoin'"""
        G = cls['state']
        gs = cls['slots']
        phis = cls['phis']
        sub = {}
        for a, b in zip(gs, slots):
            if len(a.t) == 1 and a.c == 0 and a.t[0][1] == 1 and a.t[0][0] in phis:
                s = a.t[0][0]
                if s in sub:
                    if X.store.eq(sub[s] - b):
                        continue
                    return 'rejoin'
                sub[s] = b
        for a, b in zip(gs, slots):
            # base + k * step
            un = [(s, k) for s, k in a.t if s in phis and s not in sub]
            if len(un) == 1 and (a.c or len(a.t) > 1 or un[0][1] != 1):
                s, k = un[0]
                q = X.store.norm(b - (a - V(s) * k).subst(sub)).div(k)
                if q is None:
                    return 'rejoin'
                sub[s] = q
        for a, b in zip(gs, slots):
            an = a.subst(sub)
            if an != b and not X.store.eq(an - b):
                # a value that is an expression of others no longer is
                return 'rejoin'
        rest = [s for s in phis if s not in sub]
        # phis hidden behind equalities
        for s in rest:
            r = G.store.sub.get(s)
            if r is not None:
                sub[s] = r.subst(sub)
        changed = False
        st = G.store
        drop_rows = []
        for t, c in st.rows.items():
            e = Lin(c, t)
            if not X.store.ge(e.subst(sub)):
                drop_rows.append(t)
        lo_drop = [s for s, l in st.lo.items() if not X.store.ge((V(s) - l).subst(sub))]
        hi_drop = [s for s, h in st.hi.items() if not X.store.ge((C(h) - V(s)).subst(sub))]
        ne_drop = [e for e in st.ne if not X.store.neq(e.subst(sub))]
        if drop_rows or lo_drop or hi_drop or ne_drop:
            n = st.copy()
            for t in drop_rows:
                del n.rows[t]
            for s in lo_drop:
                del n.lo[s]
            for s in hi_drop:
                del n.hi[s]
            for e in ne_drop:
                n.ne.discard(e)
            G = cls['state'] = G.copy()
            G.store = n
            # keep weaker bounds of the machine type
            for s in lo_drop:
                for t in (0, -128, -32768, -(1 << 31), -(1 << 63)):
                    if s not in cls.setdefault('lo', {}) or cls['lo'][s] > t:
                        if X.store.ge((V(s) - t).subst(sub)):
                            n.lo[s] = t
                            break
            for s in hi_drop:
                for t in (1, 127, 255, 32767, 65535, (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1):
                    if X.store.ge((C(t) - V(s)).subst(sub)):
                        n.hi[s] = t
                        break
            changed = True
        if cids != cls['cids']:
            m = {}
            for a, b in zip(cls['cids'], cids):
                if a != b and a not in cls['ownc']:
                    m[a] = new_cid()
            if m:
                G, _ = self.rebuild(cls['state'], cls['slots'], m)
                G.store = cls['state'].store
                cls['state'] = G
                cls['cids'] = [m.get(a, a) for a in cls['cids']]
                cls['ownc'].update(m.values())
                changed = True
        dm = [k for k, v in cls['state'].memo.items() if X.memo.get(k) != v]
        if dm:
            G = cls['state'] = cls['state'].copy()
            for k in dm:
                del G.memo[k]
            changed = True
        if X.lossy and not cls['state'].lossy:
            cls['state'] = cls['state'].copy()
            cls['state'].lossy = X.lossy
            changed = True
        return 'changed' if changed else 'same'

    # ------------------------------------------------------------ merging at join points
    def merge_states(self, states, fn, block):
        m = self.opts.get('soft', 1)
        return [s for s, _ in self.merge_vals([(s, None) for s in states], 20 * m, 40 * m)]

    def merge_rets(self, outs):
        m = self.opts.get('soft', 1)
        return self.merge_vals(outs, (3 if self.inlining else 40) * m, 24 * m)

    def pre_merge(self, st, v):
        """forget how complete values look inside, and facts about values that no longer occur"""
        refs = None
        for oid in list(st.mem):
            o = st.mem.get(oid)
            if o is None or o.freed or o.kind != 'heap' or not o.cells or o.log is not None:
                continue
            spec = o.base[1] if o.base[0] == 'typed' else o.hint
            if spec not in ('sml_value', 'sml_status', 'octet_string', 'sml_time'):
                continue
            for m in ('parsed', 'write'):
                ea = self.conform(st, oid, spec, m)
                if ea is not None:
                    break
            else:
                continue
            if refs is None:
                refs = self.refs(st)
                tr = self.tracerefs(st)
                if isinstance(v, Ptr):
                    tr.add(v.oid)
            if any(x != oid and (x in tr or any(not (w[0] in ('o', 'm') and w[1] in ea) for w in refs.get(x, ()))) for x in ea):
                continue
            w = st.wobj(oid)
            w.base = ('typed', spec, m)
            w.cells = {}
            for x in ea:
                if x != oid:
                    st.mem.pop(x, None)
        return self.compact(st, v)

    def constkey(self, slots):
        return tuple(e.c if not e.t else None for e in slots)

    def merge_vals(self, outs, soft, hard):
        if len(outs) <= 1:
            return outs
        if len(outs) > soft:
            outs = [(s, self.pre_merge(s, v)) for s, v in outs]
        groups = {}
        order = []
        for s, v in outs:
            key, slots, cids, _, v = self.shape(s, v)
            k2 = (key, s.lossy is not None)
            rec = [s, v, slots, cids]
            g = groups.setdefault(k2, [])
            dup = False
            for r in g:
                if r[2] == slots and r[3] == cids and self.samestore(r[0], s):
                    dup = True
                    break
            if not dup:
                g.append(rec)
                order.append((k2, rec))
        total = sum(len(g) for g in groups.values())
        if total <= soft:
            return [(r[0], r[1]) for g in groups.values() for r in g]
        res = []
        for k, g in groups.items():
            sub = {}
            for r in g:
                sub.setdefault(self.constkey(r[2]) if total <= 4 * hard else self.lesskey(r), []).append(r)
            for g2 in sub.values():
                while len(g2) > 1:
                    a, b = g2.pop(0), g2.pop(0)
                    try:
                        N, ph, ex = self.join(a[0], a[2], b[0], b[2], a[3], b[3], extra=a[1])
                    except Weak:
                        N = None
                    if N is None:
                        N = a[0]
                        N.lose('merge')
                        ex = a[1]
                    key, slots, cids, _, ex = self.shape(N, ex)
                    g2.append([N, ex, slots, cids])
                res.append((g2[0][0], g2[0][1]))
        if len(res) > self.MAXSTATES:
            from .engine import Incomplete
            raise Incomplete('too many states')
        return res

    def lesskey(self, r):
        return ()

    def samestore(self, a, b):
        x, y = a.store, b.store
        return x.sub == y.sub and x.rows == y.rows and x.lo == y.lo and x.hi == y.hi and x.ne == y.ne

    # ------------------------------------------------------------ loops
    def run_loop(self, fn, el, states, rets):
        head, body = el
        out = {}
        lid = (fn.key, head)
        inloop = set()

        def collect(e):
            for x in e:
                if isinstance(x, tuple):
                    inloop.add(x[0])
                    collect(x[1])
                else:
                    inloop.add(x)
        inloop.add(head)
        collect(body)
        if self.opts.get('unroll'):
            return self.run_unrolled(fn, head, body, states, rets)
        if len(states) > 1:
            states = self.merge_states(states, fn, head)
        kname = '$K:%s:%s:%d' % (fn.key, head, len(self.inlining))
        for s in states:
            s.ghosts[kname] = ZERO
            s.loopmarks.append((kname, len(s.trace)))
        work = list(states)
        if len(work) > 10:
            # one fixpoint for all
            seeds = [work]
        else:
            seeds = [[s] for s in work]
        for seed in seeds:
            got = self.run_const(fn, head, body, inloop, seed, kname) if self.CONSTLOOPS else None
            o, r = got or self.fix(fn, head, body, inloop, seed, kname)
            for t, ss in o.items():
                for s in ss:
                    s.ghosts.pop(kname, None)
                    s.loopmarks = [m for m in s.loopmarks if m[0] != kname]
                out.setdefault(t, []).extend(ss)
            for s, v in r:
                s.ghosts.pop(kname, None)
                s.loopmarks = [m for m in s.loopmarks if m[0] != kname]
                rets.append((s, v))
        self.stats['loops'] += 1
        return out

    CONSTLOOPS = True

    def run_const(self, fn, head, body, inloop, seed, kname):
        """loops whose number of rounds does not depend on any input, round by round; with calls only a few rounds"""
        limit = 40
        if any(k in 'fi' and ins in fn.blocks[b].insts for ins, k, _ in self.prog.callees(fn) for b in inloop):
            su = fn.blocks[head].succ
            if len(set(su)) < 2 or len(seed) > 4:
                return None
            limit = 12
        states = [s.copy() for s in seed]
        out, rets = {}, []
        bk = self.snapshot()
        for _ in range(limit):
            nxt = []
            if limit < 40 and len(states) > 1:
                states = self.merge_states(states, fn, head)
            for s in states:
                o, rr = {}, []
                self.exec_block(fn, head, [s], o, rr)
                ins = [t for _, t in o if t in inloop]
                if rr or ins and len(ins) < len(o) or limit < 40 and len({t for _, t in o}) > 1:
                    self.restore(bk)
                    return None
                pend = {}
                for (_, t), ss in o.items():
                    pend.setdefault(t, []).extend(ss)
                if not ins:
                    for t, ss in pend.items():
                        out.setdefault(t, []).extend(ss)
                    continue
                for el in body:
                    self.exec_seq(fn, [el], pend, rets)
                nxt.extend(pend.pop(head, []))
                for t, ss in pend.items():
                    out.setdefault(t, []).extend(ss)
            states = nxt
            if len(states) > 24:
                break
            if not states:
                return out, rets
        self.restore(bk)
        return None

    def snapshot(self):
        return dict(self.findings), dict(self.undecided)

    def restore(self, b):
        self.findings.clear()
        self.findings.update(b[0])
        self.undecided.clear()
        self.undecided.update(b[1])

    def run_unrolled(self, fn, head, body, states, rets):
        """round by round, for inputs whose number of rounds is fixed"""
        from .engine import Incomplete
        out = {}
        for r in range(self.opts['unroll'] + 1):
            if not states:
                self.stats['loops'] += 1
                return out
            pending = {head: states}
            self.exec_seq(fn, [head] + list(body), pending, rets)
            states = pending.pop(head, [])
            for t, ss in pending.items():
                out.setdefault(t, []).extend(ss)
        raise Incomplete('a loop in %s does not end within %d rounds' % (fn.key, self.opts['unroll']))

    def fix(self, fn, head, body, inloop, seed, kname):
        from .engine import Incomplete
        classes = {}
        order = []
        queue = []
        depth = len(seed[0].frames)

        def arrive(X, src=None):
            self.normalize(X)
            key, slots, cids, _, _ = self.shape(X)
            key = (key, self.partition(X, slots))
            cls = classes.get(key)
            if cls is None:
                if len(classes) >= self.MAXCLASS:
                    raise Incomplete('too many loop shapes in %s' % fn.key)
                cls = classes[key] = {'state': X, 'slots': slots, 'cids': cids, 'phis': {}, 'ownc': set(), 'n': 0, 'joins': 0,
                                      'exits': [], 'hist': [slots], 'done': False, 'peel': 0, 'kept': []}
                order.append(key)
                queue.append(key)
                return
            if not cls['phis']:
                changed = [(a, b) for a, b in zip(cls['slots'], slots) if a != b]
                if not changed and cids == cls['cids'] and self.samestore(cls['state'], X):
                    return
                mode = self.peelmode(cls, slots, changed, kname)
                if mode and cls['n'] and src == key and cls['nback'] == 1:
                    cls['kept'].append(cls['exits'])
                    cls['peel'] += 1
                    cls['state'], cls['slots'], cls['cids'] = X, slots, cids
                    cls['hist'].append(slots)
                    if key not in queue:
                        queue.append(key)
                    return
                self.generalize(cls, X, slots, cids)
                if key not in queue:
                    queue.append(key)
                return
            r = self.include(cls, X, slots, cids)
            if r == 'same':
                return
            if r == 'rejoin':
                cls['joins'] += 1
                if cls['joins'] > 6:
                    raise Incomplete('loop of %s does not stabilise' % fn.key)
                self.generalize(cls, X, slots, cids)
            if key not in queue:
                queue.append(key)

        for s in seed:
            arrive(s)
        rounds = 0
        while queue:
            key = queue.pop(0)
            cls = classes[key]
            rounds += 1
            cls['n'] += 1
            if rounds > 420 or (cls['n'] > 40 and not cls['peel']):
                raise Incomplete('loop of %s does not converge' % fn.key)
            if time.time() > self.deadline:
                raise Incomplete('time')
            st = cls['state'].copy()
            pend = {head: [st]}
            rr = []
            outs = {}
            # run the head and the body
            self.loop_body(fn, head, body, pend, rr)
            backs = pend.pop(head, [])
            exits = [(t, s) for t, ss in pend.items() for s in ss]
            cls['exits'] = exits
            cls['rets'] = rr
            cls['decided'] = not exits and not rr
            cls['nback'] = len(backs)
            alive = []
            for b in backs:
                b.ghosts[kname] = b.ghosts[kname] + 1
                self.headstate = cls['state']
                try:
                    self.fold_trace(b, kname)
                    bs = self.at_back(b, fn, head, kname)
                except Kill:
                    continue
                alive.extend([b] if bs is None else bs)
            backs = alive
            if len(backs) > 1:
                for b in backs:
                    self.normalize(b)
                    self.compact(b)
                backs = [s for s, _ in self.merge_vals([(b, None) for b in backs], 4, 24)]
                cls['nback'] = len(backs)
            elif backs:
                self.normalize(backs[0])
                self.compact(backs[0])
            for b in backs:
                arrive(b, key)
        out, rets = {}, []
        for key in order:
            cls = classes[key]
            for ex in cls['kept']:
                for t, s in ex:
                    out.setdefault(t, []).append(s)
            for t, s in cls['exits']:
                out.setdefault(t, []).append(s)
            rets.extend(cls.get('keptr', []))
            rets.extend(cls['rets'])
        self.loopstat.append((fn.key, head, len(classes), rounds))
        return out, rets

    def partition(self, st, slots):
        """values that are kept apart at loop heads"""
        return ()

    def at_back(self, st, fn, head, kname):
        mon = self.opts.get('monitor')
        if mon:
            mon(self, st, kname)

    def loop_body(self, fn, head, body, pend, rr):
        """one round: head block, then the body elements; states for the head again stay in pend[head]"""
        st = pend.pop(head)
        out = {}
        self.exec_block(fn, head, st, out, rr)
        for (s, t), ss in out.items():
            pend.setdefault(t, []).extend(ss)
        back = pend.pop(head, [])
        for el in body:
            self.exec_seq(fn, [el], pend, rr)
            if head in pend:
                back.extend(pend.pop(head))
        if back:
            pend[head] = back

    def peelmode(self, cls, slots, changed, kname):
        if cls['peel'] > 300:
            return False
        if cls.get('decided'):
            return True
        if any(a.t or b.t for a, b in changed):
            return False
        h = cls['hist'] + [slots]
        if len(h) == 2:
            return True
        if len(h) > 26:
            return False
        a, b, c = h[-3], h[-2], h[-1]
        if len(a) != len(c) or len(b) != len(c):
            return False
        for x, y, z in zip(a, b, c):
            d = (z - y) - (y - x)
            if d.t or d.c:
                return True
        # arithmetic so far: a long history of peeling goes on, a short one ends
        return len(h) > 3

    def generalize(self, cls, X, slots, cids):
        try:
            N, phis, _ = self.join(cls['state'], cls['slots'], X, slots, cls['cids'], cids, xphi=cls['phis'], loop=True)
        except Weak:
            from .engine import Incomplete
            raise Incomplete('join')
        self.compact(N)
        key, s2, c2, _, _ = self.shape(N)
        cls['state'] = N
        cls['slots'] = s2
        cls['phis'] = phis
        cls['ownc'] = set(c for c in c2 if c not in cls['cids'])
        cls['cids'] = c2
        cls['joins'] += 1

    # ------------------------------------------------------------ normal forms at loop heads
    def refs(self, st):
        """oid -> list of (where) holding a pointer to it"""
        r = {}

        def add(v, w):
            if isinstance(v, Ptr):
                r.setdefault(v.oid, []).append(w)
            elif isinstance(v, Cond) and v.k in ('null', 'nonnull'):
                r.setdefault(v.e, []).append(w)
            elif isinstance(v, tuple):
                for x in v:
                    add(x, w)
        for n, fr in enumerate(st.frames):
            for k, v in fr.items():
                add(v, ('f', n, k))
        for k, v in st.ghosts.items():
            add(v, ('g', k))
        for oid, o in st.mem.items():
            if o.freed:
                continue
            for a, (s, v) in o.cells.items():
                add(v, ('o', oid, a))
            if o.log:
                for en in o.log:
                    if en[0] == 'c':
                        add(en[3], ('o', oid, en[1]))
            if o.mnull:
                for a in o.mnull:
                    if not callable(a) and a[0] in ('null', 'nonnull'):
                        r.setdefault(a[1], []).append(('m', oid))
        return r

    def gc(self, st, refs):
        for oid in [x for x, o in st.mem.items() if (o.freed or o.kind == 'stack') and x not in refs]:
            del st.mem[oid]

    def normalize(self, st):
        refs = self.refs(st)
        self.gc(st, refs)
        self.fold_arrays(st, refs)
        self.fold_lists(st, refs)
        self.fold_bytes(st)
        self.fold_regions(st)

    def fold_arrays(self, st, refs):
        for oid in list(st.mem):
            o = st.mem.get(oid)
            if o is None or o.kind != 'heap' or o.freed:
                continue
            if o.log is None:
                if o.hint is not None or o.base[0] != 'undef' or not o.cells or o.size is None:
                    continue
                if not all(s == 8 and (isinstance(v, Ptr) or v is NULL) for s, v in o.cells.values()):
                    continue
                if not all(isinstance(v, Ptr) or v is NULL for s, v in o.cells.values()):
                    continue
                if st.store.norm(o.size).c % 8 or any(k % 8 for _, k in st.store.norm(o.size).t):
                    continue
                o = st.wobj(oid)
                self.to_log(o)
            if not any(en[0] == 'c' and en[2] == 8 and (isinstance(en[3], Ptr) or en[3] is NULL) for en in o.log):
                continue
            o = st.wobj(oid)
            changed = True
            while changed:
                changed = False
                for i, en in enumerate(o.log):
                    if en[0] != 'c' or en[2] != 8:
                        continue
                    v = en[3]
                    off = st.store.norm(en[1])
                    if isinstance(v, Ptr) and v.oid in st.mem:
                        e = st.mem[v.oid]
                        if len(refs.get(v.oid, ())) > 1:
                            continue
                        if e.freed or (e.attrs.get('consumed')):
                            # released element
                            for j, r in enumerate(o.log):
                                if r[0] == 'r' and r[3] == 'dead' and st.store.eq(r[2] - off):
                                    o.log[j] = ('r', r[1], off + 8, 'dead', r[4])
                                    break
                                if r[0] == 'r' and r[3] == 'dead' and st.store.eq(r[1] - off - 8):
                                    o.log[j] = ('r', off, r[2], 'dead', r[4])
                                    break
                            else:
                                o.log.insert(i, ('r', off, off + 8, 'dead', None))
                                i += 1
                            o.log.pop(o.log.index(en))
                            del st.mem[v.oid]
                            changed = True
                            break
                        info = self.elem_info(st, o, e, v)
                        if info is None:
                            continue
                        spec, mode, nullable, eaten = info
                        if any(len([w for w in refs.get(x, ()) if not (w[0] == 'o' and w[1] in eaten)]) > (1 if x == v.oid else 0)
                               for x in eaten):
                            continue
                    elif v is NULL or isinstance(v, Ptr):
                        spec = mode = None
                        nullable = True
                        eaten = ()
                    else:
                        continue
                    done = False
                    for j, r in enumerate(o.log):
                        if r[0] == 'r' and r[3] == 'ptrs' and j < i:
                            if st.store.ge(off - r[1]) and st.store.ge(r[2] - off - 8):
                                if spec is None and v is NULL and not r[4][2]:
                                    continue
                                if spec is not None and (r[4][0] != spec):
                                    continue
                                if any(q[0] == 'c' and q is not en and q[1] == off for q in o.log[j:]):
                                    continue
                                done = True
                                break
                            if st.store.eq(r[2] - off):
                                if spec is not None and r[4][0] not in (None, spec):
                                    continue
                                sp2, md2, nu2 = r[4][0] if spec is None else spec, r[4][1] if mode is None else mode, r[4][2] or nullable
                                o.log[j] = ('r', r[1], off + 8, 'ptrs', (sp2, md2, nu2))
                                done = True
                                break
                            if st.store.eq(r[1] - off - 8) and r[4] == (spec, mode, nullable):
                                o.log[j] = ('r', off, r[2], 'ptrs', r[4])
                                done = True
                                break
                    if not done:
                        if spec is None and v is NULL:
                            continue
                        o.log.insert(i, ('r', off, off + 8, 'ptrs', (spec, mode, nullable)))
                    o.log.remove(en)
                    for x in eaten:
                        st.mem.pop(x, None)
                    changed = True
                    break

    def elem_info(self, st, o, e, v):
        """(spec, mode, nullable, oids) if e is a complete object of a known type"""
        if not st.store.eq(v.off):
            return None
        nullable = e.mnull is not None
        if e.base[0] in ('abs', 'elem'):
            return ('ABS', 'parsed', nullable, {v.oid})
        if e.base[0] == 'typed' and e.base[1] == 'ABS':
            return ('ABS', e.base[2], nullable, {v.oid})
        spec = e.base[1] if e.base[0] == 'typed' else e.hint
        if spec is None or self.specs.get(spec) is None:
            return None
        mode = e.base[2] if e.base[0] == 'typed' else self.opts.get('mode', 'parsed')
        for m in (mode, 'parsed', 'free'):
            eaten = self.conform(st, v.oid, spec, m)
            if eaten is not None:
                return (spec, m, nullable, eaten)
        return None

    LISTS = {'sml_list_entry': 'next', 'sml_obj_req_entry_list_entry': 'next'}

    def fold_lists(self, st, refs):
        """chains of complete list nodes become segments"""
        nodes = {}
        for oid, o in st.mem.items():
            if o.freed or o.mnull is not None:
                continue
            spec = o.base[1] if o.base[0] == 'typed' else o.hint
            if o.kind == 'lseg' or (o.kind == 'heap' and spec in self.LISTS):
                nodes[oid] = spec
        for oid in list(nodes):
            while True:
                o = st.mem.get(oid)
                if o is None:
                    break
                spec = nodes[oid]
                noff = self.specs.off(spec, 'next')
                c = o.cells.get(noff)
                if c is None or not isinstance(c[1], Ptr):
                    break
                nx = c[1].oid
                n = st.mem.get(nx)
                if n is None or nx not in nodes or n.freed or nx == oid:
                    break
                if len(refs.get(nx, ())) != 1 or not st.store.eq(c[1].off):
                    # the successor is pointed to from outside: this node alone may still be folded into a segment of one
                    break
                cn = n.cells.get(noff)
                if cn is None:
                    break
                # fold o + n  (both complete apart from next)
                ea = self.node_ok(st, oid, spec, refs)
                eb = self.node_ok(st, nx, spec, refs)
                if ea is None or eb is None:
                    break
                if not isinstance(cn[1], Ptr):
                    break       # keep the last node
                w = st.wobj(oid)
                ca = w.size if w.kind == 'lseg' else ONE
                cb = n.size if n.kind == 'lseg' else ONE
                mode = ea[1]
                w.kind = 'lseg'
                w.size = st.store.norm(ca + cb)
                w.base = ('typed', spec, mode)
                w.cells = {noff: (8, cn[1])}
                w.log = None
                for x in ea[0] | eb[0] | {nx}:
                    if x != oid:
                        st.mem.pop(x, None)
                refs = self.refs(st)
            # a complete node is described by its type alone
            o = st.mem.get(oid)
            if o is not None and o.kind == 'heap' and o.base[0] != 'typed' and o.mnull is None:
                spec = nodes[oid]
                noff = self.specs.off(spec, 'next')
                c = o.cells.get(noff) or ((8, NULL) if o.base[0] == 'zero' and o.log is None else None)
                if c is not None:
                    ea = self.node_ok(st, oid, spec, refs)
                    if ea is not None and not (ea[0] & self.tracerefs(st)):
                        w = st.wobj(oid)
                        w.base = ('typed', spec, ea[1])
                        w.hint = spec
                        w.cells = {noff: c}
                        w.log = None
                        for x in ea[0]:
                            if x != oid:
                                st.mem.pop(x, None)
                        refs = self.refs(st)
            # a single complete node that is followed by another referenced node is a segment of one
            o = st.mem.get(oid)
            if o is not None and o.kind == 'heap':
                spec = nodes[oid]
                noff = self.specs.off(spec, 'next')
                c = o.cells.get(noff)
                if c is not None and isinstance(c[1], Ptr) and c[1].oid in nodes and c[1].oid in st.mem:
                    rs = refs.get(oid, ())
                    if len(rs) <= 1 or all(w[0] != 'f' or True for w in rs):
                        if any(True for _ in rs) and not self.offset_refs(st, oid):
                            ea = self.node_ok(st, oid, spec, refs)
                            if ea is not None:
                                w = st.wobj(oid)
                                w.kind = 'lseg'
                                w.size = ONE
                                w.base = ('typed', spec, ea[1])
                                w.cells = {noff: c}
                                w.log = None
                                for x in ea[0]:
                                    if x != oid:
                                        st.mem.pop(x, None)
                                refs = self.refs(st)

    def tracerefs(self, st):
        r = set()

        def val(v):
            if isinstance(v, Ptr):
                r.add(v.oid)
            elif isinstance(v, tuple):
                for x in v:
                    val(x)
        val(st.trace)
        return r

    def offset_refs(self, st, oid):
        for fr in st.frames:
            for v in fr.values():
                if isinstance(v, Ptr) and v.oid == oid and not (not v.off.t and v.off.c == 0):
                    return True
        for o in st.mem.values():
            for s, v in o.cells.values():
                if isinstance(v, Ptr) and v.oid == oid and not (not v.off.t and v.off.c == 0):
                    return True
        return False

    def node_ok(self, st, oid, spec, refs):
        o = st.mem[oid]
        if o.kind == 'lseg':
            return {oid}, o.base[2]
        modes = (o.base[2],) if o.base[0] == 'typed' else (self.opts.get('mode', 'parsed'), 'parsed', 'free')
        for m in modes:
            eaten = self.conform(st, oid, spec, m, skip=('next',))
            if eaten is not None:
                for x in eaten:
                    if x != oid and any(not (w[0] in ('o', 'm') and w[1] in eaten) for w in refs.get(x, ())):
                        break
                else:
                    return eaten, m
        return None

    def unfold_lseg(self, oid):
        def one(st):
            o = st.wobj(oid)
            if not st.store.assume_eq(o.size - 1):
                return False
            o.kind = 'heap'
            o.size = C(self.specs.get(o.base[1]).size)
            o.hint = o.base[1]
            return True

        def more(st):
            o = st.wobj(oid)
            n = o.size
            if not st.store.assume_ge(n - 2):
                return False
            noff = self.specs.off(o.base[1], 'next')
            r = Obj('lseg', st.store.norm(n - 1), o.base, o.name)
            r.cells = {noff: o.cells[noff]}
            r.hint = o.hint
            if 'node_idx' in o.attrs:
                r.attrs['node_idx'] = o.attrs['node_idx'] + 1
            st.add(r)
            o.cells = {noff: (8, Ptr(r.oid))}
            o.kind = 'heap'
            o.hint = o.base[1]
            o.size = C(self.specs.get(o.base[1]).size)
            return True
        return [[one], [more]]

    def fold_bytes(self, st):
        """runs of byte writes into blocks of variable size become regions"""
        for oid in list(st.mem):
            o = st.mem[oid]
            if o.freed or o.kind not in ('heap', 'stack') or o.size is None:
                continue
            sz = st.store.norm(o.size)
            if o.log is None:
                if not sz.t and sz.c <= 256:
                    continue
                if not o.cells or o.base[0] in ('typed', 'zero') and sz.t == ():
                    pass
                if not o.cells or o.base[0] == 'typed' or o.hint:
                    continue
                if any(not isinstance(v, Lin) for s, v in o.cells.values()):
                    continue
                o = st.wobj(oid)
                self.to_log(o)
            if not sz.t and sz.c <= 256:
                continue
            if sum(1 for en in o.log if en[0] == 'c' and isinstance(en[3], Lin)) == 0:
                continue
            if self.opts.get('keepbytes') and self.opts['keepbytes'](o):
                continue
            o = st.wobj(oid)
            lg = []
            for en in o.log:
                cp = self.copied(st, en) if en[0] == 'c' and en[2] == 1 else None
                if cp is not None:
                    # the next byte of a copy made byte by byte
                    src, so = cp
                    lo, hi = en[1], en[1] + 1
                    p = lg[-1] if lg and lg[-1][0] == 'r' and lg[-1][3] == 'copy' and lg[-1][4][0].oid == src.oid else None
                    if p and st.store.eq(p[2] - lo) and st.store.eq(so - lo - p[4][1] + p[1]):
                        lg[-1] = ('r', p[1], hi, 'copy', p[4])
                    elif p and st.store.eq(p[1] - hi) and st.store.eq(so - lo - p[4][1] + p[1]):
                        lg[-1] = ('r', lo, p[2], 'copy', (src, st.store.norm(so)))
                    else:
                        lg.append(('r', lo, hi, 'copy', (src, st.store.norm(so))))
                elif en[0] == 'c' and isinstance(en[3], Lin):
                    lo, hi = en[1], en[1] + en[2]
                    if lg and lg[-1][0] == 'r' and lg[-1][3] == 'init' and st.store.eq(lg[-1][2] - lo):
                        lg[-1] = ('r', lg[-1][1], hi, 'init', new_cid())
                    elif lg and lg[-1][0] == 'r' and lg[-1][3] == 'init' and st.store.eq(lg[-1][1] - hi):
                        lg[-1] = ('r', lo, lg[-1][2], 'init', new_cid())
                    elif lg and lg[-1][0] == 'r' and lg[-1][3] == 'init' and st.store.ge(lo - lg[-1][1]) and st.store.ge(lg[-1][2] - hi):
                        lg[-1] = ('r', lg[-1][1], lg[-1][2], 'init', new_cid())
                    else:
                        lg.append(('r', lo, hi, 'init', new_cid()))
                elif (en[0] == 'r' and en[3] == 'init' and lg and lg[-1][0] == 'r' and lg[-1][3] == 'init'
                      and st.store.eq(lg[-1][2] - en[1])):
                    lg[-1] = ('r', lg[-1][1], en[2], 'init', new_cid())
                else:
                    lg.append(en)
            o.log = lg

    def fold_regions(self, st):
        """many overlapping regions of arbitrary contents, each growing the block upwards, become one"""
        isinit = lambda en: en[0] == 'r' and en[3] == 'init'
        for oid in list(st.mem):
            o = st.mem[oid]
            if o.freed or not o.log or len(o.log) < 3:
                continue
            while len(o.log) >= 3 and all(isinit(en) for en in o.log[-3:]):
                a, b = o.log[-2:]
                if not (st.store.ge(b[1] - a[1]) and st.store.ge(a[2] - b[1]) and st.store.ge(b[2] - a[2])):
                    break
                o = st.wobj(oid)
                o.log = o.log[:-2] + [('r', a[1], b[2], 'init', new_cid())]

    def copied(self, st, en):
        """(object, offset) the byte written by log entry en was read from, if that object still holds it"""
        v = st.store.norm(en[3]) if isinstance(en[3], Lin) else None
        if v is None or v.c or len(v.t) != 1 or v.t[0][1] != 1:
            return None
        d = DEF.get(v.t[0][0])
        if not d or d[0] != 'byte' or d[3] != 1:
            return None
        for o in st.mem.values():
            if o.base == ('op', d[1]) and not o.cells and o.log is None and not o.freed:
                return o, d[2]
        return None

    # ------------------------------------------------------------ traces of loops
    def fold_trace(self, st, kname):
        mark = None
        for k, n in st.loopmarks:
            if k == kname:
                mark = n
        if mark is None:
            return
        tr = st.trace
        if len(tr) <= mark:
            st.loopmarks = [(k, min(n, len(tr))) for k, n in st.loopmarks]
            return
        pre, ev = tr[:mark], tr[mark:]
        rep = None
        if ev and ev[0][0] == 'rep' and ev[0][1] == kname:
            rep, ev = ev[0], ev[1:]
        ev = tuple(e for e in ev if e[0] not in ('memcmp', 'stdout', 'read'))
        if not ev:
            st.trace = pre + ((rep,) if rep else ())
            return
        g = self.group_events(st, ev, rep)
        # what was done with the parsed objects has been checked; only the places matter from here on
        g = (g[0], tuple(x[:4] + (None,) if x[0] == 'el' else x for x in g[1])) if isinstance(g[1], tuple) else g
        if rep is None:
            st.trace = pre + (('rep', kname, frozenset([g[0]]), ONE) + g[1],)
        else:
            st.trace = pre + (('rep', kname, rep[2] | {g[0]}, rep[3] + 1) + self.rep_join(st, rep[4:], g[1]),)

    def group_events(self, st, ev, rep):
        """(signature, payload)"""
        return tuple(e[:2] if e[0] in ('el', 'wel') else e[0] for e in ev), (ev[0], ev[-1])

    def rep_join(self, st, old, new):
        return (old[0], new[1])
