"""Linear integer expressions and a conjunctive linear-constraint domain
(intervals + linear inequalities + disequalities, decided by substitution,
interval reasoning and bounded Fourier-Motzkin elimination with integer
tightening).  All answers 'entailed' / 'infeasible' are sound; when a bound is
hit the answer is 'not known'."""
from math import gcd

_next = [1]
NAME = {}


def fresh(name):
    s = _next[0]
    _next[0] += 1
    NAME[s] = name
    return s


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def isc(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                d.pop(s, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(self.c * k, tuple((s, v * k) for s, v in self.t))

    __rmul__ = __mul__

    def syms(self):
        return [s for s, _ in self.t]

    def coef(self, s):
        for x, k in self.t:
            if x == s:
                return k
        return 0

    def __repr__(self):
        if not self.t:
            return str(self.c)
        r = []
        for s, k in self.t:
            n = '%s.%d' % (NAME.get(s, 's'), s)
            r.append(('%+d*%s' % (k, n)) if k not in (1, -1) else ('+' if k == 1 else '-') + n)
        if self.c:
            r.append('%+d' % self.c)
        s = ' '.join(r)
        return s[1:] if s[0] == '+' else s

    def subst(self, m):
        """replace symbols by Lin"""
        hit = False
        for s, _ in self.t:
            if s in m:
                hit = True
                break
        if not hit:
            return self
        r = Lin(self.c, tuple((s, k) for s, k in self.t if s not in m))
        for s, k in self.t:
            if s in m:
                r = r + m[s] * k
        return r

    def div(self, g):
        """exact division by g if all coefficients and the constant are divisible, else None"""
        if self.c % g:
            return None
        for _, k in self.t:
            if k % g:
                return None
        return Lin(self.c // g, tuple((s, k // g) for s, k in self.t))


ZERO = Lin(0)
ONE = Lin(1)


def C(n):
    return Lin(n)


def V(s):
    return Lin(0, ((s, 1),))


def _tight(e):
    """normalise e>=0 : divide by gcd of coefs, floor constant"""
    g = 0
    for _, k in e.t:
        g = gcd(g, k)
        if g == 1:
            return e
    if g > 1:
        return Lin(e.c // g, tuple((s, k // g) for s, k in e.t))
    return e


STAT = {'fm': 0, 'fmcap': 0, 'ent': 0}


def refute(cons, cap=300):
    """True if the conjunction of (e >= 0) is integer-infeasible (proved)."""
    STAT['fm'] += 1
    rows = {}
    for e in cons:
        e = _tight(e)
        if not e.t:
            if e.c < 0:
                return True
            continue
        c = rows.get(e.t)
        if c is None or e.c < c:
            rows[e.t] = e.c
    while rows:
        # occurrence counts
        pos, neg = {}, {}
        for t in rows:
            for s, k in t:
                if k > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        # drop one-sided symbols
        one = [s for s in set(pos) | set(neg) if s not in pos or s not in neg]
        if one:
            one = set(one)
            rows = {t: c for t, c in rows.items() if not any(s in one for s, _ in t)}
            continue
        best = min(pos, key=lambda s: (pos[s] * neg[s], s))
        P = []
        N = []
        new = {}
        for t, c in rows.items():
            k = 0
            for s, v in t:
                if s == best:
                    k = v
                    break
            if k > 0:
                P.append((t, c, k))
            elif k < 0:
                N.append((t, c, -k))
            else:
                new[t] = c
        for t1, c1, k1 in P:
            for t2, c2, k2 in N:
                g = gcd(k1, k2)
                a, b = k2 // g, k1 // g
                d = {}
                for s, v in t1:
                    d[s] = v * a
                for s, v in t2:
                    d[s] = d.get(s, 0) + v * b
                tt = tuple(sorted((s, v) for s, v in d.items() if v))
                e = _tight(Lin(c1 * a + c2 * b, tt))
                if not e.t:
                    if e.c < 0:
                        return True
                    continue
                c = new.get(e.t)
                if c is None or e.c < c:
                    new[e.t] = e.c
        # opposite rows
        for t, c in list(new.items()):
            o = tuple((s, -v) for s, v in t)
            c2 = new.get(o)
            if c2 is not None and c + c2 < 0:
                return True
        if len(new) > cap:
            STAT['fmcap'] += 1
            return False
        rows = new
    return False


def project(cons, keep, cap=200, keepfn=None):
    """Fourier-Motzkin elimination of all symbols not in keep; returns list of Lin>=0 (sound: implied)."""
    rows = {}
    for e in cons:
        e = _tight(e)
        if e.t:
            c = rows.get(e.t)
            if c is None or e.c < c:
                rows[e.t] = e.c
    while True:
        pos, neg = {}, {}
        for t in rows:
            for s, k in t:
                if s in keep:
                    continue
                if k > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        al = set(pos) | set(neg)
        if not al:
            break
        best = min(al, key=lambda s: (pos.get(s, 0) * neg.get(s, 0) - pos.get(s, 0) - neg.get(s, 0), s))
        P, N, new = [], [], {}
        for t, c in rows.items():
            k = 0
            for s, v in t:
                if s == best:
                    k = v
                    break
            if k > 0:
                P.append((t, c, k))
            elif k < 0:
                N.append((t, c, -k))
            else:
                new[t] = c
        if len(P) * len(N) + len(new) > cap:
            rows = new
            continue
        for t1, c1, k1 in P:
            for t2, c2, k2 in N:
                g = gcd(k1, k2)
                a, b = k2 // g, k1 // g
                d = {}
                for s, v in t1:
                    d[s] = v * a
                for s, v in t2:
                    d[s] = d.get(s, 0) + v * b
                tt = tuple(sorted((s, v) for s, v in d.items() if v))
                e = _tight(Lin(c1 * a + c2 * b, tt))
                if not e.t:
                    continue
                c = new.get(e.t)
                if c is None or e.c < c:
                    new[e.t] = e.c
        rows = new
    return [Lin(c, t) for t, c in rows.items()]


class Store:
    __slots__ = ('sub', 'lo', 'hi', 'rows', 'ne', 'quot', 'bad')

    def __init__(self):
        self.sub = {}
        self.lo = {}
        self.hi = {}
        self.rows = {}
        self.ne = set()
        self.quot = {}
        self.bad = False

    def copy(self):
        s = Store.__new__(Store)
        s.sub = dict(self.sub)
        s.lo = dict(self.lo)
        s.hi = dict(self.hi)
        s.rows = dict(self.rows)
        s.ne = set(self.ne)
        s.quot = dict(self.quot)
        s.bad = self.bad
        return s

    # ---- basics
    def norm(self, e):
        if not e.t:
            return e
        return e.subst(self.sub) if self.sub else e

    def new(self, name, lo=None, hi=None):
        s = fresh(name)
        if lo is not None:
            self.lo[s] = lo
        if hi is not None:
            self.hi[s] = hi
        return V(s)

    def range(self, e):
        """interval of a normalised expression (None = unbounded)"""
        lo = hi = e.c
        for s, k in e.t:
            l, h = self.lo.get(s), self.hi.get(s)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi

    def lower(self, e):
        return self.range(self.norm(e))[0]

    def upper(self, e):
        return self.range(self.norm(e))[1]

    # ---- queries
    def ge(self, e):
        """entails e >= 0 ?"""
        STAT['ent'] += 1
        e = self.norm(e)
        if not e.t:
            return e.c >= 0
        lo, hi = self.range(e)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return self.bad
        e = _tight(e)
        c = self.rows.get(e.t)
        if c is not None and c <= e.c:
            return True
        # negated: -e-1 >= 0
        ng = -e - 1
        if len(e.t) == 1 and not any(s == e.t[0][0] for t in self.rows for s, _ in t):
            return False
        # one step
        es = set(e.syms())
        near = []
        for t, c in self.rows.items():
            if any(s in es for s, _ in t):
                near.append(Lin(c, t))
        for r in near:
            # e - r
            d = e - r
            l = self.range(d)[0]
            if l is not None and l >= 0:
                return True
        for depth in (2, 4, 7):
            cons, full = self.component([ng], depth)
            if refute(cons + [ng], 120 if depth < 7 else 300):
                return True
            if full:
                break
        if not full and len(e.t) == 2 and e.t[0][1] * e.t[1][1] == -1:
            return self.chain(e)
        return False

    def chain(self, e):
        """p - q + c >= 0 along a chain of differences"""
        p, q = (e.t[0][0], e.t[1][0]) if e.t[0][1] == 1 else (e.t[1][0], e.t[0][0])
        adj = {}
        for t, c in self.rows.items():
            if len(t) == 2 and t[0][1] * t[1][1] == -1:
                hi, lo = (t[0][0], t[1][0]) if t[0][1] == 1 else (t[1][0], t[0][0])
                adj.setdefault(lo, []).append((hi, -c))
        best = {q: 0}
        work = [q]
        n = 0
        while work and n < 2000:
            n += 1
            x = work.pop(0)
            for y, w in adj.get(x, ()):
                v = best[x] + w
                if y not in best or best[y] < v:
                    best[y] = v
                    if y == p and v + e.c >= 0:
                        return True
                    work.append(y)
        return False

    def component(self, goals, depth, maxrows=70):
        syms = set()
        for g in goals:
            syms.update(g.syms())
        used = {}
        full = False
        seen = set(syms)
        for _ in range(depth):
            add = set()
            for t, c in self.rows.items():
                if t in used:
                    continue
                for s, _k in t:
                    if s in syms:
                        used[t] = c
                        add.update(x for x, _ in t)
                        break
                if len(used) > maxrows:
                    break
            add -= syms
            if not add or len(used) > maxrows:
                full = True
                break
            syms |= add
        else:
            full = False
        cons = [Lin(c, t) for t, c in used.items()]
        for t in used:
            seen.update(x for x, _ in t)
        for s in seen:
            l = self.lo.get(s)
            if l is not None:
                cons.append(Lin(-l, ((s, 1),)))
            h = self.hi.get(s)
            if h is not None:
                cons.append(Lin(h, ((s, -1),)))
        return cons, full

    def all_cons(self):
        cons = [Lin(c, t) for t, c in self.rows.items()]
        for s, l in self.lo.items():
            cons.append(Lin(-l, ((s, 1),)))
        for s, h in self.hi.items():
            cons.append(Lin(h, ((s, -1),)))
        for s, r in self.sub.items():
            cons.append(V(s) - r)
            cons.append(r - V(s))
        return cons

    def eq(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c == 0
        return self.ge(e) and self.ge(-e)

    def neq(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c != 0
        g = 0
        for _, k in e.t:
            g = gcd(g, k)
        if e.c % g:
            return True
        if self._necan(e) in self.ne:
            return True
        lo, hi = self.range(e)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return True
        if self.ge(e - 1) or self.ge(-e - 1):
            return True
        if self.ne and len(e.t) <= 3:
            # e = 0 may contradict one disequality through equalities
            for d in self.ne:
                if d.t == e.t and d.c == e.c:
                    return True
        return False

    @staticmethod
    def _necan(e):
        if e.t and e.t[0][1] < 0:
            e = -e
        g = abs(e.c)
        for _, k in e.t:
            g = gcd(g, k)
        if g > 1:
            e = Lin(e.c // g, tuple((s, k // g) for s, k in e.t))
        return e

    # ---- updates
    def add_ge(self, e):
        if self.bad:
            return False
        e = self.norm(e)
        if not e.t:
            if e.c < 0:
                self.bad = True
            return not self.bad
        e = _tight(e)
        lo, hi = self.range(e)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            self.bad = True
            return False
        if len(e.t) == 1:
            s, k = e.t[0]
            if k > 0:
                v = -(e.c // k) if k == 1 else -((e.c) // k)
                # k*s + c >= 0 -> s >= ceil(-c/k)
                v = -(e.c // k)
                return self._setlo(s, v)
            v = e.c // (-k)
            return self._sethi(s, v)
        c = self.rows.get(e.t)
        if c is not None and c <= e.c:
            return True
        ot = tuple((s, -k) for s, k in e.t)
        oc = self.rows.get(ot)
        if oc is not None:
            if oc + e.c < 0:
                self.bad = True
                return False
            if oc + e.c == 0:
                self.rows.pop(e.t, None)
                self.rows.pop(ot, None)
                return self.add_eq(e)
        self.rows[e.t] = e.c
        return self._prop(e)

    def _prop(self, e, depth=0):
        """interval propagation through one row"""
        for s, k in e.t:
            # k*s >= -(rest)
            rest = Lin(e.c, tuple((x, v) for x, v in e.t if x != s))
            hi = self.range(rest)[1]
            if hi is None:
                continue
            if k > 0:
                v = -(hi // k)   # s >= -hi/k -> ceil
                l = self.lo.get(s)
                if l is None or v > l:
                    if not self._setlo(s, v, depth + 1):
                        return False
                    if s in self.sub:
                        return not self.bad
            else:
                v = hi // (-k)
                h = self.hi.get(s)
                if h is None or v < h:
                    if not self._sethi(s, v, depth + 1):
                        return False
                    if s in self.sub:
                        return not self.bad
        return True

    def _propsym(self, s, depth):
        if depth > 3:
            return True
        for t, c in list(self.rows.items()):
            if any(x == s for x, _ in t):
                if self.rows.get(t) == c:
                    if not self._prop(Lin(c, t), depth):
                        return False
                    if s in self.sub:
                        return not self.bad
        return True

    def _setlo(self, s, v, depth=0):
        l = self.lo.get(s)
        if l is not None and l >= v:
            return True
        h = self.hi.get(s)
        if h is not None and h < v:
            self.bad = True
            return False
        self.lo[s] = v
        return self._after(s, depth)

    def _sethi(self, s, v, depth=0):
        h = self.hi.get(s)
        if h is not None and h <= v:
            return True
        l = self.lo.get(s)
        if l is not None and l > v:
            self.bad = True
            return False
        self.hi[s] = v
        return self._after(s, depth)

    def _after(self, s, depth):
        l, h = self.lo.get(s), self.hi.get(s)
        if l is not None and l == h:
            return self._substitute(s, Lin(l))
        if self.ne:
            for e in list(self.ne):
                if len(e.t) == 1 and e.t[0][0] == s and abs(e.t[0][1]) == 1:
                    v = -e.c * e.t[0][1]
                    if l == v:
                        self.ne.discard(e)
                        return self._setlo(s, v + 1, depth)
                    if h == v:
                        self.ne.discard(e)
                        return self._sethi(s, v - 1, depth)
        return self._propsym(s, depth)

    def _substitute(self, s, r):
        """s := r (r normalised, not containing s)"""
        l, h = self.lo.pop(s, None), self.hi.pop(s, None)
        m = {s: r}
        for x, y in list(self.sub.items()):
            if y.coef(s):
                self.sub[x] = y.subst(m)
        self.sub[s] = r
        hit = [t for t in self.rows if any(x == s for x, _ in t)]
        redo = []
        for t in hit:
            redo.append(Lin(self.rows.pop(t), t).subst(m))
        if l is not None:
            redo.append(r - l)
        if h is not None:
            redo.append(Lin(h) - r)
        nes = [e for e in self.ne if e.coef(s)]
        for e in nes:
            self.ne.discard(e)
        for e in redo:
            if not self.add_ge(e):
                return False
        for e in nes:
            if not self.add_ne(e.subst(m)):
                return False
        if self.quot:
            for k in [k for k in self.quot if k.coef(s)]:
                q = self.quot.pop(k)
                k2 = k.subst(m)
                q2 = self.quot.get(k2)
                if q2 is None:
                    self.quot[k2] = q
                else:
                    q3 = dict(q2)
                    for a, b in q.items():
                        if a in q3:
                            if not self.add_eq(V(q3[a]) - V(b)):
                                return False
                        else:
                            q3[a] = b
                    self.quot[k2] = q3
        return not self.bad

    def add_eq(self, e):
        if self.bad:
            return False
        e = self.norm(e)
        if not e.t:
            if e.c != 0:
                self.bad = True
            return not self.bad
        g = 0
        for _, k in e.t:
            g = gcd(g, k)
        if e.c % g:
            self.bad = True
            return False
        if g > 1:
            e = Lin(e.c // g, tuple((s, k // g) for s, k in e.t))
        lo, hi = self.range(e)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            self.bad = True
            return False
        for s, k in reversed(e.t):
            if k in (1, -1):
                rest = Lin(e.c, tuple((x, v) for x, v in e.t if x != s))
                return self._substitute(s, rest * (-k))
        if len(e.t) == 2:
            # a x + b y + c = 0 without unit coefficient: x = x0 + b t, y = y0 - a t
            (x, a), (y, b) = e.t
            x0 = (-e.c * pow(a, -1, abs(b))) % abs(b)
            y0 = (-e.c - a * x0) // b
            t = V(fresh('t'))
            return self._substitute(x, t * b + x0) and self.add_eq(V(y) + t * a - y0)
        return self.add_ge2(e) and self.add_ge2(-e)

    def add_ge2(self, e):
        # store both sides of an equality without triggering the opposite-row shortcut
        e = _tight(e)
        c = self.rows.get(e.t)
        if c is None or c > e.c:
            self.rows[e.t] = e.c
        return self._prop(e)

    def add_ne(self, e):
        if self.bad:
            return False
        e = self.norm(e)
        if not e.t:
            if e.c == 0:
                self.bad = True
            return not self.bad
        if self.neq(e):
            return True
        if self.ge(e):
            return self.add_ge(e - 1)
        if self.ge(-e):
            return self.add_ge(-e - 1)
        self.ne.add(self._necan(e))
        return True

    def assume_ge(self, e):
        """add e>=0 after a complete-as-possible infeasibility test"""
        if self.ge(-e - 1):
            self.bad = True
            return False
        return self.add_ge(e)

    def assume_eq(self, e):
        if self.neq(e):
            self.bad = True
            return False
        if not self.add_eq(e):
            return False
        return True

    def assume_ne(self, e):
        if self.eq(e):
            self.bad = True
            return False
        return self.add_ne(e)

    # ---- floor division by a power of two (or any positive constant)
    def floordiv(self, e, d):
        """expression q = floor(e / d), d > 0"""
        e = self.norm(e)
        if d == 1:
            return e
        if not e.t:
            return Lin(e.c // d)
        # split off the part divisible by d
        dp = Lin(e.c // d, tuple((s, k // d) for s, k in e.t if k % d == 0))
        rest = Lin(e.c % d, tuple((s, k) for s, k in e.t if k % d != 0))
        if not rest.t:
            return dp
        lo, hi = self.range(rest)
        if lo is not None and hi is not None and lo // d == hi // d:
            return dp + lo // d
        if self.ge(rest) and self.ge(Lin(d - 1) - rest):
            return dp
        # factor gcd:  rest = g*r + c with c < g and g | d
        g = 0
        for _, k in rest.t:
            g = gcd(g, k)
        g = gcd(g, d)
        if g > 1:
            inner = Lin(rest.c // g, tuple((s, k // g) for s, k in rest.t))
            return dp + self.floordiv(inner, d // g)
        q = self.quot.get(rest)
        if q is not None and d in q:
            return dp + self.norm(V(q[d]))
        if len(rest.t) == 1 and rest.c == 0 and rest.t[0][1] == 1:
            # a quotient of a quotient
            for x, ds in self.quot.items():
                if not x.t or any(gcd(k, d) > 1 for _, k in self.norm(x).t):
                    continue
                for m, s in ds.items():
                    if s == rest.t[0][0] and s not in self.sub:
                        return dp + self.floordiv(x, m * d)
        s = fresh('q%d' % d)
        if lo is not None:
            self.lo[s] = lo // d
        if hi is not None:
            self.hi[s] = hi // d
        v = V(s)
        q2 = dict(q) if q else {}
        others = list(q2.items())
        q2[d] = s
        self.quot[rest] = q2
        self.add_ge(rest - v * d)
        self.add_ge(v * d + (d - 1) - rest)
        for d2, s2 in others:
            if s2 in self.sub:
                v2 = self.sub[s2]
            else:
                v2 = V(s2)
            if d % d2 == 0:
                m = d // d2     # v = floor(v2/m)
                self.add_ge(v2 - v * m)
                self.add_ge(v * m + (m - 1) - v2)
            elif d2 % d == 0:
                m = d2 // d
                self.add_ge(v - v2 * m)
                self.add_ge(v2 * m + (m - 1) - v)
        return dp + self.norm(v)

    def sample_ok(self):
        """not provably infeasible"""
        return not self.bad

    def dump(self):
        out = []
        for s in sorted(set(self.lo) | set(self.hi)):
            out.append('%s <= %s.%d <= %s' % (self.lo.get(s), NAME.get(s), s, self.hi.get(s)))
        for t, c in self.rows.items():
            out.append('%r >= 0' % Lin(c, t))
        for e in self.ne:
            out.append('%r != 0' % e)
        for s, r in self.sub.items():
            out.append('%s.%d := %r' % (NAME.get(s), s, r))
        return '\n'.join(out)
