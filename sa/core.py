"""Abstract domain: values, memory objects, states and the memory operations."""
from .lin import Lin, Store, C, V, ZERO, ONE, fresh, NAME
from .spec import strip_name
import itertools


class Null:
    __slots__ = ()

    def __repr__(self):
        return 'NULL'


class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'UNDEF'


NULL = Null()
UNDEF = Undef()


class Ptr:
    __slots__ = ('oid', 'off')

    def __init__(self, oid, off=ZERO):
        self.oid, self.off = oid, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.oid == o.oid and self.off == o.off

    def __hash__(self):
        return hash((self.oid, self.off))

    def __repr__(self):
        return '&%s+%r' % (self.oid, self.off)


class Fn:
    """function pointer: a Func object, an external name, or a symbolic role"""
    __slots__ = ('f', 'role')

    def __init__(self, f=None, role=None):
        self.f, self.role = f, role

    def __eq__(self, o):
        return isinstance(o, Fn) and self.f is o.f and self.role == o.role

    def __hash__(self):
        return hash((id(self.f), self.role))

    def __repr__(self):
        return 'fn:%s' % (self.role or (self.f if isinstance(self.f, str) else self.f.key))


class Flt:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Flt) and self.t == o.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return 'flt%r' % (self.t,)


class Cond:
    """a truth value not decided yet: kind in ge eq ne null nonnull any"""
    __slots__ = ('k', 'e')

    def __init__(self, k, e):
        self.k, self.e = k, e

    def __eq__(self, o):
        return isinstance(o, Cond) and self.k == o.k and self.e == o.e

    def __hash__(self):
        return hash((self.k, self.e))

    def neg(self):
        if self.k == 'ge':
            return Cond('ge', -self.e - 1)
        if self.k == 'eq':
            return Cond('ne', self.e)
        if self.k == 'ne':
            return Cond('eq', self.e)
        if self.k == 'null':
            return Cond('nonnull', self.e)
        if self.k == 'nonnull':
            return Cond('null', self.e)
        return self

    def atom(self):
        return (self.k, self.e)

    def __repr__(self):
        return '?%s(%r)' % (self.k, self.e)


class Atomic:
    """a value of another domain: only equal values are merged"""
    __slots__ = ()


class Top:
    """a value the analysis knows nothing about"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'TOP(%s)' % self.why


class Kill(Exception):
    """the current path ends"""


class Split(Exception):
    def __init__(self, alts):
        Exception.__init__(self)
        self.alts = alts


_oid = itertools.count(1)
_cid = itertools.count(1)


def new_cid():
    return next(_cid)


class Obj:
    __slots__ = ('oid', 'kind', 'size', 'freed', 'mnull', 'base', 'cells', 'log', 'hint', 'name', 'site', 'attrs')

    def __init__(self, kind, size, base, name='', site=None):
        self.oid = next(_oid)
        self.kind = kind            # heap stack global in stream seg
        self.size = size
        self.freed = None
        self.mnull = None           # tuple of atoms holding if the pointer is NULL, or None
        self.base = base
        self.cells = {}
        self.log = None
        self.hint = None
        self.name = name
        self.site = site
        self.attrs = {}

    def clone(self):
        o = Obj.__new__(Obj)
        o.oid, o.kind, o.size, o.freed, o.mnull, o.base = self.oid, self.kind, self.size, self.freed, self.mnull, self.base
        o.cells = dict(self.cells)
        o.log = list(self.log) if self.log is not None else None
        o.hint, o.name, o.site = self.hint, self.name, self.site
        o.attrs = dict(self.attrs)
        return o

    def __repr__(self):
        return '<%s#%d %s size=%r base=%r cells=%r log=%r%s%s>' % (
            self.kind, self.oid, self.name, self.size, self.base, self.cells, self.log,
            ' MN' if self.mnull is not None else '', ' FREED' if self.freed else '')


class State:
    __slots__ = ('store', 'mem', 'frames', 'trace', 'ghosts', 'lossy', 'nulled', 'memo', 'wid', 'loopmarks', 'path')

    def __init__(self):
        self.store = Store()
        self.mem = {}
        self.frames = []
        self.trace = ()
        self.ghosts = {}
        self.lossy = None
        self.nulled = set()
        self.memo = {}          # (cid, off, size) -> symbol expression
        self.wid = 0            # number of generalisation steps behind this state
        self.loopmarks = []     # trace lengths at the heads of active loops
        self.path = ()

    def copy(self):
        s = State.__new__(State)
        s.store = self.store.copy()
        s.mem = dict(self.mem)
        s.frames = [dict(f) for f in self.frames]
        s.trace = self.trace
        s.ghosts = dict(self.ghosts)
        s.lossy = self.lossy
        s.nulled = set(self.nulled)
        s.memo = dict(self.memo)
        s.wid = self.wid
        s.loopmarks = list(self.loopmarks)
        s.path = self.path
        return s

    def lose(self, why):
        if self.lossy is None:
            self.lossy = why

    # ---- objects
    def add(self, o):
        self.mem[o.oid] = o
        return Ptr(o.oid)

    def obj(self, oid):
        return self.mem.get(oid)

    def wobj(self, oid):
        o = self.mem[oid].clone()
        self.mem[oid] = o
        return o

    # ---- constraints
    def assume(self, a):
        """add an atom; False when infeasible"""
        if callable(a):
            return a(self)
        k, e = a
        st = self.store
        if k == 'ge':
            return st.assume_ge(e)
        if k == 'eq':
            return st.assume_eq(e)
        if k == 'ne':
            return st.assume_ne(e)
        if k == 'null':
            o = self.mem.get(e)
            if o is None:
                return e in self.nulled
            if o.mnull is None:
                return False
            self.nulled.add(e)
            cs = o.mnull
            del self.mem[e]
            for c in cs:
                if not self.assume(c):
                    return False
            return True
        if k == 'nonnull':
            if e in self.nulled:
                return False
            o = self.mem.get(e)
            if o is not None and o.mnull is not None:
                cs = o.attrs.get('nn')
                o = self.wobj(e)
                o.mnull = None
                for c in cs or ():
                    if not self.assume(c):
                        return False
            return True
        if k == 'any':
            return True
        raise ValueError(k)

    def feasible(self, atoms):
        s = self.copy()
        for a in atoms:
            if not s.assume(a):
                return None
        return s

    # ---- symbols
    def sym(self, name, lo=None, hi=None):
        return self.store.new(name, lo, hi)

    def byte(self, cid, off, size=1):
        """content symbol of an opaque region"""
        off = self.store.norm(off)
        k = (cid, off, size)
        v = self.memo.get(k)
        if v is not None:
            return self.store.norm(v)
        if off.t:
            for k2, v in self.memo.items():
                if len(k2) != 3 or k2[0] != cid:
                    continue
                c2, o2, s2 = k2
                if c2 == cid and s2 == size and o2 != off:
                    d = self.store.norm(o2 - off)
                    if (not d.t and d.c == 0) or (d.t and self.store.eq(d)):
                        self.memo[k] = v
                        return self.store.norm(v)
        v = self.sym('b%s' % cid, 0, 256 ** size - 1)
        DEF[v.t[0][0]] = ('byte', cid, off, size)
        self.memo[k] = v
        return v

    def check(self):
        return not self.store.bad


# meaning of selected symbols, for diagnostics and content checks
DEF = {}


def contains_ptr(v):
    return isinstance(v, Ptr)


class NullOff:
    """NULL plus an offset: not NULL, but never valid"""
    __slots__ = ('off',)

    def __init__(self, off):
        self.off = off
