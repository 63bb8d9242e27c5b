"""LLVM IR front end: compiles the C sources of /repo with clang (front end only,
nothing is run), promotes locals to SSA form with opt, and parses the textual IR
and its debug metadata into Python objects."""
import os, re, subprocess, sys, tempfile, shutil

REPO = os.environ.get('SA_REPO', '/repo')


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'elems', 'name', 'packed', '_off', '_size', '_al')

    def __init__(self, k, n=0, elems=None, name=None, packed=False):
        self.k = k          # int ptr void flt arr struct fn label meta opaque
        self.n = n          # bits / array count
        self.elems = elems  # struct members, [elem] for arrays
        self.name = name
        self.packed = packed
        self._off = None
        self._size = None
        self._al = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.elems[0])
        if self.k == 'struct':
            return self.name or '{%s}' % ','.join(map(repr, self.elems or []))
        return self.k

    def align(self):
        if self._al is None:
            if self.k == 'int':
                b = (self.n + 7) // 8
                a = 1
                while a < b and a < 16:
                    a *= 2
                self._al = a
            elif self.k == 'ptr':
                self._al = 8
            elif self.k == 'flt':
                self._al = 16 if self.n == 80 else self.n // 8
            elif self.k == 'arr':
                self._al = self.elems[0].align()
            elif self.k == 'struct':
                self._al = 1 if self.packed else max([e.align() for e in self.elems or []] or [1])
            else:
                self._al = 1
        return self._al

    def size(self):
        if self._size is None:
            if self.k == 'int':
                b = (self.n + 7) // 8
                a = self.align()
                self._size = (b + a - 1) // a * a
            elif self.k == 'ptr':
                self._size = 8
            elif self.k == 'flt':
                self._size = 16 if self.n == 80 else self.n // 8
            elif self.k == 'arr':
                self._size = self.n * self.elems[0].size()
            elif self.k == 'struct':
                self.offsets()
            else:
                self._size = 0
        return self._size

    def offsets(self):
        if self._off is None:
            off = 0
            r = []
            for e in self.elems or []:
                a = 1 if self.packed else e.align()
                off = (off + a - 1) // a * a
                r.append(off)
                off += e.size()
            a = self.align()
            self._size = (off + a - 1) // a * a
            self._off = r
        return self._off


VOID = Ty('void')
PTR = Ty('ptr')
LABEL = Ty('label')
META = Ty('meta')
_ints = {}


def INT(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Ty('int', n)
    return t


FLT = {'half': Ty('flt', 16), 'float': Ty('flt', 32), 'double': Ty('flt', 64),
       'x86_fp80': Ty('flt', 80), 'fp128': Ty('flt', 128)}

# ---------------------------------------------------------------- lexer
TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<glob>@(?:"[^"]*"|[-$._A-Za-z0-9]+))
 | (?P<loc>%(?:"[^"]*"|[-$._A-Za-z0-9]+))
 | (?P<meta>!(?:[-$._A-Za-z0-9]+)?)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?)
 | (?P<dots>\.\.\.)
 | (?P<word>[-$._A-Za-z][-$._A-Za-z0-9]*:?)
 | (?P<p>[=,(){}\[\]<>*|:])
''', re.X)


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('lex: ' + s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
    return out


# ---------------------------------------------------------------- IR objects
class Op:
    """operand: kind reg/int/null/undef/glob/zero/agg/str/gep/flt/cast/meta"""
    __slots__ = ('k', 'v', 'ty')

    def __init__(self, k, v, ty):
        self.k, self.v, self.ty = k, v, ty

    def __repr__(self):
        return '%s:%r' % (self.k, self.v)


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'line', 'fn', 'dbg')

    def __init__(self, op, dst, ty, a, x=None):
        self.op, self.dst, self.ty, self.a, self.x = op, dst, ty, a, x
        self.line = 0
        self.dbg = None
        self.fn = None

    def __repr__(self):
        return '<%s %s %r>' % (self.dst, self.op, self.a)


class Block:
    __slots__ = ('name', 'insts', 'succ', 'pred', 'phis', 'livein', 'rpo')

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.phis = []
        self.succ = []
        self.pred = []


class Func:
    def __init__(self, name, mod):
        self.name = name
        self.mod = mod
        self.params = []     # (Ty, regname)
        self.ret = VOID
        self.blocks = {}
        self.order = []
        self.internal = False
        self.varargs = False
        self.dbg = None
        self.defined = False
        self.key = None
        self.regline = {}
        self.vars = {}        # reg -> source variable name

    def __repr__(self):
        return '<Func %s>' % self.key


class Glob:
    def __init__(self, name, mod):
        self.name, self.mod = name, mod
        self.ty = None
        self.init = None
        self.const = False
        self.internal = False
        self.external = False
        self.key = None


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.globs = {}
        self.funcs = {}
        self.md = {}
        self._mdc = {}


SKIPW = set('''noundef nonnull noalias nocapture readonly writeonly readnone zeroext signext inreg
 returned nofree noreturn nounwind dso_local local_unnamed_addr unnamed_addr internal private
 external hidden protected default weak linkonce_odr linkonce common tail musttail notail fast
 nnan ninf nsz arcp contract afn reassoc nuw nsw exact inbounds volatile immarg allocptr
 allocsize cold constant_ dereferenceable_ fastcc ccc noinline'''.split())


class P:
    """recursive descent over a token list"""

    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else ('eof', '')

    def nxt(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def acc(self, s):
        if self.peek()[1] == s:
            self.i += 1
            return True
        return False

    def exp(self, s):
        t = self.nxt()
        if t[1] != s:
            raise IRError('expected %s got %s in %s' % (s, t, ' '.join(x[1] for x in self.t)))

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in SKIPW:
                self.i += 1
            elif k == 'attr':
                self.i += 1
            elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'addrspace', 'memory',
                                       'captures', 'range', 'sret', 'byval', 'allocsize', 'initializes', 'alignstack'):
                self.i += 1
                if self.peek()[1] == '(':
                    d = 0
                    while True:
                        v = self.nxt()[1]
                        if v == '(':
                            d += 1
                        elif v == ')':
                            d -= 1
                            if d == 0:
                                break
                elif self.peek()[0] == 'num':
                    self.i += 1
            else:
                return

    def type(self):
        k, v = self.nxt()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = INT(int(v[1:]))
            elif v == 'ptr':
                t = PTR
                if self.peek()[1] == 'addrspace':
                    self.skip_attrs()
            elif v == 'void':
                t = VOID
            elif v in FLT:
                t = FLT[v]
            elif v == 'label':
                t = LABEL
            elif v == 'metadata':
                t = META
            elif v == 'opaque':
                t = Ty('opaque')
            else:
                raise IRError('type ' + v)
        elif k == 'loc':
            nm = v[1:].strip('"')
            t = self.m.types.get(nm)
            if t is None:
                t = self.m.types[nm] = Ty('struct', elems=None, name=nm)
        elif v == '[':
            n = int(self.nxt()[1])
            self.exp('x')
            e = self.type()
            self.exp(']')
            t = Ty('arr', n, [e])
        elif v == '{':
            el = []
            while not self.acc('}'):
                el.append(self.type())
                self.acc(',')
            t = Ty('struct', elems=el)
        elif v == '<':
            if self.acc('{'):
                el = []
                while not self.acc('}'):
                    el.append(self.type())
                    self.acc(',')
                self.exp('>')
                t = Ty('struct', elems=el, packed=True)
            else:
                n = int(self.nxt()[1])
                self.exp('x')
                e = self.type()
                self.exp('>')
                t = Ty('vec', n, [e])
        else:
            raise IRError('type %s %s' % (k, v))
        # function types:  ret (args...)
        if self.peek()[1] == '(' and self.peek(1)[0] in ('word', 'dots', 'loc', 'p'):
            save = self.i
            try:
                self.i += 1
                while not self.acc(')'):
                    if self.peek()[0] == 'dots':
                        self.i += 1
                    else:
                        self.type()
                        self.skip_attrs()
                    if self.peek()[1] not in (',', ')'):
                        raise IRError('x')
                    self.acc(',')
                return Ty('fn', elems=[t])
            except IRError:
                self.i = save
        return t

    def value(self, ty):
        k, v = self.nxt()
        if k == 'loc':
            return Op('reg', v[1:].strip('"'), ty)
        if k == 'num':
            if ty.k == 'flt':
                return Op('flt', float(v), ty)
            return Op('int', int(v), ty)
        if k == 'hex':
            return Op('flt', v, ty)
        if k == 'glob':
            return Op('glob', v[1:].strip('"'), ty)
        if k == 'str':
            return Op('str', unesc(v[2:-1]), ty)
        if k == 'meta':
            return Op('meta', v, ty)
        if k == 'word':
            if v == 'null':
                return Op('null', None, ty)
            if v in ('undef', 'poison'):
                return Op('undef', None, ty)
            if v == 'zeroinitializer':
                return Op('zero', None, ty)
            if v == 'true':
                return Op('int', 1, ty)
            if v == 'false':
                return Op('int', 0, ty)
            if v == 'none':
                return Op('null', None, ty)
            if v == 'getelementptr':
                self.skip_attrs()
                self.exp('(')
                sty = self.type()
                ops = []
                while self.acc(','):
                    self.skip_attrs()
                    t = self.type()
                    ops.append(self.value(t))
                self.exp(')')
                return Op('gep', (sty, ops), ty)
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('(')
                t = self.type()
                o = self.value(t)
                self.exp('to')
                t2 = self.type()
                self.exp(')')
                return Op('cast', (v, o, t2), t2)
            if v in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'icmp', 'select', 'shl', 'lshr'):
                raise IRError('constexpr ' + v)
            if v == 'blockaddress':
                raise IRError('blockaddress')
        if v in ('{', '[', '<'):
            if v == '<' and self.peek()[1] == '{':
                self.nxt()
                close = ['}', '>']
            else:
                close = [{'{': '}', '[': ']', '<': '>'}[v]]
            el = []
            while not self.acc(close[0]):
                t = self.type()
                el.append(self.value(t))
                self.acc(',')
            for c in close[1:]:
                self.exp(c)
            return Op('agg', el, ty)
        raise IRError('value %s %s' % (k, v))

    def tv(self):
        self.skip_attrs()
        t = self.type()
        self.skip_attrs()
        if t is META:
            # skip metadata operand
            return self.metaop()
        return self.value(t)

    def metaop(self):
        k, v = self.peek()
        if k == 'meta':
            self.nxt()
            if self.peek()[1] == '(':
                d = 0
                while True:
                    x = self.nxt()[1]
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            return Op('meta', v, META)
        t = self.type()
        return Op('metav', self.value(t), META)


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(c) & 255)
            i += 1
    return bytes(out)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'inttoptr', 'ptrtoint', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
         'fpext', 'fptrunc', 'addrspacecast', 'freeze'}


def parse_inst(mod, line):
    m = re.search(r', !dbg !(\d+)', line)
    dbg = int(m.group(1)) if m else None
    toks = lex(line)
    # cut trailing metadata attachments
    cut = len(toks)
    depth = 0
    for j, (k, v) in enumerate(toks):
        if v in '([{' and k == 'p':
            depth += 1
        elif v in ')]}' and k == 'p':
            depth -= 1
        elif depth == 0 and k == 'meta' and j > 0 and toks[j - 1][1] == ',' and v[1:2].isalpha():
            cut = j - 1
            break
    toks = toks[:cut]
    p = P(mod, toks)
    dst = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dst = p.nxt()[1][1:].strip('"')
        p.nxt()
    p.skip_attrs()
    op = p.nxt()[1]
    I = None
    if op == 'br':
        t = p.type()
        if t is LABEL:
            I = Inst('br', None, VOID, [], [p.value(t).v])
        else:
            c = p.value(t)
            p.exp(',')
            p.type()
            a = p.value(LABEL).v
            p.exp(',')
            p.type()
            b = p.value(LABEL).v
            I = Inst('br', None, VOID, [c], [a, b])
    elif op == 'switch':
        v = p.tv()
        p.exp(',')
        p.type()
        d = p.value(LABEL).v
        p.exp('[')
        cases = []
        while not p.acc(']'):
            t = p.type()
            c = p.value(t).v
            p.exp(',')
            p.type()
            cases.append((c, p.value(LABEL).v))
        I = Inst('switch', None, VOID, [v], (d, cases))
    elif op == 'ret':
        t = p.type()
        if t is VOID:
            I = Inst('ret', None, VOID, [])
        else:
            I = Inst('ret', None, t, [p.value(t)])
    elif op == 'unreachable':
        I = Inst('unreachable', None, VOID, [])
    elif op in BIN:
        p.skip_attrs()
        p.acc('disjoint')
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        I = Inst(op, dst, t, [a, b])
    elif op == 'fneg':
        p.skip_attrs()
        t = p.type()
        I = Inst(op, dst, t, [p.value(t)])
    elif op in CASTS:
        if op == 'freeze':
            a = p.tv()
            I = Inst(op, dst, a.ty, [a])
        else:
            p.acc('nneg')
            p.skip_attrs()
            a = p.tv()
            p.exp('to')
            t = p.type()
            I = Inst(op, dst, t, [a])
    elif op in ('icmp', 'fcmp'):
        p.skip_attrs()
        pred = p.nxt()[1]
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        I = Inst(op, dst, INT(1), [a, b], pred)
    elif op == 'load':
        p.skip_attrs()
        t = p.type()
        p.exp(',')
        I = Inst(op, dst, t, [p.tv()])
    elif op == 'store':
        p.skip_attrs()
        v = p.tv()
        p.exp(',')
        I = Inst(op, None, VOID, [v, p.tv()])
    elif op == 'alloca':
        p.skip_attrs()
        t = p.type()
        n = None
        while p.acc(','):
            if p.peek()[1] == 'align':
                p.skip_attrs()
            else:
                n = p.tv()
        I = Inst(op, dst, PTR, [n] if n else [], t)
    elif op == 'getelementptr':
        p.skip_attrs()
        sty = p.type()
        ops = []
        while p.acc(','):
            ops.append(p.tv())
        I = Inst(op, dst, PTR, ops, sty)
    elif op == 'phi':
        p.skip_attrs()
        t = p.type()
        inc = []
        while True:
            p.exp('[')
            v = p.value(t)
            p.exp(',')
            b = p.nxt()[1][1:].strip('"')
            p.exp(']')
            inc.append((v, b))
            if not p.acc(','):
                break
        I = Inst(op, dst, t, [v for v, _ in inc], [b for _, b in inc])
    elif op == 'select':
        p.skip_attrs()
        c = p.tv()
        p.exp(',')
        a = p.tv()
        p.exp(',')
        b = p.tv()
        I = Inst(op, dst, a.ty, [c, a, b])
    elif op in ('call', 'tail', 'musttail', 'notail'):
        if op != 'call':
            p.exp('call')
        p.skip_attrs()
        t = p.type()
        if t.k == 'fn':
            t = t.elems[0]
        callee = p.value(PTR)
        p.exp('(')
        args = []
        while not p.acc(')'):
            args.append(p.tv())
            p.acc(',')
        I = Inst('call', dst, t, args, callee)
    elif op in ('extractvalue',):
        a = p.tv()
        idx = []
        while p.acc(','):
            idx.append(int(p.nxt()[1]))
        I = Inst(op, dst, None, [a], idx)
    elif op == 'insertvalue':
        a = p.tv()
        p.exp(',')
        b = p.tv()
        idx = []
        while p.acc(','):
            idx.append(int(p.nxt()[1]))
        I = Inst(op, dst, a.ty, [a, b], idx)
    else:
        I = Inst('unknown', dst, None, [], line)
    I.dbg = dbg
    return I


def parse_module(text, path):
    mod = Module(path)
    lines = text.split('\n')
    i = 0
    n = len(lines)
    # types first
    for l in lines:
        if l.startswith('%') and ' = type ' in l:
            nm, rest = l.split(' = type ', 1)
            nm = nm[1:].strip('"')
            t = mod.types.get(nm)
            if t is None:
                t = mod.types[nm] = Ty('struct', name=nm)
            if rest.strip() == 'opaque':
                continue
            p = P(mod, lex(rest))
            t2 = p.type()
            t.elems, t.packed = t2.elems, t2.packed
            t.k = t2.k
    fn = None
    blk = None
    while i < n:
        l = lines[i]
        i += 1
        if not l:
            continue
        c = l[0]
        if fn is None:
            if c == '@':
                parse_glob(mod, l)
            elif l.startswith('define ') or l.startswith('declare '):
                f = parse_fhead(mod, l)
                mod.funcs[f.name] = f
                if l.startswith('define '):
                    f.defined = True
                    fn = f
                    # entry label is implicit: number after params
                    nunn = sum(1 for _, r in f.params if r.isdigit())
                    blk = Block(str(nunn))
                    fn.blocks[blk.name] = blk
                    fn.order.append(blk.name)
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)', l)
                if m:
                    mod.md[int(m.group(1))] = m.group(2)
            continue
        if c == '}':
            finish(fn)
            fn = None
            continue
        if c != ' ':
            m = re.match(r'^("?)([-$._A-Za-z0-9]+)\1:', l)
            if m:
                nm = m.group(2)
                if not blk.insts and not blk.phis and blk.name not in ('x',) and len(fn.order) == 1 and fn.order[0] == blk.name:
                    # entry block had an explicit label
                    del fn.blocks[blk.name]
                    fn.order.pop()
                blk = Block(nm)
                fn.blocks[nm] = blk
                fn.order.append(nm)
            continue
        s = l.strip()
        if s.startswith('#dbg_'):
            continue
        if '@llvm.dbg.' in s:
            m = re.search(r'@llvm\.dbg\.(?:value|declare)\(metadata \S+ %("?)([-$._A-Za-z0-9]+)\1, metadata !(\d+)', s)
            if m:
                fn.vars[m.group(2)] = int(m.group(3))
            continue
        # multi-line switch
        if s.startswith('switch ') and not s.rstrip().endswith(']') and ']' not in s:
            while ']' not in lines[i]:
                s += ' ' + lines[i].strip()
                i += 1
            s += ' ' + lines[i].strip()
            i += 1
        try:
            ins = parse_inst(mod, s)
        except (IRError, IndexError, ValueError) as e:
            m = re.match(r'^%("?)([-$._A-Za-z0-9]+)\1 = ', s)
            ins = Inst('unknown', m.group(2) if m else None, None, [], s + ' // ' + str(e))
            m = re.search(r', !dbg !(\d+)', s)
            ins.dbg = int(m.group(1)) if m else None
        ins.fn = fn
        if ins.op == 'phi':
            blk.phis.append(ins)
        else:
            blk.insts.append(ins)
    return mod


def parse_glob(mod, l):
    m = re.match(r'^@("?)([-$._A-Za-z0-9]+)\1 = (.*)$', l)
    if not m:
        return
    g = Glob(m.group(2), mod)
    rest = m.group(3)
    rest = re.sub(r', !dbg !\d+', '', rest)
    toks = lex(rest)
    p = P(mod, toks)
    words = []
    while p.peek()[0] == 'word' and p.peek()[1] not in ('global', 'constant'):
        w = p.nxt()[1]
        words.append(w)
        if p.peek()[1] == '(':
            while p.nxt()[1] != ')':
                pass
    k = p.nxt()[1]
    g.const = (k == 'constant')
    g.internal = 'internal' in words or 'private' in words
    g.hidden = 'hidden' in words
    g.external = 'external' in words
    if k not in ('global', 'constant'):
        return
    try:
        g.ty = p.type()
        if not g.external:
            g.init = p.value(g.ty)
    except IRError:
        g.init = None
    mod.globs[g.name] = g


def parse_fhead(mod, l):
    m = re.search(r'@("?)([-$._A-Za-z0-9]+)\1\(', l)
    f = Func(m.group(2), mod)
    head = l[:m.start()]
    f.internal = bool(re.search(r'\b(internal|private)\b', head))
    f.hidden = bool(re.search(r'\bhidden\b', head))
    h = lex(head)
    p = P(mod, h)
    p.nxt()
    p.skip_attrs()
    f.ret = p.type()
    # params
    rest = l[m.end() - 1:]
    toks = lex(rest)
    p = P(mod, toks)
    p.exp('(')
    cnt = 0
    while not p.acc(')'):
        if p.peek()[0] == 'dots':
            p.nxt()
            f.varargs = True
            continue
        t = p.type()
        p.skip_attrs()
        nm = None
        if p.peek()[0] == 'loc':
            nm = p.nxt()[1][1:].strip('"')
        else:
            nm = str(cnt)
        cnt += 1
        f.params.append((t, nm))
        p.acc(',')
    m = re.search(r'!dbg !(\d+)', rest)
    f.dbg = int(m.group(1)) if m else None
    return f


def finish(fn):
    """CFG, order (loops contiguous), liveness."""
    mod = fn.mod
    for b in fn.blocks.values():
        t = b.insts[-1] if b.insts else None
        if t is None:
            b.succ = []
        elif t.op == 'br':
            b.succ = list(dict.fromkeys(t.x))
        elif t.op == 'switch':
            b.succ = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
        else:
            b.succ = []
        for ins in b.insts + b.phis:
            ins.fn = fn
    entry = fn.order[0]
    # reachable
    seen = set()
    st = [entry]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(fn.blocks[x].succ)
    for nme in list(fn.blocks):
        if nme not in seen:
            del fn.blocks[nme]
    fn.order = [x for x in fn.order if x in seen]
    for b in fn.blocks.values():
        b.pred = []
        for ph in b.phis:
            keep = [(a, x) for a, x in zip(ph.a, ph.x) if x in seen]
            ph.a = [a for a, _ in keep]
            ph.x = [x for _, x in keep]
    for b in fn.blocks.values():
        for s in b.succ:
            fn.blocks[s].pred.append(b.name)
    wto(fn)
    liveness(fn)


def wto(fn):
    """weak topological order (Bourdoncle): loop bodies are contiguous; sets rpo numbers,
    fn.heads (loop heads) and fn.loop_of (block -> list of enclosing heads)."""
    blocks = fn.blocks
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))
    order = []
    heads = set()
    loop_of = {}

    def sccs(nodes, start):
        idx = {}
        low = {}
        onst = set()
        stack = []
        out = []
        cnt = [0]

        def dfs(v):
            idx[v] = low[v] = cnt[0]
            cnt[0] += 1
            stack.append(v)
            onst.add(v)
            for w in blocks[v].succ:
                if w not in nodes:
                    continue
                if w not in idx:
                    dfs(w)
                    low[v] = min(low[v], low[w])
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = stack.pop()
                    onst.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                out.append(comp)

        for s in start:
            if s in nodes and s not in idx:
                dfs(s)
        out.reverse()
        return out

    def comp_order(nodes, start, enclosing):
        out = []
        for comp in sccs(nodes, start):
            if len(comp) == 1 and comp[0] not in blocks[comp[0]].succ:
                order.append(comp[0])
                loop_of[comp[0]] = list(enclosing)
                out.append(comp[0])
            else:
                cs = set(comp)
                # head: entered from outside (prefer the one with an outside predecessor / entry)
                ent = [v for v in comp if v == fn.order[0] or any(p not in cs for p in blocks[v].pred)]
                pos = {b: i for i, b in enumerate(fn.order)}
                ent.sort(key=lambda v: pos[v])
                h = ent[0] if ent else comp[0]
                heads.add(h)
                order.append(h)
                loop_of[h] = list(enclosing) + [h]
                rest = cs - {h}
                sub = comp_order(rest, [s for s in blocks[h].succ if s in rest] + sorted(rest, key=lambda v: pos[v]), list(enclosing) + [h])
                out.append((h, sub))
        return out

    fn.wto = comp_order(set(blocks), [fn.order[0]], [])
    for i, b in enumerate(order):
        blocks[b].rpo = i
    fn.heads = heads
    fn.loop_of = loop_of
    fn.loop_body = {h: {b for b in blocks if h in loop_of.get(b, [])} for h in heads}


def uses(ins):
    out = []

    def w(o):
        if o is None or not isinstance(o, Op):
            return
        if o.k == 'reg':
            out.append(o.v)
        elif o.k == 'gep':
            for q in o.v[1]:
                w(q)
        elif o.k == 'cast':
            w(o.v[1])
        elif o.k == 'agg':
            for q in o.v:
                w(q)
        elif o.k == 'metav':
            pass
    for o in ins.a:
        w(o)
    if ins.op == 'call':
        w(ins.x)
    return out


def liveness(fn):
    blocks = fn.blocks
    live = {b: set() for b in blocks}
    changed = True
    gen = {}
    for nme, b in blocks.items():
        g, k = set(), set()
        for ph in b.phis:
            k.add(ph.dst)
        for ins in b.insts:
            for u in uses(ins):
                if u not in k:
                    g.add(u)
            if ins.dst:
                k.add(ins.dst)
        gen[nme] = (g, k)
    while changed:
        changed = False
        for nme in blocks:
            b = blocks[nme]
            out = set()
            for s in b.succ:
                out |= live[s]
                for ph in blocks[s].phis:
                    out.discard(ph.dst)
            for s in b.succ:
                for ph in blocks[s].phis:
                    for v, src in zip(ph.a, ph.x):
                        if src == nme and v.k == 'reg':
                            out.add(v.v)
                        elif src == nme:
                            out.update(x for x in uses(Inst('x', None, None, [v])))
            g, k = gen[nme]
            li = g | (out - k)
            if li != live[nme]:
                live[nme] = li
                changed = True
    fn.livein = live
    # live after every call (for pruning the caller's frame)
    fn.liveafter = {}
    for nme, b in blocks.items():
        out = set()
        for s in b.succ:
            out |= live[s] - {ph.dst for ph in blocks[s].phis}
            for ph in blocks[s].phis:
                for v, src in zip(ph.a, ph.x):
                    if src == nme:
                        out.update(uses(Inst('x', None, None, [v])))
        cur = set(out)
        for ins in reversed(b.insts):
            fn.liveafter[id(ins)] = frozenset(cur)
            if ins.dst:
                cur.discard(ins.dst)
            cur.update(uses(ins))


# ---------------------------------------------------------------- metadata
def md_fields(txt):
    """parse !DIxxx(a: b, c: d) into (kind, dict)"""
    m = re.match(r'(?:distinct )?!(\w+)\((.*)\)$', txt)
    if not m:
        return None, {}
    body = m.group(2)
    d = {}
    for mm in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|!\d+|![A-Za-z]+\([^)]*\)|[^,]+)', body):
        v = mm.group(2)
        d[mm.group(1)] = v.strip('"') if v.startswith('"') else v.strip()
    return m.group(1), d


class DI:
    """debug-info types of one module"""

    def __init__(self, mod):
        self.mod = mod
        self.c = {}

    def node(self, n):
        if n is None or n == 'null':
            return None, {}
        if isinstance(n, str):
            n = int(n[1:])
        r = self.c.get(n)
        if r is None:
            r = self.c[n] = md_fields(self.mod.md.get(n, ''))
        return r

    def lst(self, n):
        if n is None:
            return []
        if isinstance(n, str):
            n = int(n[1:])
        t = self.mod.md.get(n, '')
        m = re.match(r'(?:distinct )?!\{(.*)\}$', t)
        if not m:
            return []
        return [x.strip() for x in m.group(1).split(',')] if m.group(1).strip() else []

    def line(self, n):
        k, d = self.node(n)
        if k == 'DILocation':
            return int(d.get('line', 0))
        return 0

    def file_of(self, n):
        k, d = self.node(n)
        return d.get('filename', '?')

    def strip(self, n):
        """type reference -> ('ptr', t) / ('struct', typedefname, node) / ('int', bits, signed) ..."""
        name = None
        while n is not None and n != 'null':
            k, d = self.node(n)
            tag = d.get('tag')
            if k == 'DIDerivedType' and tag in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type'):
                if tag == 'DW_TAG_typedef':
                    name = d.get('name')
                n = d.get('baseType')
                continue
            if k == 'DIDerivedType' and tag == 'DW_TAG_pointer_type':
                return ('ptr', d.get('baseType'), name)
            if k == 'DIBasicType':
                return ('int', int(d.get('size', 0)), d.get('encoding'), name or d.get('name'))
            if k == 'DICompositeType':
                return (tag.replace('DW_TAG_', '').replace('_type', ''), name or d.get('name'), n, d)
            if k == 'DISubroutineType':
                return ('fn', n, d)
            break
        return ('void', None)

    def tname(self, n):
        """readable C type name"""
        s = self.strip(n)
        # keep the outermost typedef for integers (u8, sml_unit ...)
        if s[0] == 'ptr':
            return self.tname(s[1]) + '*'
        if s[0] == 'int':
            return s[3]
        if s[0] in ('structure', 'union', 'enumeration'):
            return s[1] or '?'
        if s[0] == 'fn':
            return 'fn'
        if s[0] == 'array':
            return self.tname(s[3].get('baseType')) + '[]'
        return 'void'

    def ftype(self, f):
        """(ret type ref, [param refs]) of a function"""
        k, d = self.node(f.dbg)
        if not d:
            return None
        k2, d2 = self.node(d.get('type'))
        l = self.lst(d2.get('types'))
        return (l[0] if l else None, l[1:])

    def members(self, node):
        k, d = self.node(node)
        out = []
        for e in self.lst(d.get('elements')):
            kk, dd = self.node(e)
            if kk == 'DIDerivedType' and dd.get('tag') == 'DW_TAG_member':
                out.append((dd.get('name'), int(dd.get('offset', 0)), int(dd.get('size', 0)), dd.get('baseType'), dd))
        return out


# ---------------------------------------------------------------- program
def build_flags():
    return ['-std=c99', '-I%s/sml/include' % REPO]


def clang_ir(src, extra=(), keep=None):
    fd, ll = tempfile.mkstemp(suffix='.ll')
    os.close(fd)
    try:
        r = subprocess.run(['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w'] + build_flags() + list(extra) +
                           ['-S', '-emit-llvm', '-o', ll, src], capture_output=True, text=True)
        if r.returncode != 0:
            raise IRError('clang failed on %s:\n%s' % (src, r.stderr[:2000]))
        r = subprocess.run(['opt-18' if shutil.which('opt-18') else 'opt', '-passes=sroa', '-S', '-o', '-', ll],
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise IRError('opt failed on %s:\n%s' % (src, r.stderr[:2000]))
        return r.stdout
    finally:
        if os.path.exists(ll):
            os.unlink(ll)


def api_names():
    """names of the functions that the public headers declare"""
    inc = os.path.join(REPO, 'sml', 'include')
    hs = sorted(os.path.join(d, f) for d, _, fs in os.walk(inc) for f in fs if f.endswith('.h'))
    txt = ''.join('#include "%s"\n' % h for h in hs)
    r = subprocess.run(['clang', '-E', '-w', '-x', 'c'] + build_flags() + ['-'], input=txt, capture_output=True, text=True)
    if r.returncode != 0:
        raise IRError('headers: ' + r.stderr[:500])
    names, own = set(), False
    for l in r.stdout.split('\n'):
        if l.startswith('# '):
            m = re.match(r'# \d+ "(.*?)"', l)
            own = bool(m) and m.group(1).startswith(inc)
        elif own:
            names.update(re.findall(r'([A-Za-z_]\w*)\s*\(', l))
    return names


class Program:
    def __init__(self, extra=(), server=True):
        from concurrent.futures import ThreadPoolExecutor
        sdir = os.path.join(REPO, 'sml', 'src')
        srcs = sorted(os.path.join(sdir, f) for f in os.listdir(sdir) if f.endswith('.c'))
        if not srcs:
            raise IRError('no sources found')
        self.lib_srcs = list(srcs)
        self.server_src = os.path.join(REPO, 'examples', 'sml_server.c')
        if server and os.path.exists(self.server_src):
            srcs.append(self.server_src)
        with ThreadPoolExecutor(8) as ex:
            texts = list(ex.map(lambda s: clang_ir(s, extra), srcs))
        self.api = api_names()
        self.mods = []
        self.funcs = {}    # key -> Func (defined)
        self.globs = {}
        for s, t in zip(srcs, texts):
            m = parse_module(t, s)
            m.base = os.path.basename(s)
            m.di = DI(m)
            m.server = (s == self.server_src)
            self.mods.append(m)
            for f in m.funcs.values():
                f.key = ('%s:%s' % (m.base, f.name)) if f.internal else f.name
                if f.defined:
                    self.funcs[f.key] = f
                    f.di = m.di
                    for b in f.blocks.values():
                        for ins in b.insts + b.phis:
                            ins.line = m.di.line(ins.dbg) if ins.dbg else 0
            for g in m.globs.values():
                g.key = ('%s:%s' % (m.base, g.name)) if g.internal else g.name
                if not g.external:
                    self.globs[g.key] = g
                elif g.key not in self.globs:
                    self.globs[g.key] = g

    def resolve(self, mod, name):
        """global name in module -> ('f', Func) / ('x', name) / ('g', Glob)"""
        f = mod.funcs.get(name)
        if f is not None:
            if f.defined:
                return ('f', f)
            g = self.funcs.get(name)
            if g is not None and not g.internal:
                return ('f', g)
            return ('x', name)
        g = mod.globs.get(name)
        if g is not None:
            if g.external:
                g2 = self.globs.get(name)
                if g2 is not None:
                    return ('g', g2)
            return ('g', g)
        return ('x', name)

    def callees(self, f):
        """(instruction, kind, target) of every call in f: ('f', Func), ('x', name) or ('i', None) for a call through a pointer;
        functions whose address is taken as an operand are listed as ('a', Func)"""
        c = self.__dict__.setdefault('_callees', {}).get(f.key)
        if c is not None:
            return c
        c = []

        def addr(ins, o):
            if o is None or not hasattr(o, 'k'):
                return
            if o.k == 'glob':
                k, t = self.resolve(f.mod, o.v)
                if k == 'f':
                    c.append((ins, 'a', t))
            elif isinstance(o.v, (list, tuple)):
                for x in o.v:
                    addr(ins, x)
        for b in f.blocks.values():
            for ins in b.insts + b.phis:
                if ins.op == 'call':
                    if ins.x.k == 'glob':
                        k, t = self.resolve(f.mod, ins.x.v)
                        c.append((ins, 'f' if k == 'f' else 'x', t))
                    else:
                        c.append((ins, 'i', None))
                for o in ins.a or ():
                    if isinstance(o, tuple):
                        for x in o:
                            addr(ins, x)
                    else:
                        addr(ins, o)
        self._callees[f.key] = c
        return c

    def reach(self, f, addr=False):
        """keys of the functions reachable from f by direct calls (with addr: also those whose address is taken)"""
        seen, work = set(), [f]
        while work:
            g = work.pop()
            for ins, k, t in self.callees(g):
                if (k == 'f' or addr and k == 'a') and t.key not in seen:
                    seen.add(t.key)
                    work.append(t)
        return seen

    def recursive(self, f):
        return f.key in self.reach(f)

    def loc(self, ins):
        f = ins.fn
        p = f.mod.path
        if p.startswith(REPO + '/'):
            p = p[len(REPO) + 1:]
        return '%s:%d' % (p, ins.line)


if __name__ == '__main__':
    import time
    t = time.time()
    p = Program()
    print(time.time() - t, len(p.funcs))
    for f in p.funcs.values():
        for b in f.blocks.values():
            for ins in b.insts:
                if ins.op == 'unknown':
                    print(f.key, ins.x)
