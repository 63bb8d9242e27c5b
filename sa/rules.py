"""Whole-program rules on the call graph, on effects and on the public interface."""
import os, re, subprocess, tempfile, shutil
from . import ir
from .engine import Finding, Incomplete
from .builtins_ import EXITS, STDOUT_FNS


class RuleLog:
    """what a rule looked at and found (the interface of an engine, as far as the report needs it)"""

    def __init__(self, root):
        self.root = root
        self.findings, self.undecided, self.oblig, self.notes = {}, {}, {}, {}
        self.fnseen, self.callsites, self.stats, self.tags = set(), set(), {}, set()
        self.exits = 0

    def report(self, cat, loc, msg, why=None, ctx=()):
        f = Finding()
        f.cat, f.loc, f.msg, f.root, f.lossy, f.need, f.fn, f.wid = cat, loc, msg, self.root, why, None, '', 0
        f.ctx = list(ctx)
        (self.undecided if why else self.findings).setdefault(f.key(), f)

    def prove(self, cat, ok, loc, msg, why=None, ctx=()):
        self.oblig[cat] = self.oblig.get(cat, 0) + 1
        if not ok:
            self.report(cat, loc, msg, why, ctx)
        return ok


class Rule:
    name = 'rule'

    def __init__(self, prog, specs, opts=None):
        self.prog, self.specs, self.opts = prog, specs, opts or {}
        self.e = RuleLog(self.name)
        self.cases = {}

    def lib(self):
        for f in self.prog.funcs.values():
            if not f.mod.server:
                self.e.fnseen.add(f.key)
                yield f

    def case(self, k, n=1):
        self.cases[k] = self.cases.get(k, 0) + n

    def loc(self, ins):
        return '%s (%s)' % (self.prog.loc(ins).split(':')[0], ins.fn.name)

    def line(self, ins):
        return self.prog.loc(ins)

    def chain(self, f, keys):
        """a call chain from f to one of keys"""
        prev, work = {f.key: None}, [f]
        while work:
            g = work.pop(0)
            if g.key in keys:
                out = []
                k = g.key
                while k is not None:
                    out.append(k)
                    k = prev[k]
                return out[::-1]
            for i, k, t in self.prog.callees(g):
                if k in 'fa' and t.key not in prev:
                    prev[t.key] = g.key
                    work.append(t)
        return []


# ---------------------------------------------------------------- C19
STATEFUL = {'strtok', 'localtime', 'gmtime', 'asctime', 'ctime', 'strerror', 'setlocale', 'setenv', 'putenv', 'unsetenv', 'signal', 'sigaction',
            'atexit', 'srand', 'srandom', 'srand48', 'rand', 'random', 'drand48', 'lrand48', 'umask', 'chdir', 'tmpnam', 'getenv', 'sigprocmask', 'alarm'}
WRITES = {'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'strcpy': (0,), 'strncpy': (0,), 'strcat': (0,), 'strncat': (0,), 'sprintf': (0,),
          'snprintf': (0,), 'vsnprintf': (0,), 'read': (1,), 'fread': (0,), 'uuid_generate': (0,), 'uuid_generate_random': (0,), 'gettimeofday': (0,),
          'getrandom': (0,), 'bzero': (0,), 'free': (0,), 'realloc': (0,), 'stpcpy': (0,), 'fgets': (0,), 'recv': (1,), 'sscanf': None}


class NoState(Rule):
    """no library function writes to an object with static storage, or calls into state the C library keeps"""
    name = 'effects:static-storage'

    def run(self):
        e, prog = self.e, self.prog
        # constant objects cannot be written; the others must not be
        libg = {}
        for m in prog.mods:
            if m.server:
                continue
            for g in m.globs.values():
                if not g.external:
                    libg[g.key] = g
        self.case('static objects', len(libg))
        self.case('writable static objects', sum(not g.const for g in libg.values()))
        pts = {}        # (function, register) / ('ret', function) / ('par', function, i) -> set of global keys
        # flow-insensitive propagation of addresses of static objects
        funcs = [f for f in self.lib()]
        changed = True

        def gset(f, o):
            """static objects operand o may point into"""
            if o is None:
                return frozenset()
            if o.k == 'reg':
                return pts.get((f.key, o.v), frozenset())
            if o.k == 'glob':
                k, t = prog.resolve(f.mod, o.v)
                if k == 'g' and not t.external:
                    return frozenset([t.key])
                return frozenset()
            out = frozenset()
            if isinstance(o.v, (list, tuple)):
                for x in o.v:
                    if hasattr(x, 'k'):
                        out |= gset(f, x)
            elif hasattr(o.v, 'k'):
                out |= gset(f, o.v)
            return out

        def add(key, s):
            nonlocal changed
            if s and not s <= pts.get(key, frozenset()):
                pts[key] = pts.get(key, frozenset()) | s
                changed = True
        rounds = 0
        while changed and rounds < 60:
            changed = False
            rounds += 1
            for f in funcs:
                for i, (t, r) in enumerate(f.params):
                    add((f.key, r), pts.get(('par', f.key, i), frozenset()))
                for b in f.blocks.values():
                    for ins in b.phis + b.insts:
                        op = ins.op
                        if op in ('phi', 'select', 'getelementptr', 'bitcast', 'ptrtoint', 'inttoptr', 'insertvalue', 'extractvalue', 'add', 'sub', 'addrspacecast', 'freeze'):
                            s = frozenset()
                            for o in ins.a:
                                if hasattr(o, 'k'):
                                    s |= gset(f, o)
                            add((f.key, ins.dst), s)
                        elif op == 'ret' and ins.a:
                            add(('ret', f.key), gset(f, ins.a[0]))
                        elif op == 'call' and ins.x.k == 'glob':
                            k, t = prog.resolve(f.mod, ins.x.v)
                            if k == 'f':
                                for i, o in enumerate(ins.a):
                                    add(('par', t.key, i), gset(f, o))
                                if ins.dst:
                                    add((f.key, ins.dst), pts.get(('ret', t.key), frozenset()))
                            elif ins.dst and t.split('.')[0] in ('strchr', 'strrchr', 'strstr', 'memchr', 'memcpy', 'strcpy', 'strncpy', 'memset', 'memmove'):
                                add((f.key, ins.dst), gset(f, ins.a[0]))
        # who writes
        for f in funcs:
            for b in f.blocks.values():
                for ins in b.insts:
                    if ins.op == 'store':
                        self.write(f, ins, gset(f, ins.a[1]), 'stores to')
                        for k in gset(f, ins.a[0]):
                            if not libg[k].const if k in libg else True:
                                e.notes['address of %s stored at %s' % (k, self.line(ins))] = 1
                    elif ins.op in ('atomicrmw', 'cmpxchg', 'unknown'):
                        if '@' in str(ins.x or ''):
                            for g in re.findall(r'@([-$._A-Za-z0-9]+)', str(ins.x)):
                                k, t = prog.resolve(f.mod, g)
                                if k == 'g':
                                    self.write(f, ins, {t.key}, 'changes')
                    elif ins.op == 'call':
                        e.callsites.add((f.key, id(ins)))
                        if ins.x.k != 'glob':
                            continue
                        k, t = prog.resolve(f.mod, ins.x.v)
                        if k == 'f':
                            continue
                        n = t[5:].split('.')[0] if t.startswith('llvm.') else t.lstrip('_').replace('_chk', '')
                        if n in WRITES:
                            w = WRITES[n]
                            for i, o in enumerate(ins.a):
                                if w is None and i > 0 or w is not None and i in w:
                                    self.write(f, ins, gset(f, o), '%s writes to' % n)
                        if n in STATEFUL:
                            e.prove('C19', False, self.loc(ins), '%s calls %s, which works on state shared by the whole process' % (f.name, n),
                                    ctx=[self.line(ins)])
                        e.oblig['C19'] = e.oblig.get('C19', 0) + 1
        return self

    def write(self, f, ins, gs, what):
        self.e.oblig['C19'] = self.e.oblig.get('C19', 0) + 1
        for k in sorted(gs):
            self.e.report('C19', self.loc(ins), '%s %s the static object %s' % (f.name, what, k), ctx=[self.line(ins)])


# ---------------------------------------------------------------- C21
HARD_EXITS = {'exit', '_exit', '_Exit', 'quick_exit', 'err', 'errx', 'verr', 'verrx', 'raise', 'kill', 'killpg', 'tgkill', 'longjmp', 'siglongjmp', 'pthread_exit', 'pthread_kill',
              'execl', 'execv', 'execve', 'execlp', 'execvp', 'abort', 'alarm', 'sigqueue'}
PRINTERS = ('sml_file_print', 'sml_hexdump')


class NoExit(Rule):
    """no call that ends or signals the process, and stdout only from the two print functions"""
    name = 'effects:process'

    def run(self):
        e, prog = self.e, self.prog
        entries = [f for f in self.lib() if not f.internal]
        out, outloc = set(), {}
        for f in self.lib():
            for ins, k, t in prog.callees(f):
                if ins.op == 'call':
                    e.callsites.add((f.key, id(ins)))
                if k != 'x':
                    continue
                hard = t in HARD_EXITS
                if hard and t == 'abort':
                    # an abort behind a condition is judged where the paths are analysed
                    hard = self.unconditional(f, ins)
                e.prove('C21', not hard, self.loc(ins), '%s ends or signals the process (%s)' % (f.name, t), ctx=[self.line(ins)])
                std = t in STDOUT_FNS or t.lstrip('_').replace('_chk', '') in STDOUT_FNS or self.fd1(ins, t)
                if std:
                    out.add(f.key)
                    outloc[f.key] = ins
            for b in f.blocks.values():
                for ins in b.insts:
                    if ins.op == 'load' and ins.a[0].k == 'glob' and ins.a[0].v == 'stdout':
                        if self.used(f, ins):
                            out.add(f.key)
                            outloc[f.key] = ins
        self.case('functions that write to stdout', len(out))
        for p in PRINTERS:
            if p not in prog.funcs:
                self.case('missing ' + p)
        for f in entries:
            if f.name in PRINTERS:
                continue
            hit = [k for k in (prog.reach(f, True) | {f.key}) if k in out]
            # what the printers do on their own behalf is not the caller's: but calling a printer is
            ok = not hit
            c = self.chain(f, set(hit)) if hit else []
            tgt = c[-1] if c else ''
            ins = outloc.get(tgt)
            e.prove('C21', ok, self.loc(ins) if ins is not None else f.name, '%s writes to standard output%s' % (f.name, '' if tgt == f.key else ' through ' + ' > '.join(c[1:])),
                    ctx=c)
        return self

    def fd1(self, ins, t):
        if t in ('write', 'dprintf', 'vdprintf', 'writev', 'send', 'fdopen') and ins.a and getattr(ins.a[0], 'k', None) == 'int':
            return ins.a[0].v == 1
        return False

    def used(self, f, ld):
        """is the stream used for anything but flushing?"""
        for b in f.blocks.values():
            for ins in b.insts + b.phis:
                for i, o in enumerate(ins.a):
                    if hasattr(o, 'k') and o.k == 'reg' and o.v == ld.dst:
                        if ins.op == 'call' and ins.x.k == 'glob' and ins.x.v == 'fflush':
                            continue
                        return True
        return False

    def unconditional(self, f, ins):
        """does every path through f reach the instruction?"""
        tgt = None
        for b in f.blocks.values():
            if ins in b.insts:
                tgt = b.name
        seen, work = set(), [f.order[0]]
        while work:
            n = work.pop()
            if n == tgt or n in seen:
                continue
            seen.add(n)
            b = f.blocks[n]
            if not b.succ:
                return False
            work.extend(s if isinstance(s, str) else s.name for s in b.succ)
        return True


# ---------------------------------------------------------------- C24
class Stack(Rule):
    """recursion only to a depth that does not depend on the input; no stack block of variable size"""
    name = 'effects:stack'

    def run(self):
        e, prog = self.e, self.prog
        big = 0
        from .contracts import interfaces
        ifs = interfaces(prog, self.specs)
        for f in self.lib():
            for b in f.blocks.values():
                for ins in b.insts:
                    if ins.op == 'alloca':
                        self.case('stack blocks')
                        n = ins.a[0] if ins.a else None
                        fixed = n is None or n.k == 'int'
                        if not fixed:
                            self.case('stack blocks of variable size')
                        else:
                            k = (n.v if n is not None else 1) * ins.x.size()
                            big = max(big, k)
                            e.prove('C24', k <= 1 << 20, self.loc(ins), '%s has a stack block of %d bytes' % (f.name, k), ctx=[self.line(ins)])
            rec = f.key in prog.reach(f, True)
            e.prove('C24', True, '', '')
            if not rec:
                continue
            self.case('recursive functions')
            self.recursion(f, ifs.get(f.key))
        self.case('largest stack block', big)
        return self

    def recursion(self, f, it):
        """every recursive call must be covered by the path analysis of the function, which bounds it"""
        role = it.role if it is not None else None
        if role in ('parse', 'free', 'write'):
            self.case('recursive functions with a depth argument or structural descent')
            return
        for ins, k, t in self.prog.callees(f):
            if k in 'fa' and (t.key == f.key or f.key in self.prog.reach(t, True)):
                self.e.report('C24', self.loc(ins), '%s is recursive' % f.name, 'recursion outside the parse, write and free functions')


# ---------------------------------------------------------------- C28
class Headers(Rule):
    """public headers and exported symbols"""
    name = 'interface:headers'

    def run(self):
        from concurrent.futures import ThreadPoolExecutor
        e, prog = self.e, self.prog
        inc = os.path.join(ir.REPO, 'sml', 'include')
        hs = sorted(os.path.join(d, f) for d, _, fs in os.walk(inc) for f in fs if f.endswith('.h'))
        if not hs:
            raise Incomplete('no public headers')
        self.case('headers', len(hs))
        configs = [(), ('-DSML_NO_UUID_LIB',)]
        jobs = []
        for c in configs:
            for h in hs:
                jobs.append((c, h, ['clang', '-x', 'c', '-std=c99']))
                jobs.append((c, h, ['clang', '-x', 'c++']))

        def comp(j):
            c, h, cmd = j
            r = subprocess.run(cmd + ['-fsyntax-only', '-w', '-I' + inc] + list(c) + ['-'], input='#include "%s"\n#include "%s"\n' % (h, h), capture_output=True, text=True)
            return r.returncode, r.stderr
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(comp, jobs))
        bad = set()
        for (c, h, cmd), (rc, err) in zip(jobs, res):
            hn = os.path.relpath(h, ir.REPO)
            m = re.search(r'error: (.*)', err)
            if rc:
                bad.add(h)
            e.prove('C28', rc == 0, hn, '%s does not compile on its own as %s%s: %s' % (hn, 'C++' if 'c++' in cmd else 'C99', ' (%s)' % c[0] if c else '', m.group(1) if m else err[:200]))
        from .spec import Specs
        for c in configs:
            try:
                pr = prog if not c else ir.Program(c, server=False)
            except ir.IRError as x:
                m = re.search(r'error: (.*)', str(x))
                if m is None:
                    raise
                e.prove('C28', False, 'sml/src', 'the library does not compile with %s: %s' % (' '.join(c), m.group(1)))
                continue
            self.config(pr, c, inc, [h for h in hs if h not in bad])
        return self

    def config(self, prog, c, inc, hs):
        e = self.e
        cn = ' with ' + c[0] if c else ''
        # functions and objects the headers declare
        decls = self.declared(c, inc, hs)
        self.case('declared functions' + cn, len(decls))
        if len(decls) < 50:
            raise Incomplete('only %d function declarations found in the headers' % len(decls))
        for n, (kind, typ, h) in sorted(decls.items()):
            if kind == 'var':
                d = prog.globs.get(n)
                ok = d is not None and not d.external and not d.internal
            else:
                d = prog.funcs.get(n)
                ok = d is not None and not d.internal
            e.prove('C28', ok, h, '%s is declared in %s but not defined by the library%s' % (n, h, cn))
        # each definition is compiled in the sight of every public header: a signature that differs does not compile
        from concurrent.futures import ThreadPoolExecutor
        args = []
        for h in hs:
            args += ['-include', h]

        def comp(s):
            r = subprocess.run(['clang', '-fsyntax-only', '-w'] + ir.build_flags() + list(c) + args + [s], capture_output=True, text=True)
            return r.returncode, r.stderr
        with ThreadPoolExecutor(8) as ex:
            for s, (rc, err) in zip(prog.lib_srcs, ex.map(comp, prog.lib_srcs)):
                sn = os.path.relpath(s, ir.REPO)
                m = re.search(r'error: (.*)', err)
                e.prove('C28', rc == 0, sn, 'the definitions of %s do not agree with the public headers%s: %s' % (sn, cn, m.group(1) if m else err[:200]))
        # C linkage in C++
        fnames = [n for n, d in decls.items() if d[0] == 'fn']
        src = ''.join('#include "%s"\n' % h for h in hs) + 'extern "C" { void *sa_refs[] = {%s}; }\n' % ', '.join('(void *)&' + n for n in fnames)
        r = subprocess.run(['clang', '-x', 'c++', '-w', '-I' + inc] + list(c) + ['-S', '-emit-llvm', '-o', '-', '-'], input=src, capture_output=True, text=True)
        if r.returncode == 0:
            have = set(re.findall(r'^(?:declare|define)[^@]*@"?([\w.]+)', r.stdout, re.M))
            for n in fnames:
                e.prove('C28', n in have, decls[n][2], '%s has no C linkage when %s is used from C++%s' % (n, decls[n][2], cn))
        else:
            m = re.search(r'error: (.*)', r.stderr)
            e.prove('C28', False, 'sml/include', 'the public headers cannot be used together from C++%s: %s' % (cn, m.group(1) if m else ''))
        # the list of exported symbols
        sym = os.path.join(ir.REPO, 'debian', 'libsml1.symbols')
        if os.path.exists(sym):
            n = 0
            for l in open(sym):
                m = re.match(r' (\w+)@', l)
                if not m:
                    continue
                n += 1
                s = m.group(1)
                d = prog.funcs.get(s) or prog.globs.get(s)
                ok = d is not None and not d.internal and not getattr(d, 'external', False) and not self.hidden(d)
                e.prove('C28', ok, 'debian/libsml1.symbols', '%s is no longer exported by the library%s' % (s, cn))
            self.case('exported symbols' + cn, n)
            if n < 50:
                raise Incomplete('list of exported symbols not understood')
        else:
            raise Incomplete('no list of exported symbols')
        if c:
            for f in prog.funcs.values():
                e.fnseen.add(f.key)
                for ins, k, t in prog.callees(f):
                    if k == 'x':
                        e.prove('C28', not t.startswith('uuid_'), self.locp(prog, ins), '%s refers to %s of libuuid%s' % (f.name, t, cn))
            for s in prog.lib_srcs:
                r = subprocess.run(['clang', '-M', '-w'] + ir.build_flags() + list(c) + [s], capture_output=True, text=True)
                e.prove('C28', 'uuid/uuid.h' not in r.stdout, os.path.relpath(s, ir.REPO), '%s includes the header of libuuid%s' % (os.path.relpath(s, ir.REPO), cn))

    def locp(self, prog, ins):
        return '%s (%s)' % (prog.loc(ins).split(':')[0], ins.fn.name)

    def hidden(self, d):
        return getattr(d, 'hidden', False)

    def declared(self, c, inc, hs):
        import json
        src = ''.join('#include "%s"\n' % h for h in hs)
        r = subprocess.run(['clang', '-x', 'c', '-std=c99', '-w', '-I' + inc] + list(c) + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-'],
                           input=src, capture_output=True, text=True)
        if r.returncode != 0:
            raise Incomplete('the public headers do not compile together')
        t = json.loads(r.stdout)
        out = {}
        cur = ['']

        def setfile(l):
            if isinstance(l, dict):
                if 'file' in l:
                    cur[0] = l['file']
                for k in ('spellingLoc', 'expansionLoc', 'begin', 'end'):
                    if k in l:
                        setfile(l[k])

        def files(n):
            # the dump gives a file name only where it changes, in document order
            for k, v in n.items():
                if k in ('loc', 'range'):
                    setfile(v)
        for n in t.get('inner', []):
            setfile(n.get('loc'))
            here = cur[0]
            self._walk(n, setfile)
            if n.get('kind') in ('FunctionDecl', 'VarDecl') and here.startswith(inc) and n.get('storageClass') != 'static':
                if n.get('kind') == 'VarDecl' and n.get('storageClass') != 'extern':
                    continue
                if n.get('kind') == 'FunctionDecl' and n.get('inline') and any(x.get('kind') == 'CompoundStmt' for x in n.get('inner', [])):
                    continue
                out[n['name']] = ('fn' if n['kind'] == 'FunctionDecl' else 'var', n['type']['qualType'], os.path.relpath(here, ir.REPO))
        return out

    def _walk(self, n, setfile):
        for k, v in n.items():
            if k in ('range',):
                setfile(v)
            elif k == 'inner':
                for x in v:
                    if isinstance(x, dict):
                        setfile(x.get('loc'))
                        self._walk(x, setfile)
