"""The work items of the checks: one per entry point of the library and per whole-program rule."""
import time, traceback
from .engine import Incomplete
from .contracts import interfaces
from . import roots, wroots, xroots, vroots, crc, troots, rules, quirks, hroots

# engine categories -> property, by kind of root
COMMON = {'null': 'C03', 'uninit': 'C03', 'uaf': 'C02', 'double-free': 'C02', 'bad-free': 'C02', 'leak': 'C02',
          'const-write': 'C19', 'format': 'C03', 'div0': 'C03', 'type': 'C09', 'wrongwrite': 'C11', 'exit': 'C21', 'stdout': 'C21',
          'vla': 'C24', 'alloc': 'C06', 'loop': 'C06'}
CATMAP = {
    'parse': dict(COMMON, **{'oob-read': 'C01', 'oob-write': 'C01', 'wrongwrite': 'C09'}),
    'write': dict(COMMON, **{'oob-read': 'C12', 'oob-write': 'C12'}),
    'free': dict(COMMON, **{'oob-read': 'C02', 'oob-write': 'C02', 'uninit': 'C02'}),
    'init': dict(COMMON, **{'oob-read': 'C29', 'oob-write': 'C29', 'uninit': 'C29'}),
    'add': dict(COMMON, **{'oob-read': 'C25', 'oob-write': 'C25', 'uninit': 'C25'}),
    'helper': dict(COMMON, **{'oob-read': 'C23', 'oob-write': 'C23', 'null': 'C23', 'uninit': 'C23', 'format': 'C23'}),
    'tl': dict(COMMON, **{'oob-read': 'C01', 'oob-write': 'C12'}),
    'crc': dict(COMMON, **{'oob-read': 'C15', 'oob-write': 'C15', 'uninit': 'C15'}),
    'transport': dict(COMMON, **{'oob-read': 'C16', 'oob-write': 'C16', 'uninit': 'C16', 'null': 'C16'}),
    'send': dict(COMMON, **{'oob-read': 'C12', 'oob-write': 'C12'}),
    'file': dict(COMMON, **{'oob-read': 'C01', 'oob-write': 'C01'}),
    'device': dict(COMMON, **{'oob-read': 'C18', 'oob-write': 'C18', 'uninit': 'C18'}),
    'uuid': dict(COMMON, **{'oob-read': 'C27', 'oob-write': 'C27', 'uninit': 'C27', 'leak': 'C27'}),
    'server': {k: 'C26' for k in list(COMMON) + ['oob-read', 'oob-write']},
}

UNDEFINED = ('null', 'uninit', 'uaf', 'double-free', 'bad-free', 'oob-read', 'oob-write', 'div0', 'const-write')
# both directions against one specification: whatever is written is read back
ROUND = frozenset(('C05', 'C07', 'C08', 'C09', 'C10', 'C11', 'C13', 'C14', 'C22', 'C25'))
ROUNDKINDS = ('parse', 'write', 'file', 'tl', 'add')
MEMORY = UNDEFINED + ('leak', 'format', 'exit')


class Task:
    """name, kind and the properties its obligations belong to; make(soft) -> finished root with .e"""

    def __init__(self, name, kind, props, make, main=None):
        self.name, self.kind, self.props, self.make = name, kind, frozenset(props), make
        self.retry, self.factor = True, 1
        self.also = ()            # properties that need it to be free of memory errors, and what it returns complete
        self.more = []            # (categories or properties, a further property that is broken with them)
        self.adds = ()            # the tasks of the add functions it calls
        self.main = main          # decided on exact values: a path that ends in a memory error has none

    def run(self, limit=100):
        t0 = time.time()
        limit *= self.factor
        res = self.once({'time': limit})
        if self.retry and (res['findings'] or res['incomplete']) and res['incomplete'] != 'time':
            # more case distinctions before anything is merged
            r2 = self.once({'time': limit, 'soft': 4})
            if not r2['incomplete']:
                r2['refined'] = True
                res = r2
        if (res['findings'] or res['incomplete']) and self.adds:
            # how a container finds room for one more is decided with the add functions
            names = {}
            for t in self.adds:
                r = t.run(limit)
                if not r['findings'] and not r['incomplete']:
                    names[t.name.split(':')[1]] = t.add
            if names:
                r3 = self.once({'time': limit, 'adds': names})
                if r3['findings']:
                    r3 = self.once({'time': limit, 'adds': names, 'soft': 4})
                if not r3['incomplete']:
                    r3['refined'] = True
                    res = r3
        res['wall'] = round(time.time() - t0, 2)
        return res

    def once(self, opts):
        out = {'name': self.name, 'kind': self.kind, 'findings': [], 'undecided': [], 'oblig': {}, 'notes': {}, 'cases': {},
               'incomplete': None, 'functions': [], 'callsites': 0, 'exits': 0, 'stats': {}, 'tags': []}
        r = None
        try:
            r = self.make(opts)
            r.run()
        except Incomplete as x:
            out['incomplete'] = str(x)
        except RecursionError:
            out['incomplete'] = 'recursion'
        except Exception as x:
            tb = traceback.extract_tb(x.__traceback__)[-1]
            out['incomplete'] = 'internal: %s %s (%s:%s)' % (type(x).__name__, x, tb.filename.split('/')[-1], tb.lineno)
        if r is not None:
            e = r.e
            m = CATMAP.get(self.kind, COMMON)
            for src, dst in ((e.findings, out['findings']), (e.undecided, out['undecided'])):
                for f in src.values():
                    ps = [m.get(f.cat, f.cat)]
                    if self.main and f.cat in UNDEFINED:
                        ps.append(self.main)
                    if f.cat in MEMORY or 'C04' in ps:
                        ps += self.also
                    for what, p in self.more:
                        if p not in ps and (f.cat in what or what.intersection(ps)):
                            ps.append(p)
                    if 'C30' in self.props and ROUND.intersection(ps):
                        ps.append('C30')
                    dst.append({'props': ps, 'cat': f.cat, 'loc': f.loc, 'msg': f.msg, 'root': f.root, 'src': f.src,
                                'why': f.lossy, 'need': str(f.need) if f.need is not None else None, 'path': f.ctx})
            out['oblig'] = dict(e.oblig)
            out['notes'] = dict(e.notes)
            out['cases'] = dict(getattr(r, 'cases', {}))
            out['functions'] = sorted(str(x) for x in e.fnseen)
            out['callsites'] = len(e.callsites)
            out['exits'] = getattr(e, 'exits', 0)
            out['stats'] = dict(e.stats)
            out['tags'] = sorted(getattr(e, 'tags', ()))
        return out


PARSE_PROPS = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C10', 'C19', 'C20', 'C21', 'C24')


def parse_tasks(prog, specs, ifs):
    for it in ifs.values():
        if it.role != 'parse' or it.fn.internal:
            continue
        props = set(PARSE_PROPS)
        if it.kind in ('body', 'ppv', 'value', 'status'):
            props.add('C09')
        if it.kind == 'message':
            props.update(('C07', 'C08'))
        if it.kind in ('list', 'time', 'value', 'status'):
            props.update(('C22', 'C09') if it.kind in ('list', 'time') else ('C09',))
        if it.kind in ('value', 'status', 'bool', 'octet') or it.spec.startswith('num'):
            props.add('C14')

        def make(o, it=it):
            return (quirks.ListRoot if it.kind == 'list' else roots.ParseRoot)(prog, specs, it.fn, it.kind, it.spec, it.extra, opts=o)
        yield Task('parse:' + it.fn.name, 'parse', props, make)


WRITE_PROPS = ('C02', 'C03', 'C11', 'C12', 'C19', 'C21', 'C24')


def write_tasks(prog, specs, ifs):
    for it in ifs.values():
        if it.role != 'write' or it.fn.name not in prog.api:
            continue
        props = set(WRITE_PROPS)
        if it.kind in ('body', 'ppv', 'value', 'status') or '_sequence' in str(it.spec):
            props.add('C09')

        def make(o, it=it):
            return wroots.WriteRoot(prog, specs, it.fn, it.kind, it.spec, opts=o)
        yield Task('write:' + it.fn.name, 'write', props, make)


def misc_tasks(prog, specs, ifs):
    fns = {f.name: f for f in prog.funcs.values() if not f.mod.server}

    def T(name, kind, props, cls, *a, main=None):
        return Task(name, kind, props, lambda o: cls(prog, specs, *a, opts=o), main)
    for it in ifs.values():
        f = it.fn
        if f.name not in prog.api:
            if f.internal and it.role == 'parse' and prog.recursive(f):
                def make(o, it=it):
                    return roots.ParseRoot(prog, specs, it.fn, it.kind, it.spec, it.extra, opts=o)
                yield Task('parse:' + f.name, 'parse', PARSE_PROPS, make)
            continue
        if it.role == 'free':
            ps = {'C02', 'C03', 'C19', 'C21', 'C24'}
            main = None
            if it.spec in xroots.TAGGED:
                ps.add('C09')
                main = 'C09'
            yield T('free:' + f.name, 'free', ps, xroots.FreeRoot, f, it.spec, main=main)
        elif f.name.endswith('_init'):
            ps = {'C29', 'C02', 'C03', 'C19', 'C20', 'C21'}
            if it.ret == ('ptr', 'sml_message'):
                ps.add('C27')
            yield T('init:' + f.name, 'init', ps, xroots.InitRoot, f, it)
        elif '_add' in f.name and it.ret[0] == 'void' and len(it.params) == 2 and it.params[0][1] in ('sml_list_entry',) + tuple(xroots.ADD):
            t = T('add:' + f.name, 'add', {'C25', 'C02', 'C03', 'C06', 'C19', 'C21'}, xroots.AddRoot, f, it)
            t.fn, t.add = f, xroots.ADD.get(it.params[0][1])
            yield t
    f = fns.get('sml_sequence_parse')
    if f:
        yield T('parse:' + f.name, 'parse', PARSE_PROPS, xroots.SeqParseRoot, f)
    f = fns.get('sml_sequence_write')
    if f:
        yield T('write:' + f.name, 'write', WRITE_PROPS, xroots.SeqWriteRoot, f)


def value_tasks(prog, specs, ifs):
    fns = {f.name: f for f in prog.funcs.values() if not f.mod.server}
    T = lambda pre, kind, props, cls, name: Task(pre + ':' + name, kind, props, lambda o: cls(prog, specs, fns[name], opts=o), cls.cat if cls.cat in props else None)
    P = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C13', 'C19', 'C20', 'C21', 'C24')
    W = ('C02', 'C03', 'C11', 'C12', 'C13', 'C19', 'C21', 'C24')
    if 'sml_buf_get_next_length' in fns:
        yield T('parse', 'parse', P, vroots.TLDecodeRoot, 'sml_buf_get_next_length')
    if 'sml_buf_set_type_and_length' in fns:
        yield T('write', 'write', W, vroots.TLEncodeRoot, 'sml_buf_set_type_and_length')
    if 'sml_buf_reserve' in fns:
        yield T('write', 'write', W[:4], vroots.ReserveRoot, 'sml_buf_reserve')
    if 'sml_buf_optional_write' in fns:
        yield T('write', 'write', W[:4], vroots.SkipRoot, 'sml_buf_optional_write')


    if 'sml_number_parse' in fns:
        f = fns['sml_number_parse']
        for ty, t in ((0x50, 'signed'), (0x60, 'unsigned')):
            yield Task('parse:%s %s any' % (f.name, t), 'parse', P + ('C14',), lambda o, ty=ty: vroots.Multi(
                [vroots.NumAny(prog, specs, f, ty, mx, o) for mx in (1, 2, 4, 8)]), 'C14')
            yield Task('parse:%s %s' % (f.name, t), 'parse', P + ('C14',), lambda o, ty=ty: vroots.NumParseRoot(prog, specs, f, ty, opts=o), 'C14')
    if 'sml_number_write' in fns:
        yield T('write', 'write', W + ('C14',), vroots.NumWriteRoot, 'sml_number_write')
    if 'sml_number_init' in fns:
        yield T('init', 'init', ('C29', 'C02', 'C03', 'C14'), vroots.NumInitRoot, 'sml_number_init')
    if 'sml_number_free' in fns:
        yield T('free', 'free', ('C02', 'C03', 'C19', 'C21', 'C24'), vroots.NumFreeRoot, 'sml_number_free')
    if 'sml_boolean_parse' in fns:
        yield T('parse=', 'parse', P + ('C14',), vroots.BoolParseRoot, 'sml_boolean_parse')
    for spec in ('sml_value', 'sml_status'):
        n = spec + '_parse'
        if n in fns:
            yield Task('parse=:' + n, 'parse', P + ('C14', 'C09'), lambda o, n=n, spec=spec: vroots.ValueExact(prog, specs, fns[n], spec, opts=o), 'C14')
    for n, w in (('sml_crc16_calculate', 'x25'), ('sml_crc16kermit_calculate', 'kermit')):
        if n in fns:
            yield Task('crc:' + n, 'crc', ('C15', 'C02', 'C19', 'C20', 'C21', 'C24'), lambda o, n=n, w=w: crc.CrcRoot(prog, specs, fns[n], w, opts=o), 'C15')
    if 'sml_boolean_write' in fns:
        yield T('write=', 'write', W + ('C14',), vroots.BoolWriteRoot, 'sml_boolean_write')


def transport_tasks(prog, specs, ifs):
    fns = {f.name: f for f in prog.funcs.values() if not f.mod.server}
    T = lambda name, kind, props, cls, f, main: Task(name, kind, props, lambda o: cls(prog, specs, f, opts=o), main)
    P = ('C02', 'C03', 'C19', 'C21', 'C24')
    f = fns.get('sml_transport_read')
    if f:
        yield T('transport:' + f.name, 'transport', P + ('C16', 'C18'), troots.FrameRoot, f, 'C16')
    f = fns.get('sml_read')
    if f and [t.k for t, _ in f.params] == ['int', 'ptr', 'ptr', 'int']:
        yield T('device:' + f.name, 'device', P + ('C18', 'C16'), troots.ReaderRoot, f, 'C18')
    f = fns.get('sml_transport_listen')
    if f:
        yield T('transport:' + f.name, 'transport', P + ('C16',), troots.ListenRoot, f, 'C16')
    f = fns.get('sml_file_parse')
    if f:
        yield T('parse:' + f.name, 'file', P + ('C08', 'C01', 'C06', 'C20', 'C04'), troots.FileParseRoot, f, 'C08')
    f = fns.get('sml_file_write')
    if f:
        yield T('write:' + f.name, 'write', P + ('C11', 'C12'), troots.FileWriteRoot, f, 'C11')
    f = fns.get('sml_transport_write')
    if f:
        yield T('send:' + f.name, 'send', P + ('C17', 'C12'), troots.SendRoot, f, 'C17')


HELPERS = {'sml_value_to_double': hroots.DoubleRoot, 'sml_octet_string_cmp': hroots.CmpRoot, 'sml_octet_string_init_from_hex': hroots.FromHexRoot,
           'sml_octet_string_cmp_with_hex': hroots.CmpHexRoot, 'sml_value_to_strhex': hroots.StrhexRoot, 'sml_hexdump': hroots.HexdumpRoot}


class NoUuid:
    """the build without libuuid, compiled when first needed"""
    prog = None

    @classmethod
    def get(cls):
        if cls.prog is None:
            from .ir import Program
            from .spec import Specs
            cls.prog = Program(extra=('-DSML_NO_UUID_LIB',), server=False)
            cls.specs = Specs(cls.prog)
        return cls.prog, cls.specs


def helper_tasks(prog, specs, ifs):
    fns = {f.name: f for f in prog.funcs.values() if not f.mod.server}
    for n, cls in HELPERS.items():
        if n in fns:
            yield Task('helper:' + n, 'helper', ('C23', 'C02', 'C03', 'C19', 'C20'), lambda o, n=n, cls=cls: cls(prog, specs, fns[n], opts=o), 'C23')
    if 'sml_file_print' in fns:
        yield Task('print:sml_file_print', 'file', ('C02', 'C03'), lambda o: hroots.PrintRoot(prog, specs, fns['sml_file_print'], opts=o), 'C03')
    n = 'sml_octet_string_generate_uuid'
    if n in fns:
        yield Task('uuid:' + n, 'uuid', ('C27', 'C02'), lambda o: hroots.UuidRoot(prog, specs, fns[n], True, opts=o), 'C27')

        def make(o):
            p, s = NoUuid.get()
            return hroots.UuidRoot(p, s, p.funcs[n], False, opts=o)
        yield Task('uuid:%s without libuuid' % n, 'uuid', ('C27', 'C02'), make, 'C27')
    for it in ifs.values():
        if it.fn.name in prog.api and it.fn.name.endswith('_init') and it.ret == ('ptr', 'sml_message'):
            def make2(o, n=it.fn.name):
                p, s = NoUuid.get()
                it2 = [x for x in interfaces(p, s).values() if x.fn.name == n][0]
                return xroots.InitRoot(p, s, it2.fn, it2, opts=o)
            yield Task('init:%s without libuuid' % it.fn.name, 'uuid', ('C27', 'C02'), make2, 'C27')


def server_tasks(prog, specs):
    for f in prog.funcs.values():
        if f.mod.server and f.name == 'transport_receiver' and [t.k for t, _ in f.params] == ['ptr', 'int']:
            t = Task('server:' + f.name, 'server', {'C26'}, lambda o, f=f: hroots.ServerRoot(prog, specs, f, opts=o), None)
            t.retry, t.factor = False, 4       # one large function with nested loops
            yield t


def rule_tasks(prog, specs):
    for cls, props in ((rules.NoState, {'C19'}), (rules.NoExit, {'C21'}), (rules.Stack, {'C24'}), (rules.Headers, {'C28'})):
        yield Task(cls.name, 'rule', props, lambda o, cls=cls: cls(prog, specs, o))


def all_tasks(prog, specs):
    ifs = interfaces(prog, specs)
    fns = {f.name: f for f in prog.funcs.values() if not f.mod.server}
    out = []
    out += list(parse_tasks(prog, specs, ifs))
    out += list(write_tasks(prog, specs, ifs))
    out += list(misc_tasks(prog, specs, ifs))
    out += list(value_tasks(prog, specs, ifs))
    out += list(transport_tasks(prog, specs, ifs))
    out += list(helper_tasks(prog, specs, ifs))
    out += list(server_tasks(prog, specs))
    out += list(rule_tasks(prog, specs))
    adds = [t for t in out if t.kind == 'add' and getattr(t, 'add', None)]
    for t in out:
        f = fns.get(t.name.split(':')[-1]) if t.kind in ('parse', 'file') else None
        if f is not None:
            r = prog.reach(f)
            t.adds = [a for a in adds if a.fn.key in r]
    for t in out:
        if t.kind in ROUNDKINDS and ROUND & t.props:
            t.props |= {'C30'}
    # the receiver relies on every function it uses
    used = set()
    for f in prog.funcs.values():
        if f.mod.server:
            used |= prog.reach(f)
    for t in out:
        f = fns.get(t.name.split(':')[-1])
        if f is not None and f.key in used and t.kind in ('parse', 'file', 'free', 'helper', 'transport', 'device', 'add'):
            t.props |= {'C26'}
            t.also = ('C26',)
            if t.kind == 'helper':
                t.more.append((frozenset(('C23',)), 'C26'))        # what it prints comes from them
    # one defect, several guarantees broken
    parsing = set()
    for t in out:
        f = fns.get(t.name.split(':')[-1])
        if f is not None and t.kind in ('parse', 'file'):
            parsing |= prog.reach(f)
    for t in out:
        f = fns.get(t.name.split(':')[-1])
        if t.kind in ('write', 'send') and 'C12' in t.props:
            t.more.append((frozenset(('uaf',)), 'C12'))
        if t.kind in ('parse', 'file') and 'C01' in t.props:
            t.more.append((frozenset(('uaf',)), 'C01'))
        if t.kind == 'add' and f is not None and f.key in parsing:
            t.more.append((frozenset(('uaf', 'oob-read', 'oob-write')), 'C01'))
        if t.kind in ('parse', 'write', 'free', 'init') and 'C03' in t.props:
            t.more.append((frozenset(('null', 'uninit')), 'C03'))
        if t.kind == 'crc':
            t.more.append((frozenset(('C15',)), 'C07'))
            if t.name == 'crc:sml_crc16_calculate':
                t.more.append((frozenset(('C15',)), 'C17'))
        if t.kind == 'parse' and 'C07' in t.props:
            t.more.append((frozenset(('C08',)), 'C04'))
        if t.name == 'add:sml_file_add_message':
            t.more.append((frozenset(('C25',)), 'C08'))
        t.props |= {p for _, p in t.more}
    return out
