"""Verdict, evidence file and known findings."""
import json, os, re, sys


def known(here):
    """entries 'finding: property=<id> root=<root> where=<function: access path> what=<text>' suppress exactly one construct"""
    out = []
    try:
        for l in open(os.path.join(here, 'known_findings.txt')):
            if l.startswith('finding:'):
                m = re.match(r'finding: property=(\S+) root=(\S+) where=(.*?) what=(.*)$', l.strip())
                if m:
                    out.append(m.groups())
    except OSError:
        pass
    return out


def finish(here, prop, tier, tasks, res, prog, wall):
    viol, und, inc = {}, {}, []
    kn, shown = known(here), {}
    cats = {}
    fns, calls, exits = set(), 0, 0
    insts = loops = states = 0
    cases = {}
    rules = {}
    for r in res:
        if r['incomplete']:
            inc.append('%s: %s' % (r['name'], r['incomplete']))
        for f in r['findings']:
            if prop in f['props']:
                x = [1 for (p, root, where, what) in kn if p == prop and root == f['root'] and where == f['src'] and what == f['msg']]
                if x:
                    shown.setdefault('%s: %s' % (f['src'], f['msg']), f['loc'])
                else:
                    viol.setdefault((f['loc'], f['msg'], f['src']), (r['name'], f))
        for f in r['undecided']:
            if prop in f['props']:
                und.setdefault((f['loc'], f['msg']), (r['name'], f))
        for k, n in r['oblig'].items():
            cats[k] = cats.get(k, 0) + n
        fns.update(r['functions'])
        calls += r['callsites']
        exits += r['exits']
        insts += r['stats'].get('insts', 0)
        loops += r['stats'].get('loops', 0)
        states += r['stats'].get('states', 0)
        for k, n in r['cases'].items():
            cases[k] = cases.get(k, 0) + n
        rules.setdefault(r['kind'], []).append(r['name'])
    shown = ['%s (%s)' % x for x in shown.items()]
    done = len(res) - len(inc)
    evdir = os.environ.get('SA_EVID') or os.path.join(here, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Abstract interpretation of the compiled (LLVM IR) form of the current sources, started in %d entry points or '
                           'rules; %d were analysed to the end, covering %d functions, %d call sites, %d loops and %d exit cases.'
                           % (len(res), done, len(fns), calls, loops, exits),
            'roots_analysed': done, 'roots_total': len(res),
            'functions': sorted(fns), 'call_sites': calls, 'loops_brought_to_a_fixpoint': loops,
            'instructions_interpreted': insts, 'exit_cases': exits,
            'obligations_by_rule': cats, 'obligations_of_this_property': cats.get(prop, 0),
            'results_by_kind': cases,
            'rules': {k: len(v) for k, v in rules.items()},
            'roots': {r['name']: {'wall_s': r['wall'], 'exits': r['exits'], 'obligations': r['oblig']} for r in res},
            'undecided': ['%s: %s [%s]' % (n, f['msg'], f['why']) for (l, m), (n, f) in und.items()][:50],
            'not_completed': inc,
            'notes': sorted({k for r in res for k in r['notes']})[:60],
            'known_findings': shown,
            'violations': ['%s: %s' % (l, m) for (l, m, x) in viol],
        },
        'wall_s': round(wall, 2),
    }
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for s in shown:
        print('KNOWN-FINDING: property=%s %s' % (prop, s))
    for i in inc:
        print('UNDECIDED: %s' % i)
    for (l, m), (n, f) in und.items():
        print('UNDECIDED: %s: %s (%s)' % (l, m, f['why']))
    print('%s: %d roots, %d functions, %d obligations, %.1f s' % (prop, len(res), len(fns), sum(cats.values()), wall))
    if viol:
        path = os.path.join(evdir, prop + '.violation.txt')
        with open(path, 'w') as o:
            for (l, m, x), (n, f) in viol.items():
                o.write('%s\n  at %s (%s)\n  analysed from %s\n  calls: %s\n  needed: %s\n\n' % (m, l, f['src'], n, ' > '.join(f['path']) or '-', f['need'] or '-'))
        for (l, m, x), (n, f) in list(viol.items())[:10]:
            print('  %s: %s (from %s)' % (l, m, n))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if done == 0:
        print('ERROR: no root could be analysed')
        return 2
    return 0
