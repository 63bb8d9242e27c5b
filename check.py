#!/usr/bin/env python3
"""check.py <property>: decides one property of libsml from the current source in /repo.
exit 0: held on everything analysed; exit 1: VIOLATION line; exit 2: the analysis could not be carried out."""
import sys, os, json, time, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
T0 = time.time()
G = {}


def work(i):
    return G['tasks'][i].run(G['limit'])


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] == 'thorough':
        tier = 'thorough'
    from sa.ir import Program
    from sa.spec import Specs
    from sa import tasks as T
    try:
        prog = Program()
        specs = Specs(prog)
    except Exception as x:
        print('ERROR: the sources cannot be analysed: %s' % x)
        return 2
    tl = [t for t in T.all_tasks(prog, specs) if prop in t.props]
    if not tl:
        print('ERROR: nothing to analyse for %s' % prop)
        return 2
    G['tasks'] = tl
    G['limit'] = 100 if tier == 'quick' else 300
    res = []
    with mp.get_context('fork').Pool(min(8, len(tl), os.cpu_count() or 1)) as pool:
        pend = [(t, pool.apply_async(work, (i,))) for i, t in enumerate(tl)]
        for t, p in pend:
            try:
                res.append(p.get(timeout=max(5, (720 if tier == 'quick' else 3000) - (time.time() - T0))))
            except mp.TimeoutError:
                res.append({'name': t.name, 'kind': t.kind, 'findings': [], 'undecided': [], 'oblig': {}, 'notes': {}, 'cases': {},
                            'incomplete': 'time', 'functions': [], 'callsites': 0, 'exits': 0, 'stats': {}, 'wall': 0, 'tags': []})
        pool.terminate()
    from sa import report
    return report.finish(HERE, prop, tier, tl, res, prog, time.time() - T0)


if __name__ == '__main__':
    sys.exit(main())
