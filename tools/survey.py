"""check.py ID --survey N: run N cases, group the failures, minimise one of each group (a development aid)."""
import os, json
import core


def main(prop, n):
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop.warm()
    res, wall, bad = core.campaign(prop, seed, 'quick', n, 600, 8, [{'property': prop.ID, 'class': '(?s).*'}])
    groups = {}
    for r in res:
        if r.get('ok') is not True:
            unexp = str(r.get('cls')).startswith('unexp')
            key = (r.get('cls') or 'ERR', (r.get('detail') or r.get('err') or '').strip().split('\n')[-1][:60] if unexp else '')
            groups.setdefault(key, []).append(r['i'])
    print(len(res), 'runs in %.1f s' % wall)
    for k, v in sorted(groups.items(), key=lambda x: -len(x[1]))[:int(os.environ.get('GROUPS', '8'))]:
        print('####', len(v), k, v[:5])
        if k[0] == 'ERR':
            print([x for x in res if x['i'] == v[0]][0].get('err', '')[-600:])
            continue
        case = core.make_case(prop, seed, v[0], 'quick')
        mini, tries = core.minimise(prop, case, k[0], 15)
        f = core.run_case(prop, mini)
        for key in getattr(prop, 'SHRINK_LISTS', ()):
            print('   ', key, json.dumps(mini.get(key[-1]))[:700])
        s = mini.get('spec')
        if s:
            print('   ', {k: s.get(k) for k in ('n_cases', 'alts', 'fmt', 'u_ca', 'u_co', 'q_ca', 'nests', 'wt', 'chosen', 'avail')}, 'numba', mini.get('numba'))
        print('    ', (f.get('detail') or '')[-1000:].replace('\n', '\n      '))
    tot = {}
    for r in res:
        for d in ('faults', 'counts'):
            for a, b in r.get(d, {}).items():
                tot[a] = tot.get(a, 0) + b
    print({a: (round(b, 3) if isinstance(b, float) else b) for a, b in sorted(tot.items())})
    return 0
