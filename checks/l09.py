"""L09: aerosol tables: the nearest place of the table of the day of the year decides."""
import json, math, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vf
import sats
from l1 import *

N = 20
DATES = [(2003, 6, 15), (2010, 2, 3), (2009, 12, 31), (2008, 2, 28), (2005, 3, 1), (2000, 1, 30), (1999, 1, 1), (2001, 12, 30)]     # leap years are left open after February
FILL = 192


def doy(y, m, d):
    import datetime
    return datetime.date(y, m, d).timetuple().tm_yday


def make(rng, n):
    y, m, d = DATES[n % len(DATES)]
    t = []
    own = doy(y, m, d)
    for k in sorted({own - 1, own, own + 1, doy(2001, m, min(d, 28)) if m == 2 else doy(2001, m, d), 365, 366}):
        if k < 1 or k > 366 or (k == own and rng.random() < 0.2):
            continue
        far = rng.sample([0, 30, 60, 90, 115, 140, 160, 220, 900, 3000], rng.choice([1, 2, 3, 5]))
        lines = []
        for f in far:
            a = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1), (0.6, 0.8), (-0.8, 0.6), (0.6, -0.8)])
            curve = rng.random() < 0.5
            lines.append(dict(x=round(a[0] * f), y=round(a[1] * f), c=[round(math.log(rng.randint(20, 500) / 1000), 4), rng.choice([-1.5, -0.4]) if curve else 0, rng.choice([0, -0.2]) if curve else 0]))
        t.append(dict(doy=k, lines=lines))
    return dict(year=y, month=m, day=d, given=rng.random() < 0.9, tables=t, estimate=rng.random() < 0.3, empty=rng.random() < 0.5)


def image(ck, k, date, tables, given, estimate, empty=False):
    top = 'NULL'
    if given:
        top = ck.dir(f'a{k}')
        for t in tables:
            open(f"{top}/AOD_{t['doy']:03d}.txt", 'w').write(''.join('%.4f %.4f %.4f %.4f %.4f\n' % ((ORIGIN[0] + l['x'] / 100, ORIGIN[1] + l['y'] / 100) + tuple(l['c'])) for l in t['lines']) + ('\n' if empty else ''))
    cube = L2Cube(ck, 40, 40, DO_ATMO='TRUE', DO_AOD='TRUE' if estimate else 'FALSE', DIR_AOD=top, OUTPUT_AOD='TRUE', WATER_VAPOR='1.5')
    base = {'1': 130, '2': 90, '3': 100, '4': 130, '5': 150, '7': 120, '6': 150}
    d = sats.landsat(cube.top + '/l1', 5, {b: np.full((N, N), v) for b, v in base.items()}, {b: 0.0028 for b in sats.TM}, {b: -0.008 for b in sats.TM}, OX, OY, '%04d-%02d-%02d' % date)
    rc, log = cube.image(d)
    day = '%04d%02d%02d' % date
    g = lambda p: {xy: r.data for xy, r in cube.tiles(p, day).items()}
    return rc, log, g('AOD'), g('QAI'), g('BOA')


def main(ck):
    jobs = [make(ck.rng, n) for n in range(200 if ck.thorough else 64)]
    for j in jobs:
        j['estimate'] = j['estimate'] or not j['given']
    fn = ck.dir('jobs') + '/j.json'
    with open(fn, 'w') as f:
        for j in jobs:
            f.write(json.dumps({k: j[k] for k in ('year', 'month', 'day', 'given', 'tables')}) + '\n')
    r = ck.tlc('Aerosol', spec='Spec', invariants=['Nearest', 'Doy'], properties=['Ends'], env=dict(JOBS=fn))
    ck.tlc('Aerosol', spec='Spec', invariants=['Always'], env=dict(JOBS=fn), expect_violation=True)
    want = {c['i'] - 1: c for c in r.cases}
    ck.bdir

    def go(a):
        k, j = a
        w = want[k]
        date = (j['year'], j['month'], j['day'])
        got = image(ck, k, date, j['tables'], j['given'], j['estimate'], j['empty'])
        if w['what'] != 'table':
            return got, None
        one = [dict(doy=w['doy'], lines=[dict(x=0, y=0, c=j['tables'][w['table'] - 1]['lines'][w['line'] - 1]['c'])])]
        return got, image(ck, f'{k}r', date, one, True, j['estimate'])
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(go, enumerate(jobs)))
    for k, (j, (got, ref)) in enumerate(zip(jobs, res)):
        w = want[k]
        rc, log, aod, qai, boa = got
        what = f"image of {j['year']}-{j['month']:02d}-{j['day']:02d} (day {w['doy']}), tables {[(t['doy'], [(l['x'], l['y']) for l in t['lines']]) for t in j['tables']] if j['given'] else 'not given'}" + (', with an empty line at the end' if j['empty'] else '')
        ck.count(1)
        if w['what'] == 'refused':
            ck.expect(rc not in (0, 'timeout') and not aod and not boa, 'refused', f'{what}: there is no table, but exit {rc}', log[-300:])
            continue
        if not ck.expect(rc == 0 and len(aod) > 0 and set(aod) == set(boa) == set(qai), 'exit', f'{what}: exit {rc}, {len(aod)} products', log[-300:]):
            continue
        ck.trace(1)
        xy = min(aod)
        on = (qai[xy][0] & 1) == 0
        a = aod[xy][0][on]
        ck.expect(((qai[xy][0][on] & FILL) == FILL).all(), 'flag', f'{what}: not all pixels are flagged as using fill aerosols')
        if w['what'] == 'global':
            continue
        l = j['tables'][w['table'] - 1]['lines'][w['line'] - 1]
        if not ck.expect(ref[0] == 0 and set(ref[2]) == set(aod), 'single', f'{what}: with only the nearest line: exit {ref[0]}', ref[1][-300:]):
            continue
        if not ck.expect(all((ref[2][x] == aod[x]).all() and (ref[4][x] == boa[x]).all() for x in aod), 'line', f"{what}: not like a table that only has the place ({l['x']}, {l['y']}); aerosol {a[0]} instead of {ref[2][xy][0][on][0]}"):
            continue
        if l['c'][1] == 0 == l['c'][2]:
            ck.expect(np.abs(a - 1000 * math.exp(l['c'][0])).max() < 1.5, 'value', f"{what}: aerosol {a.min()} to {a.max()}, not {1000 * math.exp(l['c'][0]):.1f}")
    ck.sample(jobs[0])
