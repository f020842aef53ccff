"""L08: the water vapour that corrects an image comes from the nearest place of the table of its day."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vf
import sats
from l1 import *

VALUES = [50, 120, 200, 330, 410, 600, 850, 1000]
NONE = 999900
N = 20
DAYS = ['2003-06-15', '2010-02-03', '2009-12-31']
# the image is at the origin of the grid
CX, CY = round(ORIGIN[0] * 100), round(ORIGIN[1] * 100)


def lines(rng, values):
    """places at clearly different distances"""
    out = []
    for d in rng.sample([0, 30, 60, 90, 115, 140, 160, 220, 900], len(values)):
        a = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1), (0.6, 0.8), (-0.8, 0.6), (0.6, -0.8)])
        out.append(dict(x=round(a[0] * d), y=round(a[1] * d), v=values[len(out)]))
    return out


def make(rng, n):
    pick = lambda: [rng.choice(VALUES + [NONE, NONE]) for _ in range(rng.choice([1, 2, 3, 4]))]
    return dict(daily=dict(there=rng.random() < 0.75, lines=lines(rng, pick())), climatology=dict(there=rng.random() < 0.75, lines=lines(rng, pick())), strict=rng.random() < 0.35, date=DAYS[n % 3])


def image(ck, date, **prm):
    cube = L2Cube(ck, 40, 40, DO_ATMO='TRUE', **prm)
    rows = np.arange(N * N).reshape(N, N)
    base = {'1': 70, '2': 35, '3': 30, '4': 110, '5': 80, '7': 40, '6': 140}
    arrs = {b: base[b] + (rows * (k + 3)) % 9 for k, b in enumerate(sats.TM)}
    d = sats.landsat(cube.top + '/l1', 5, arrs, {b: 0.0028 for b in sats.TM}, {b: -0.008 for b in sats.TM}, OX, OY, date)
    rc, log = cube.image(d)
    t = cube.tiles('BOA', date.replace('-', ''))
    return rc, log, {xy: r.data for xy, r in t.items()}


def run(ck, k, j):
    top = ck.dir(f'v{k}')
    for name, t in ((j['date'], j['daily']), (f"0000-{j['date'][5:7]}-00", j['climatology'])):
        if t['there']:
            open(f'{top}/WVP_{name}.txt', 'w').write(''.join(f"{(CX + l['x']) / 100:.4f} {(CY + l['y']) / 100:.4f} {9999 if l['v'] == NONE else l['v'] / 100:f} " + ('MOD\n' if name[0] != '0' else '0.100000 12\n') for l in t['lines']))
    # tables of other days and months
    for name in ('2003-06-16', '0000-07-00', '2004-06-15', '2010-03-02', '0000-11-00'):
        open(f'{top}/WVP_{name}.txt', 'w').write(f'{CX / 100:.4f} {CY / 100:.4f} 2.750000 MOD 1\n')
    return image(ck, j['date'], DIR_WVPLUT=top, STRICT_WATER_VAPOR='TRUE' if j['strict'] else 'FALSE', WATER_VAPOR='7.7')


def main(ck):
    jobs = [make(ck.rng, n) for n in range(240 if ck.thorough else 96)]
    fn = ck.dir('jobs') + '/j.json'
    with open(fn, 'w') as f:
        for j in jobs:
            f.write(json.dumps({k: j[k] for k in ('daily', 'climatology', 'strict')}) + '\n')
    r = ck.tlc('Vapor', spec='Spec', invariants=['Nearest', 'Strict'], properties=['Ends'], env=dict(JOBS=fn))
    ck.tlc('Vapor', spec='Spec', invariants=['Daily'], env=dict(JOBS=fn), expect_violation=True)
    want = {c['i'] - 1: c['value'] for c in r.cases}
    ck.bdir
    with ThreadPoolExecutor(8) as ex:
        keys = [(d, v) for d in DAYS for v in VALUES + [770]]
        ref = dict(zip(keys, ex.map(lambda a: image(ck, a[0], WATER_VAPOR=a[1] / 100), keys)))
        res = list(ex.map(lambda a: run(ck, *a), enumerate(jobs)))
    for d in DAYS:
        for v in VALUES:
            if not ck.expect(ref[(d, v)][0] == 0 and len(ref[(d, v)][2]) > 0, 'constant', f'water vapour of {v / 100} for all images: exit {ref[(d, v)][0]}', ref[(d, v)][1][-300:]):
                return
        for a, b in zip(VALUES, VALUES[1:]):
            if all((ref[(d, a)][2][xy] == ref[(d, b)][2][xy]).all() for xy in ref[(d, a)][2] if xy in ref[(d, b)][2]):
                ck.expect(False, 'effect', f'water vapour of {a / 100} and {b / 100} give the same reflectance')
                return
    bad = 0
    for k, (j, (rc, log, t)) in enumerate(zip(jobs, res)):
        v = want[k]
        what = f"image of {j['date']}, daily {j['daily'] if j['daily']['there'] else 'none'}, climatology {j['climatology'] if j['climatology']['there'] else 'none'}, {'strict' if j['strict'] else 'not strict'}"
        ck.count(1)
        if v < 0:
            bad += 1
            ck.expect(rc not in (0, 'timeout') and not t, 'refused', f'{what}: there is no water vapour, but exit {rc}, {len(t)} products', log[-300:])
            continue
        if not ck.expect(rc == 0 and set(t) == set(ref[(j['date'], v)][2]), 'exit', f'{what}: exit {rc}, {len(t)} products', log[-300:]):
            continue
        ck.trace(1)
        if not all((t[xy] == ref[(j['date'], v)][2][xy]).all() for xy in t):
            like = [x / 100 for d, x in keys if d == j['date'] and all((t[xy] == ref[(d, x)][2][xy]).all() for xy in t)]
            ck.violation('value', f'{what}: should be corrected with {v / 100}, but is like {like or "none of the constants"}')
    if bad < 5:
        raise vf.CheckError('hardly any image without water vapour')
    ck.sample(jobs[0])
