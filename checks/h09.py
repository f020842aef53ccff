"""H09: a composite pixel is one best eligible observation, described by its information layers."""
import json, math, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vf
from cube import Cube, Run, NODATA

NX, NY = 7, 6
DREQ, HREQ, VREQ = 3000, -150, 7.5
ONE = 1000000


def ppm(x):
    return int(round(x * ONE))


def logistic(x):
    return 1 / (1 + math.exp(min(700, x)))


def make(ck, rng, id, over, nobs, years=1, doy=(120, 180, 240), score=(0.01, 0.99, 0.01), water=False, phen=False, lead=0, trail=0):
    """observations of one tile"""
    j = dict(id=id, year=2018, yearNum=years, yearFactor=75, doy=list(doy), add=True, offSeason=False, useHazy=False, useCloudy=False, select=True, phenology=phen,
             w=dict(d=100, y=100, c=40, h=30, r=0, v=0), score=score)
    w = dict(j['w'], **over.pop('w', {}))
    j.update(over)
    j['w'] = w
    sensors = ['LND08', 'SEN2A', 'LND07']
    # days of the whole period
    days = sorted(rng.choice(np.arange((2018 - years) * 365 + 1, (2018 + years) * 365 + 365), nobs, replace=False).tolist())
    if nobs > 4:
        days[3] = days[2]       # two sensors on the same day
    obs = []
    for t, day in enumerate(days):
        y, d = divmod(day - 1, 365)
        s = sensors[t % 3]
        month = np.searchsorted(np.cumsum([0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30]), d, 'right')
        dom = d - [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334][month - 1] + 1
        q = np.where(rng.random((NY, NX)) < 0.15, rng.choice([1, 2, 4, 8]), 0)
        if water:
            q = np.where((q == 0) & (rng.random((NY, NX)) < 0.97), 32, q)
        q = q + (rng.choice([0, 1 << 13, 3 << 7], (NY, NX)) * (q == 0))
        a = rng.integers(50, 5000, (10 if s[0] == 'S' else 6, NY, NX))
        a[:, q == 1] = NODATA
        dst = rng.choice([0, 40, 100, 700, 1500, 2500, 6000], (NY, NX)) + rng.integers(0, 30, (NY, NX))
        hot = rng.choice([-800, -300, -200, -140, -60, 50], (NY, NX)) + rng.integers(0, 20, (NY, NX))
        vzn = rng.choice([-1, 0, 100, 300, 375, 500, 900], (NY, NX)) + rng.integers(0, 20, (NY, NX))
        if rng.random() < 0.1:
            hot[:] = 300        # hazy throughout
        obs.append(dict(day=day, year=y, doy=d + 1, name=f'{y}{month:02d}{dom:02d}', s=s, sid=sensors.index(s) + 1, q=q, a=a, dst=dst, hot=hot, vzn=vzn))
    j['obs'] = obs
    j['sensors'] = sensors
    cube = Cube(ck.dir('cube'), NX, NY)
    for o in obs:
        cube.ard(0, 0, o['name'], o['s'], o['a'], o['q'])
        for x, prod in (('dst', 'DST'), ('hot', 'HOT'), ('vzn', 'VZN')):
            cube.image(0, 0, f'{o["name"]}_LEVEL2_{o["s"]}_{prod}.tif', np.where(o['q'] == 1, NODATA, o[x]).astype('int16'))
    if phen:
        # target days of every pixel and year; some pixels have none
        ny = 2 * years + 1
        mid = np.array([[[(2018 - years + y - 2016) * 365 + 150 + int(rng.integers(0, 60)) for _ in range(NX)] for _ in range(NY)] for y in range(ny)])
        wl, wr = rng.choice([30, 60, 75], (NY, NX)), rng.choice([30, 60, 75], (NY, NX))
        none = rng.random((NY, NX)) < 0.2
        j['targets'] = [[] if none[r, c] else [[int(mid[y, r, c] + 2016 * 365 + off) for off in (-wl[r, c], 0, wr[r, c])] for y in range(ny)] for r in range(NY) for c in range(NX)]
        for n, off in (('A', -wl), ('B', 0 * wl), ('C', wr)):
            # the phenology may cover more years than are composed
            more = [np.stack([(y - 2016) * 365 + rng.integers(60, 300, (NY, NX)) for y in ys] or [np.zeros((NY, NX))])[:len(ys)]
                    for ys in (range(2018 - years - lead, 2018 - years), range(2018 + years + 1, 2018 + years + 1 + trail))]
            cube.image(0, 0, f'LSP-{n}.tif', np.where(none[None], NODATA, np.concatenate([more[0], mid + off, more[1]])).astype('int16'))
        j['lead'] = lead
    j['path'] = cube.path
    return j


def prepare(j):
    """the job as the specification reads it"""
    w = j['w']
    s0, s1, s2 = j['score']
    widths = set()
    if j['phenology']:
        widths = {30, 60, 75}
    else:
        d = j['doy']
        widths = {(d[1] - d[0]) % 365, (d[2] - d[1]) % 365}
    tabs = []
    for wd in sorted(widths):
        sig = wd / math.sqrt(-2 * math.log(s0 / s1))
        tabs.append([wd, [ppm(s1 * math.exp(-x * x / (2 * sig * sig))) for x in range(400)]])
    px = []
    for p in range(NX * NY):
        r, c = divmod(p, NX)
        ok = [bool(o['q'][r, c] & 15 == 0) for o in j['obs']]
        cor = [0.0] * len(ok)
        if w['r']:
            v = [o['a'][[0, 1, 2, 7, 8, 9] if o['s'][0] == 'S' else range(6), r, c].astype(float) for o in j['obs']]
            for t in range(len(ok)):
                others = [abs(np.corrcoef(v[t], v[u])[0, 1]) for u in range(len(ok)) if u != t and ok[t] and ok[u]]
                cor[t] = float(np.mean(others)) if others else (0.0 if t == 0 else -9999.0)
        ob = []
        for t, o in enumerate(j['obs']):
            b = [0, 1, 2, 7, 8, 9] if o['s'][0] == 'S' else range(6)
            a = o['a'][b, r, c]
            vz = o['vzn'][r, c] * 0.01
            ob.append(dict(ok=ok[t], water=bool(o['q'][r, c] & 32), day=o['day'], year=o['year'], swir=int(a[5]), nir=int(a[3]),
                           c=ppm(logistic(-10 / DREQ * (o['dst'][r, c] - DREQ / 2))) if w['c'] else 0,
                           h=ppm(logistic(10 / 200 * (o['hot'][r, c] - HREQ))) if w['h'] else 0,
                           r=ppm(logistic(-10 / (0.5 * 2 / 3) * (cor[t] - 0.5 * 4 / 3))) if w['r'] else 0,
                           v=(ppm(logistic(10 / VREQ * (vz - VREQ / 2))) if 0 <= vz <= 180 else 0) if w['v'] else 0))
        px.append(dict(obs=ob, targets=j['targets'][p] if j['phenology'] else []))
    return dict(id=j['id'], tabs=tabs, pixels=px, **{x: j[x] for x in 'year yearNum yearFactor doy add offSeason useHazy useCloudy phenology w'.split()})


def run(ck, j, **kw):
    w = j['w']
    b = lambda x: 'TRUE' if x else 'FALSE'
    aux = ' '.join(n for n, x in (('DST', 'c'), ('HOT', 'h'), ('VZN', 'v')) if w[x]) or 'NULL'
    over = dict(SENSORS=' '.join(j['sensors']), TARGET_SENSOR='LNDLG', DATE_RANGE=f'{j["year"] - j["yearNum"]}-01-01 {j["year"] + j["yearNum"]}-12-31', DOY_RANGE='1 365',
                YEAR_TARGET=j['year'], YEAR_NUM=j['yearNum'], Y_FACTOR=j['yearFactor'] / 100, SELECT=b(j['select']), COMBINE_SCORES='ADDITIVE' if j['add'] else 'MULTIPLICATIVE',
                DOY_SCORE=' '.join(map(str, j['score'])), DOY_STATIC=' '.join(map(str, j['doy'])), OFF_SEASON=b(j['offSeason']), USE_CLOUDY=b(j['useCloudy']), USE_HAZY=b(j['useHazy']),
                REQUIRE_AUX_PRODUCTS=aux, SCORE_DOY_WEIGHT=w['d'] / 100, SCORE_YEAR_WEIGHT=w['y'] / 100, SCORE_CLOUD_WEIGHT=w['c'] / 100, SCORE_HAZE_WEIGHT=w['h'] / 100,
                SCORE_CORREL_WEIGHT=w['r'] / 100, SCORE_VZEN_WEIGHT=w['v'] / 100, DREQ=DREQ, HREQ=HREQ, VREQ=VREQ, OUTPUT_BAP='TRUE', OUTPUT_INF='TRUE', OUTPUT_SCR='TRUE',
                RESOLUTION=10, CHUNK_SIZE=f'{NX * 10} {NY * 5}', NTHREAD_COMPUTE=3, BASE_LSP='NULL NULL NULL', SCREEN_QAI='NODATA CLOUD_OPAQUE CLOUD_BUFFER CLOUD_CIRRUS CLOUD_SHADOW')
    if j['phenology']:
        over.update(LSP_DO='TRUE', DIR_LSP=j['path'], BASE_LSP='LSP-A.tif LSP-B.tif LSP-C.tif', LSP_1ST_YEAR=j['year'] - j['yearNum'] - j['lead'], LSP_START=2016 * 365 + 1, LSP_THRESHOLD=182)
    over.update(kw)
    return Run(ck, 'LEVEL3', j['path'], over)


NAMES = ['TOTAL', 'DOY', 'YEAR', 'DISTANCE', 'HAZE', 'CORREL', 'VZEN']


def compare(ck, j, r, want):
    what = j['id']
    if not ck.expect(r.rc == 0, 'exit', f'{what}: exit {r.rc}', r.log[-400:]):
        return
    bap, inf, scr = (r.product(0, 0, x) for x in ('_BAP', '_INF', '_SCR'))
    if not ck.expect(bap is not None and inf is not None and scr is not None and bap.nb == 6 and inf.nb == 6 and scr.nb == 7, 'missing', f'{what}: products are missing'):
        return
    for p in range(NX * NY):
        y, x = divmod(p, NX)
        e = want[p]
        if e['unclear']:
            continue
        got, info, sc = bap.data[:, y, x].tolist(), inf.data[:, y, x].tolist(), scr.data[:, y, x].tolist()
        where = f'{what}, pixel {p}'
        if not e['num']:
            ck.expect(got == [NODATA] * 6, 'empty', f'{where}: no observation is eligible, but the composite holds {got}')
            ck.expect(info[0] == 1 and info[1] == 0 and info[2:] == [NODATA] * 4, 'emptyinfo', f'{where}: no observation is eligible, but the information is {info}')
            ck.expect(sc == [NODATA] * 7, 'emptyscore', f'{where}: no observation is eligible, but the scores are {sc}')
            continue
        ck.expect(info[1] == e['num'], 'count', f'{where}: {e["num"]} observations are eligible, the information says {info[1]}', e)
        spectrum = lambda t: [int(v) for v in j['obs'][t]['a'][[0, 1, 2, 7, 8, 9] if j['obs'][t]['s'][0] == 'S' else range(6), y, x]]
        if not j['select']:
            tot = sum(e['total'][i - 1] for i in e['cand'])
            if tot < 20000:
                continue
            avg = [sum(e['total'][i - 1] * spectrum(i - 1)[b] for i in e['cand']) / tot for b in range(6)]
            ck.expect(all(abs(g - a) <= 1.5 for g, a in zip(got, avg)), 'average', f'{where}: the weighted average is {[round(a, 1) for a in avg]}, the composite holds {got}', e)
            n = e['num']
            ck.expect(abs(sc[0] - tot / n / 100) <= 2, 'meanscore', f'{where}: the mean total score is {tot / n / 100:.1f}, the product holds {sc[0]}', e)
            continue
        t = [i - 1 for i in e['best'] if spectrum(i - 1) == got]
        if not ck.expect(t, 'choice', f'{where}: the composite {got} is none of the best observations {[spectrum(i - 1) for i in e["best"]]}' +
                         (f'; it is observation {[i + 1 for i in range(len(j["obs"])) if spectrum(i) == got]}, best are {e["best"]}, totals {e["total"]}'), e):
            continue
        o = j['obs'][t[0]]
        q = int(o['q'][y, x])
        ck.expect(info[0] == q and info[2] == o['doy'] and info[3] == o['year'] and info[5] == o['sid'], 'info',
                  f'{where}: chosen is {o["name"]} {o["s"]} with quality {q}, doy {o["doy"]}, sensor {o["sid"]}, the information says {info}')
        ck.expect(info[4] == e['dist'][t[0]], 'distance', f'{where}: {e["dist"][t[0]]} days from the target, the information says {info[4]}')
        exp = [e['total'][t[0]] / 100] + ([v / 100 for v in e['scores'][t[0]]] if not e['water'] else [])
        for n, g, v in zip(NAMES, sc, exp):
            ck.expect(abs(g - v) <= 2, 'score', f'{where}: score {n} of the chosen observation is {v}, the product holds {g}', e)


def sigmoid(ck, rng, desc):
    """only the season counts: the observation closest to the target on its side wins"""
    j = make(ck, rng, 'descending' if desc else 'ascending', dict(w=dict(y=0, c=0, h=0), offSeason=True), 8, years=0, score=(0.95, 0.5, 0.05) if desc else (0.05, 0.5, 0.95))
    r = run(ck, j)
    what = j['id']
    if not ck.expect(r.rc == 0, 'exit', f'{what}: exit {r.rc}', r.log[-400:]):
        return
    bap, inf = r.product(0, 0, '_BAP'), r.product(0, 0, '_INF')
    if not ck.expect(bap is not None and inf is not None, 'missing', f'{what}: products are missing'):
        return
    tgt = 2018 * 365 + (j['doy'][0] if desc else j['doy'][2])
    for p in range(NX * NY):
        y, x = divmod(p, NX)
        side = [t for t, o in enumerate(j['obs']) if o['q'][y, x] & 15 == 0 and (o['day'] >= tgt if desc else o['day'] <= tgt)]
        if not side:
            continue
        best = min(side, key=lambda t: abs(j['obs'][t]['day'] - tgt))
        ck.expect(int(inf.data[4, y, x]) == j['obs'][best]['day'] - tgt and int(inf.data[2, y, x]) == j['obs'][best]['doy'], 'sigmoid',
                  f'{what}, pixel {p}: the closest observation is {j["obs"][best]["day"] - tgt} days from the target, chosen is one of {int(inf.data[4, y, x])}')


def main(ck):
    rng = np.random.default_rng(ck.seed)
    ck.bdir
    jobs = [make(ck, rng, 'defaults', {}, 9),
            make(ck, rng, 'season', dict(w=dict(y=0, c=0, h=0)), 8, years=0),
            make(ck, rng, 'years', dict(w=dict(c=0, h=0), offSeason=True, yearFactor=200), 9, years=2),
            make(ck, rng, 'turn', dict(w=dict(c=0, h=0)), 9, doy=(320, 20, 90)),
            make(ck, rng, 'turn2', dict(w=dict(c=0, h=0)), 9, doy=(290, 340, 30)),
            make(ck, rng, 'everything', dict(w=dict(d=50, r=60, v=30), offSeason=True, useHazy=True, useCloudy=True), 8),
            make(ck, rng, 'clouds', dict(w=dict(d=20, y=0, c=100, h=0), offSeason=True), 7),
            make(ck, rng, 'haze', dict(w=dict(d=20, y=0, c=0, h=100), offSeason=True), 7),
            make(ck, rng, 'view', dict(w=dict(d=10, y=0, c=0, h=0, v=100), offSeason=True), 7),
            make(ck, rng, 'correlation', dict(w=dict(d=10, y=0, c=0, h=0, r=100), offSeason=True), 6),
            make(ck, rng, 'product', dict(w=dict(h=0), add=False, useCloudy=True), 9),
            make(ck, rng, 'product2', dict(w=dict(d=80, y=50, c=70, h=0, v=60), add=False, useCloudy=True, offSeason=True), 6, years=0),
            make(ck, rng, 'water', {}, 9, water=True),
            make(ck, rng, 'water2', dict(w=dict(c=0, h=0), offSeason=True), 8, water=True),
            make(ck, rng, 'water3', dict(w=dict(c=0, h=0), offSeason=True, select=False), 5, water=True),
            make(ck, rng, 'uneven', dict(w=dict(c=0, h=0)), 9, doy=(100, 200, 230)),
            make(ck, rng, 'average', dict(select=False), 9),
            make(ck, rng, 'average2', dict(select=False, offSeason=True, useHazy=True, useCloudy=True, w=dict(v=40)), 6),
            make(ck, rng, 'phenology', dict(w=dict(c=0, h=0)), 9, phen=True),
            make(ck, rng, 'phenology2', dict(w=dict(c=30, h=0), useCloudy=True), 9, phen=True, years=2, lead=1, trail=1),
            make(ck, rng, 'phenology4', dict(w=dict(c=0, h=0), offSeason=True), 6, phen=True, years=0, lead=2),
            make(ck, rng, 'phenology3', dict(w=dict(c=30, h=20), select=False), 9, phen=True)]
    for i in range(40 if ck.thorough else 4):
        w = {x: int(rng.choice([0, 20, 50, 100])) for x in 'ychrv'}
        off = bool(rng.random() < 0.5)
        jobs.append(make(ck, rng, f'random{i}', dict(w=dict(d=int(rng.choice([30, 100])), **w), add=bool(rng.random() < 0.6), offSeason=off, useHazy=bool(rng.random() < 0.5),
                    useCloudy=bool(rng.random() < 0.5), yearFactor=int(rng.choice([50, 75, 100, 150])), select=bool(rng.random() < 0.8)), int(rng.integers(1, 11)), years=int(rng.integers(0, 3)),
                    phen=bool(rng.random() < 0.25)))
    fn = os.path.join(ck.dir('cfg'), 'jobs.ndjson')
    with open(fn, 'w') as f:
        for j in jobs:
            f.write(json.dumps(prepare(j)) + '\n')
    with ThreadPoolExecutor(5) as ex:
        later = [ex.submit(run, ck, j) for j in jobs]
        # any subset of the products
        subset = [(ex.submit(run, ck, jobs[a], OUTPUT_BAP=b, OUTPUT_INF=i, OUTPUT_SCR=s), dict(BAP=b, INF=i, SCR=s)) for a in (0, 16)
                  for b, i, s in (('FALSE', 'TRUE', 'FALSE'), ('FALSE', 'FALSE', 'TRUE'), ('TRUE', 'FALSE', 'FALSE'))]
        res = ck.tlc('Composite', spec='Spec', invariants=['ChosenIsBest'], env=dict(JOBS=fn))
        ck.tlc('Composite', spec='Spec', invariants=['NeverSeveral'], env=dict(JOBS=fn), expect_violation=True)
        runs = [r.result() for r in later]
        subset = [(r.result(), o) for r, o in subset]
    want = {c['id']: c['out'] for c in res.cases}
    judged = 0
    for j, r in zip(jobs, runs):
        ck.trace()
        compare(ck, j, r, want[j['id']])
        judged += sum(not e['unclear'] for e in want[j['id']])
    ck.notes['pixels judged'] = judged
    ck.count(judged)
    ck.notes['water pixels'] = sum(e['water'] and e['num'] > 0 for o in want.values() for e in o)
    ck.notes['pixels without candidate'] = sum(not e['num'] for o in want.values() for e in o)
    for (r, o), a in zip(subset, [0] * 3 + [16] * 3):
        full = runs[a]
        if ck.expect(r.rc == 0, 'subset', f'{jobs[a]["id"]} with {o}: exit {r.rc}', r.log[-300:]):
            for prod, on in o.items():
                R = r.product(0, 0, '_' + prod)
                F = full.product(0, 0, '_' + prod)
                ck.expect((R is not None) == (on == 'TRUE') and (R is None or np.array_equal(R.data, F.data)), 'subset', f'{jobs[a]["id"]} with {o}: product {prod} is {"missing, extra or different"}')
    for d in (True, False):
        sigmoid(ck, rng, d)
