"""H05: exactly the requested acquisitions enter an analysis, in temporal order."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from cube import Cube, Raster, Run, tile_name
from ts import iso, ymd

NB = dict(LND=6, SEN=10, MOD=7, S1A=2, S1B=2)


def value(i, b):
    return 100 * (i + 1) + b + 1


def main(ck):
    rng = ck.rng
    # catalogue: boundary dates of years, months and of the day-of-year ranges below; several sensors; other products and side files
    dates = [[2015, 12, 31], [2016, 1, 1], [2016, 2, 28], [2016, 3, 1], [2016, 12, 30], [2016, 12, 31], [2017, 1, 1], [2017, 1, 2], [2017, 4, 9], [2017, 4, 10],
             [2017, 4, 11], [2017, 7, 19], [2017, 12, 31], [2018, 1, 1], [2018, 6, 15], [2020, 2, 29]]
    sensors = ['LND05', 'LND07', 'LND08', 'LND09', 'SEN2A', 'SEN2B', 'SEN2C', 'SEN2D', 'MOD01', 'S1AIA']
    files = []
    for d in dates:
        for s in sorted(rng.sample(sensors, 3 if d[2] != 31 else 5)):
            files.append(dict(date=d, sensor=s, product='SIG' if s.startswith('S1') else 'BOA', image=True))
    for d in dates[::4]:
        files.append(dict(date=d, sensor='LND08', product='TOA', image=True))
        files.append(dict(date=d, sensor='LND08', product='BOA', image=False))      # side file, e.g. header
    seen = set()
    files = [f for f in files if (k := (tuple(f['date']), f['sensor'], f['product'], f['image'])) not in seen and not seen.add(k)]
    rng.shuffle(files)
    reqs = []

    def req(fr, to, doy, sens, product='BOA', ignore7=(2099, 12, 31), bands=('RED',), target=None):
        reqs.append({'from': list(fr), 'to': list(to), 'doy': list(doy), 'sensors': sens, 'product': product, 'ignore7': list(ignore7), 'bands': list(bands), 'target': target or ''})

    land = ['LND05', 'LND07', 'LND08', 'LND09']
    sen = ['SEN2A', 'SEN2B', 'SEN2C', 'SEN2D']
    opt = land + sen
    req((2015, 1, 1), (2020, 12, 31), (1, 365), opt, bands=('RED', 'NIR', 'SWIR1'))
    req((2016, 1, 1), (2016, 12, 31), (1, 365), opt + ['MOD01'], bands=('SWIR2', 'NIR'))
    req((2015, 12, 31), (2017, 1, 1), (1, 365), land)
    req((2016, 12, 31), (2017, 12, 31), (1, 365), sen, bands=('REDEDGE2', 'BROADNIR', 'NIR', 'SWIR2'), target='SEN2L')
    req((2015, 1, 1), (2020, 12, 31), (99, 101), opt)
    req((2015, 1, 1), (2020, 12, 31), (100, 200), opt)
    req((2015, 1, 1), (2020, 12, 31), (364, 1), opt, bands=('BLUE',))
    req((2015, 1, 1), (2020, 12, 31), (365, 60), opt)
    req((2015, 1, 1), (2020, 12, 31), (1, 364), opt)
    req((2015, 1, 1), (2020, 12, 31), (2, 365), opt)
    req((2015, 1, 1), (2020, 12, 31), (1, 365), ['LND07', 'LND08'], ignore7=(2017, 1, 1))
    req((2015, 1, 1), (2020, 12, 31), (1, 365), land, ignore7=(2016, 12, 31))
    req((2017, 4, 10), (2017, 4, 10), (1, 365), opt + ['MOD01'])
    req((2016, 12, 31), (2017, 1, 1), (300, 50), opt)
    req((2015, 1, 1), (2020, 12, 31), (1, 365), ['LND08'], product='TOA')
    req((2015, 1, 1), (2020, 12, 31), (1, 365), ['S1AIA'], product='SIG', bands=('VH', 'VV'), target='VVVHP')
    req((2020, 1, 1), (2020, 12, 31), (60, 60), opt)
    req((2015, 1, 1), (2020, 12, 31), (182, 182), opt)
    req((2015, 1, 1), (2020, 12, 31), (100, 100), opt)
    for _ in range(200 if ck.thorough else 40):
        a, b = sorted(rng.sample(range(len(dates) - 1), 2))
        x, y = rng.randrange(1, 366), rng.randrange(1, 366)
        req(dates[a], dates[b], (x, y), sorted(rng.sample(opt, rng.randrange(1, 7))), ignore7=rng.choice(dates))
    d = ck.dir('cfg')
    open(d + '/reqs', 'w').write(''.join(json.dumps(r) + '\n' for r in reqs))
    open(d + '/files', 'w').write(''.join(json.dumps(f) + '\n' for f in files))
    r = ck.tlc('Selection', invariants=['Chronological', 'OnceEach', 'InsideRange', 'Complete'], env=dict(REQS=d + '/reqs', FILES=d + '/files'))
    exp = {c['req'] - 1: c for c in r.cases}
    assert len(exp) == len(reqs)

    cube = Cube(ck.dir('cube'), 3, 2)
    for i, f in enumerate(files):
        nb = NB[f['sensor'][:3]]
        name = f'{ymd(f["date"])}_LEVEL2_{f["sensor"]}_{f["product"]}'
        if not f['image']:
            os.makedirs(f'{cube.path}/{tile_name(0, 0)}', exist_ok=True)
            open(f'{cube.path}/{tile_name(0, 0)}/{name}.hdr', 'w').write('ENVI\n')
            continue
        arr = np.stack([np.full((2, 3), value(i, b), 'int16') for b in range(nb)])
        cube.ard(0, 0, ymd(f['date']), f['sensor'], arr, prod=f['product'])
    ck.bdir

    def go(i):
        q = reqs[i]
        return Run(ck, 'TSA', cube.path, dict(SENSORS=' '.join(q['sensors']), DATE_RANGE=iso(q['from']) + ' ' + iso(q['to']), DOY_RANGE='%d %d' % tuple(q['doy']),
                                              DATE_IGNORE_LANDSAT_7=iso(q['ignore7']), PRODUCT_TYPE_MAIN=q['product'], INDEX=' '.join(q['bands']), OUTPUT_TSS='TRUE',
                                              TARGET_SENSOR=target(q), CHUNK_SIZE='30 20', SCREEN_QAI='NODATA'))
    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(go, range(len(reqs))))
    for i, run in enumerate(runs):
        q, e = reqs[i], exp[i]
        what = f'{q["from"]}..{q["to"]} doy {q["doy"]} sensors {q["sensors"]} product {q["product"]} ignore7 {q["ignore7"]}'
        key = 'doy-%d-%d' % tuple(q['doy']) if q['doy'][0] == q['doy'][1] else 'selection'
        if not ck.expect(run.rc == 0, 'exit', f'exit {run.rc} for {what}', run.log[-500:]):
            continue
        ck.trace()
        for bi, band in enumerate(q['bands']):
            hits = [f for f in run.files() if f.endswith('_TSS.tif')]
            byband = [f for f in hits if f'_{band}_TSS' in f]
            if not e['sel']:
                ck.expect(not hits, key, f'{what}: no image qualifies, but {hits} was written')
                continue
            if not ck.expect(len(byband) == 1, 'missing', f'{what}: no TSS product for {band}: {hits}'):
                continue
            p = Raster(byband[0])
            want = [(ymd(files[k - 1]['date']) + '_' + files[k - 1]['sensor'], value(k - 1, e['bands'][files[k - 1]['sensor']][bi] - 1)) for k in e['sel']]
            got = [(n, int(v)) for n, v in zip(p.names, p.data[:, 0, 0])]
            ck.count(len(want), case=(i, bi))
            same = sorted(got) == sorted(want) and [g[0][:8] for g in got] == [w[0][:8] for w in want] and (p.data == p.data[:, :1, :1]).all()
            if not same:
                ck.violation(key, f'{what}, band {band}: series differs', dict(got=got, want=want, only_got=sorted(set(got) - set(want)), missing=sorted(set(want) - set(got))))
    ck.sample(dict(request=reqs[4], selected=[files[k - 1] for k in exp[4]['sel']]))
    ck.notes['requests'] = len(reqs)


def target(q):
    return q['target'] or ('LNDLG' if not all(s.startswith('SEN') for s in q['sensors']) else 'SEN2L')
