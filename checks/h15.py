"""H15: plug-ins see and return exactly their own pixel or block."""
import datetime, glob, json, os, pickle
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vf
from cube import Cube, Run, NODATA

NX = 6
BASE = (datetime.date(2017, 1, 1) - datetime.date(1970, 1, 1)).days
PLUGIN = '''
import numpy as np, os, pickle, itertools
OUTS = {outs!r}
DIR = {dir!r}
def record(what):
    with open(os.path.join(DIR, str(os.getpid()) + '.pkl'), 'ab') as f:
        pickle.dump(what, f)
def forcepy_init(dates, sensors, bandnames):
    record(dict(init=True, dates=np.array(dates), sensors=np.array(sensors), bands=np.array(bandnames)))
    return [{name} for o in OUTS]
def forcepy_pixel(inarray, outarray, dates, sensors, bandnames, nodata, nproc):
    record(dict(data=np.array(inarray), dates=np.array(dates), sensors=np.array(sensors), bands=np.array(bandnames), nodata=nodata))
    work(inarray, outarray.reshape(len(OUTS), 1, 1), dates, nodata)
def forcepy_chunk(inarray, outarray, dates, sensors, bandnames, nodata, nproc):
    record(dict(data=np.array(inarray), dates=np.array(dates), sensors=np.array(sensors), bands=np.array(bandnames), nodata=nodata))
    work(inarray, outarray, dates, nodata)
def work(a, out, dates, nodata):
    nt, nb, ny, nx = a.shape
    order = sorted(range(nt), key=lambda t: dates[t])
    for y, x in itertools.product(range(ny), range(nx)):
        for o, name in enumerate(OUTS):
            s = a[:, :, y, x].astype(int)
            if name == 'valid':
                out[o, y, x] = (s != nodata).sum()
            elif name == 'sum':
                out[o, y, x] = sum((i + 1) * (b + 1) * s[t, b] for i, t in enumerate(order) for b in range(nb) if s[t, b] != nodata) % 10007
            elif name == 'lastday':
                ok = [t for t in order if s[t, 0] != nodata]
                if ok:
                    out[o, y, x] = dates[ok[-1]] - {base}
            elif name == 'echo':
                out[o, y, x] = s[order[-1], nb - 1]
            elif name == 'constant':
                out[o, y, x] = 77
            elif name == 'place':
                out[o, y, x] = y * nx + x
            elif name == 'left' and x:
                out[o, y, x] = a[order[0], 0, y, x - 1]
'''
SENS = ['LND08', 'SEN2A', 'LND07']
LB = ['BLUE', 'GREEN', 'RED', 'NIR', 'SWIR1', 'SWIR2']


class Scene:
    """a tile of observations on distinct days"""

    def __init__(self, ck, rng, ny, nobs, mask=False, aux=()):
        self.ny, self.aux = ny, aux
        self.cube = Cube(ck.dir('cube'), NX, ny)
        days = sorted(rng.choice(np.arange(1, 700), nobs, replace=False).tolist())
        if nobs > 3:
            days[1] = 59 + 365 * int(rng.integers(0, 2))     # turn of February
        self.obs = []
        for t, d in enumerate(sorted(set(days))):
            date = datetime.date(2017, 1, 1) + datetime.timedelta(days=int(d))
            s = SENS[int(rng.integers(3))]
            q = np.where(rng.random((ny, NX)) < 0.25, rng.choice([1, 2, 4, 8]), 0)
            a = rng.integers(1, 9000, (10 if s[0] == 'S' else 6, ny, NX))
            a[:, q == 1] = NODATA
            x = {n: rng.integers(0, 2000, (ny, NX)) for n in aux}
            self.cube.ard(0, 0, date.strftime('%Y%m%d'), s, a, q)
            for n in aux:
                self.cube.image(0, 0, f'{date:%Y%m%d}_LEVEL2_{s}_{n}.tif', x[n].astype('int16'))
            main = a[[0, 1, 2, 7, 8, 9]] if s[0] == 'S' else a
            self.obs.append(dict(date=date, day=int((date - datetime.date(2017, 1, 1)).days), s=s, use=(q == 0), v=np.concatenate([main] + [x[n][None] for n in aux])))
        self.mask = None
        if mask:
            self.mask = (rng.random((ny, NX)) < 0.6).astype('uint8')
            self.mask[0, 0] = 1
            self.cube.image(0, 0, 'MASK.tif', self.mask, nodata=255)


def spec_job(sc, id, kind, rows, outs, band=None, mask=False):
    obs = [dict(day=o['day'], use=[bool(x) for x in o['use'].ravel()], v=[x.ravel().tolist() for x in (o['v'] if band is None else o['v'][band:band + 1])]) for o in sc.obs]
    return dict(id=id, kind=kind, nx=NX, ny=sc.ny, blockRows=rows, mask=sc.mask.ravel().tolist() if mask else [], bands=len(obs[0]['v']), outs=outs, obs=obs)


def run(ck, j):
    sc = j['scene']
    d = ck.dir('seen')
    py = os.path.join(ck.dir('py'), 'plugin.py')
    open(py, 'w').write(PLUGIN.format(outs=j['outs'], dir=d, base=BASE, name=j.get('name', 'o')))
    over = dict(SENSORS=' '.join(SENS), TARGET_SENSOR='LNDLG', DATE_RANGE='2017-01-01 2018-12-31', DOY_RANGE='1 365', SCREEN_QAI='NODATA CLOUD_OPAQUE CLOUD_BUFFER CLOUD_CIRRUS CLOUD_SHADOW',
                RESOLUTION=10, CHUNK_SIZE=f'{NX * 10} {j["rows"] * 10}', NTHREAD_COMPUTE=j['threads'], FILE_PYTHON=py, PYTHON_TYPE=j['kind'], OUTPUT_PYP='TRUE')
    if j['mask']:
        over.update(DIR_MASK=sc.cube.path, BASE_MASK='MASK.tif')
    if j['module'] == 'UDF':
        over.update(REQUIRE_AUX_PRODUCTS=' '.join(sc.aux) or 'NULL')
    else:
        over.update(INDEX=' '.join(j['index']), INTERPOLATE='NONE', OUTPUT_TSS='FALSE', OUTPUT_TSI='FALSE', OUTPUT_STM='FALSE')
    r = Run(ck, j['module'], sc.cube.path, over, timeout=200)
    seen = []
    for f in glob.glob(d + '/*.pkl'):
        with open(f, 'rb') as fp:
            while True:
                try:
                    seen.append(pickle.load(fp))
                except EOFError:
                    break
    return r, seen


def text(a):
    return [x.decode() if isinstance(x, bytes) else str(x) for x in a.tolist()]


def compare(ck, j, r, seen, want):
    sc = j['scene']
    for ix, w in want.items():
        what = f'{j["id"]} ({j["module"]}, {j["kind"]}, blocks of {j["rows"]} rows{", " + ix if ix else ""})'
        if not ck.expect(r.rc == 0, 'exit', f'{what}: exit {r.rc}', r.log[-400:]):
            return
        R = r.product(0, 0, f'_{ix}_PYP' if ix else '_PYP')
        if not ck.expect(R is not None and R.nb == len(j['outs']), 'missing', f'{what}: the product does not have {len(j["outs"])} bands'):
            continue
        # what arrived
        calls = [s for s in seen if 'data' in s and (not ix or text(s['bands']) == [ix])]
        nt = len(sc.obs)
        days = [(o['date'] - datetime.date(1970, 1, 1)).days for o in sc.obs]
        if ix:
            bands = [ix]
        else:
            bands = LB + list(sc.aux)
        got = []
        bad = False
        for s in calls:
            order = sorted(range(len(s['dates'])), key=lambda t: s['dates'][t])
            bad |= not ck.expect([int(s['dates'][t]) for t in order] == days, 'dates', f'{what}: the plug-in saw days {s["dates"].tolist()}, observations are on {days}')
            if not ix:
                bad |= not ck.expect([text(s['sensors'])[t] for t in order] == [o['s'] for o in sc.obs] and text(s['bands']) == bands, 'labels',
                                     f'{what}: the plug-in saw sensors {text(s["sensors"])} and bands {text(s["bands"])}, observations are of {[o["s"] for o in sc.obs]}')
            bad |= not ck.expect(s['nodata'] == NODATA, 'nodata', f'{what}: the nodata value given is {s["nodata"]}')
            if bad:
                break
            a = s['data'][order]
            got += [tuple(a[:, :, y, x].ravel().tolist()) for y in range(a.shape[2]) for x in range(a.shape[3])] if j['kind'] == 'PIXEL' else []
            if j['kind'] == 'CHUNK':
                got.append(a.shape[2:] + tuple(a.ravel().tolist()))
        if bad:
            continue
        series = [np.array(s) for s in w['given']]
        if j['kind'] == 'PIXEL':
            exp = [tuple(s.ravel().tolist()) for s in series]
            # a pixel without any data need not be handed over
            empty = lambda s: all(x == NODATA for x in s)
            exp, got2 = sorted(s for s in exp if not empty(s)), sorted(s for s in got if not empty(s))
        else:
            exp = []
            for y0 in range(0, sc.ny, j['rows']):
                n = min(j['rows'], sc.ny - y0)
                blk = np.stack([series[p] for p in range(y0 * NX, (y0 + n) * NX)], axis=2).reshape(nt, len(bands), n, NX)
                if (blk != NODATA).any():
                    exp.append((n, NX) + tuple(blk.ravel().tolist()))
            exp, got2 = sorted(exp), sorted(g for g in got if any(v != NODATA for v in g[2:]))
        ck.expect(got2 == exp, 'given', f'{what}: what the plug-in saw is not the series of the {"pixels" if j["kind"] == "PIXEL" else "blocks"}: {len(got2)} calls, {len(exp)} expected; '
                  f'{sum(g not in exp for g in got2)} unexpected')
        # what was stored
        ck.expect([n for n in R.names] == [n for n in j['names']], 'names', f'{what}: the bands are named {R.names}, declared were {j["names"]}')
        for p, e in enumerate(w['result']):
            g = R.data[:, p // NX, p % NX].tolist()
            ck.count(1)
            if j['kind'] == 'CHUNK' and j['mask'] and sc.mask.ravel()[p] != 1:
                continue
            blank = all(x == NODATA for x in np.array(w['given'][p]).ravel())
            if not ck.expect(g == e or (blank and all(x == NODATA for x in g)), 'stored', f'{what}: pixel {p} should hold {e} in {j["outs"]}, holds {g}', dict(series=w['given'][p])):
                break


def main(ck):
    rng = np.random.default_rng(ck.seed)
    ck.bdir
    outs = ['valid', 'sum', 'lastday', 'untouched', 'echo']
    blocks = outs + ['place', 'left']
    A, B, C = Scene(ck, rng, 8, 6), Scene(ck, rng, 8, 5, mask=True, aux=('DST', 'XYZ')), Scene(ck, rng, 6, 1)
    jobs = []

    def add(sc, module, kind, rows, outs, threads=2, mask=False, index=(), **kw):
        names = kw.get('names', list(outs))
        jobs.append(dict(id=f'job{len(jobs)}', scene=sc, module=module, kind=kind, rows=rows, outs=list(outs), threads=threads, mask=mask, index=list(index), names=names,
                         name=kw.get('name', 'o')))
    for kind, o in (('PIXEL', outs), ('CHUNK', blocks)):
        add(A, 'UDF', kind, 8, o)
        add(A, 'UDF', kind, 2, o, threads=3)
        add(B, 'UDF', kind, 4, o)
        add(B, 'UDF', kind, 2, o + ['constant'], mask=True, threads=4)
        add(C, 'UDF', kind, 3, o)
        add(A, 'TSA', kind, 4, o, index=['RED', 'SWIR2'])
        add(B, 'TSA', kind, 4, o + ['constant'], mask=True, index=['NIR'])
    add(A, 'UDF', 'PIXEL', 4, ['sum'], name='"201805" + "17_" + o', names=['20180517_sum'])
    for i in range(20 if ck.thorough else 2):
        o = [str(x) for x in rng.permutation(outs)[:int(rng.integers(1, 5))]]
        sc = Scene(ck, rng, 6, int(rng.integers(2, 9)), mask=True, aux=[(), ('VZN',)][i % 2])
        add(sc, 'UDF', ['PIXEL', 'CHUNK'][i % 2], [1, 2, 3, 6][int(rng.integers(4))], o, threads=int(rng.integers(1, 5)), mask=bool(rng.random() < 0.5))
    fn = os.path.join(ck.dir('cfg'), 'jobs.ndjson')
    with open(fn, 'w') as f:
        for j in jobs:
            for ix in j['index'] or ['']:
                f.write(json.dumps(spec_job(j['scene'], j['id'] + ix, j['kind'], j['rows'], j['outs'], LB.index(ix) if ix else None, j['mask'])) + '\n')
    with ThreadPoolExecutor(5) as ex:
        later = [ex.submit(run, ck, j) for j in jobs]
        res = ck.tlc('Plugin', spec='Spec', invariants=['Complete', 'PixelWise'], env=dict(JOBS=fn))
        ck.tlc('Plugin', spec='Spec', invariants=['NothingScreened'], env=dict(JOBS=fn), expect_violation=True)
        # a plug-in that fails, or does not hold what is needed, fails the run
        broken = []
        for kind, code in (('PIXEL', 'def forcepy_init(a, b, c):\n    return ["x"]\n'), ('CHUNK', 'def forcepy_init(a, b, c):\n    return ["x"]\ndef forcepy_chunk(*a):\n    raise ValueError\n'),
                           ('PIXEL', 'def forcepy_pixel(*a):\n    pass\n'), ('CHUNK', 'def forcepy_init(a, b, c):\n    return 1/0\ndef forcepy_chunk(*a):\n    pass\n')):
            py = os.path.join(ck.dir('py'), 'bad.py')
            open(py, 'w').write(code)
            broken.append((kind, code, ex.submit(Run, ck, 'UDF', A.cube.path, dict(SENSORS=' '.join(SENS), TARGET_SENSOR='LNDLG', DATE_RANGE='2017-01-01 2018-12-31', RESOLUTION=10,
                           CHUNK_SIZE=f'{NX * 10} 80', NTHREAD_COMPUTE=2, FILE_PYTHON=py, PYTHON_TYPE=kind, OUTPUT_PYP='TRUE'))))
        runs = [r.result() for r in later]
        broken = [(k, c, r.result()) for k, c, r in broken]
    want = {c['id']: c for c in res.cases}
    for j, (r, seen) in zip(jobs, runs):
        ck.trace()
        compare(ck, j, r, seen, {ix: want[j['id'] + ix] for ix in j['index'] or ['']})
    for k, c, r in broken:
        ck.expect(r.rc not in (0, 'timeout') and not [f for f in r.files() if 'PYP' in f], 'broken', f'a plug-in that fails ({k}, {c!r}) gives exit {r.rc} and {len(r.files())} files', r.log[-300:])
