"""replays the series of Change.tla: one period per acquisition, one series per pixel"""
import json, math
import numpy as np
from cube import Cube, Run, NODATA

TRD = ['MEAN', 'OFFSET', 'SLOPE', 'PCT_GAIN', 'ABS_GAIN', 'RSQ', 'SIG', 'RMSE', 'MAE', 'MAXRES', 'NUM', 'LENGTH']
NAMES = dict(Y='YEAR', Q='QUARTER', M='MONTH', W='WEEK', D='DOY')
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def axis(by, n, rng):
    """days of the acquisitions, the request, and the number of the first period"""
    if by == 'Y':
        y = rng.randrange(1990, 2012)
        return [f'{y + k}{rng.randrange(1, 13):02d}{rng.randrange(1, 29):02d}' for k in range(n)], dict(DATE_RANGE=f'{y}-01-01 {y + n - 1}-12-31', DOY_RANGE='1 365'), y
    if by == 'Q':
        assert n == 4
        return [f'2018{3 * k + rng.randrange(1, 4):02d}{rng.randrange(1, 29):02d}' for k in range(4)], dict(DATE_RANGE='2018-01-01 2018-12-31', DOY_RANGE='1 365'), 1
    if by == 'M':
        m = rng.randrange(1, 14 - n)
        return [f'2018{m + k:02d}{rng.randrange(1, 29):02d}' for k in range(n)], dict(DATE_RANGE='2018-01-01 2018-12-31', DOY_RANGE=f'{CUM[m - 1] + 1} {(CUM + [365])[m + n - 1]}'), m
    first = rng.randrange(2, 52 - n) if by == 'W' else rng.randrange(1, 365 - n)
    per = 7 if by == 'W' else 1
    doys = [(first - 1 + k) * per + 1 + (rng.randrange(7) if by == 'W' else 0) for k in range(n)]
    days = [f'2018{max(i for i in range(12) if CUM[i] < d) + 1:02d}{d - max(c for c in CUM if c < d):02d}' for d in doys]
    return days, dict(DATE_RANGE='2018-01-01 2018-12-31', DOY_RANGE=f'{(first - 1) * per + 1} {(first - 1 + n) * per}'), first


def explore(ck, jobs, invariants=('Largest', 'Whole', 'Found')):
    fn = ck.dir('cfg') + '/jobs.ndjson'
    open(fn, 'w').write(''.join(json.dumps({k: v for k, v in j.items() if not k.startswith('_')}) + '\n' for j in jobs))
    r = ck.tlc('Change', spec='Spec', invariants=list(invariants), env=dict(JOBS=fn))
    out = [[] for _ in jobs]
    for e in r.cases:
        out[e['job'] - 1].append(e)
    return out, fn


def near(got, n, d, k=1.0):
    return abs(got - k * n / d) <= 1.0001 + abs(k * n / d) * 1e-5


def judge(got, e, u, name='', dates=False):
    """12 parameters of a part against the specification (in units u); the first one that is wrong"""
    g = dict(zip(TRD, (int(x) for x in got)))
    if e['n'] == 0:
        return None if all(v == NODATA for v in g.values()) else 'expected nodata'
    if not near(g['MEAN'], *e['mean'], u): return 'MEAN'
    if g['NUM'] != e['n']: return 'NUM'
    if g['LENGTH'] != e['len']: return 'LENGTH'
    if e['n'] < 3:
        rest = [k for k in TRD if k not in ('MEAN', 'NUM', 'LENGTH') and g[k] != NODATA]
        return rest[0] if rest else None
    a, vx = e['slope']
    k, slp, off = e['n'], u * a / vx, u * e['start'][0] / e['start'][1]
    sse = max(0.0, (e['vy'] - a * a / vx) / k) * u * u
    up = 1000 if dates else 1                                    # trends of dates in thousandths of days
    if dates:
        off += 365 * e['from']
    big = lambda v: abs(v) > 32760
    if not big(off) and abs(g['OFFSET'] - off) > 1.01: return 'OFFSET'
    if not big(slp * up) and abs(g['SLOPE'] - slp * up) > 1.01 + 1e-4 * abs(slp * up): return 'SLOPE'
    if not big(slp * up * e['len']) and abs(g['ABS_GAIN'] - slp * up * e['len']) > 1.01 + 1e-4 * abs(slp * up * e['len']): return 'ABS_GAIN'
    if abs(off) > 1:
        pct = slp * up * e['len'] / off * 100 if off > 0 else 0
        if not big(pct) and abs(g['PCT_GAIN'] - pct) > 1.01 + 1e-4 * abs(pct): return 'PCT_GAIN'
    if e['vy'] and not dates and abs(g['RSQ'] - 10000 * a * a / (vx * e['vy'])) > 1.01: return 'RSQ'
    if abs(g['RMSE'] - math.sqrt(sse / k)) > 1.01: return 'RMSE'
    if abs(g['MAE'] - u * e['sae'] / vx / k) > 1.01: return 'MAE'
    if abs(g['MAXRES'] - u * e['maxres'] / vx) > 1.01: return 'MAXRES'
    if g['SIG'] not in e['sig']: return 'SIG'
    return None


def replay(ck, job, cases, by, rng, want):
    """want: which of TR and CA are requested"""
    n, u = job['n'], job['_unit']
    days, over, first = axis(by, n, rng)
    ncol = 64
    nrow = -(-len(cases) // ncol)
    order = list(range(len(cases)))
    rng.shuffle(order)
    cube = Cube(ck.dir('cube'), ncol, nrow)
    for k, d in enumerate(days):
        v = np.full(nrow * ncol, NODATA, 'int16')
        q = np.ones(nrow * ncol, 'int16')
        for pos, c in enumerate(order):
            x = cases[c]['s'][k]
            if x != -9999:
                v[pos], q[pos] = x * u, 0
        cube.ard(0, 0, d, 'LND08', np.stack([v.reshape(nrow, ncol)] * 6), q.reshape(nrow, ncol))
    return dict(order=order, first=first, x=Run(ck, 'TSA', cube.path, dict(SENSORS='LND08', TARGET_SENSOR='LNDLG', INDEX='RED', INTERPOLATE='NONE', FOLD_TYPE=rng.choice(['MAX', 'MIN', 'AVG']), TREND_TAIL=job['tail'], TREND_CONF=job['conf'] / 100,
                                               CHANGE_PENALTY='TRUE' if job['penalty'] else 'FALSE', RESOLUTION=10, CHUNK_SIZE=f'{ncol * 10} {nrow * 10}', NTHREAD_COMPUTE=3, **{f'OUTPUT_{w}{by}': 'TRUE' for w in want}, **over)))


def compare_trend(ck, job, cases, by, r):
    p = r['x'].product(0, 0, '_TR' + by)
    what = f'trend by {NAMES[by].lower()}, {job["tail"]} {job["conf"]} %'
    if not ck.expect(r['x'].rc == 0, 'exit', f'{what}: exit {r["x"].rc}', r['x'].log[-300:]):
        return
    if not ck.expect(p is not None and p.names == TRD, 'bands', f'{what}: bands {p and p.names}'):
        return
    d = p.data.reshape(12, -1)
    for pos, c in enumerate(r['order']):
        e = cases[c]['total']
        e = e if e['n'] >= 3 else dict(n=0)
        bad = judge(d[:, pos], e, job['_unit'])
        ck.count(1)
        if bad:
            ck.violation('trend', f'{what}: {bad} wrong for the series {cases[c]["s"]} x {job["_unit"]}: {dict(zip(TRD, d[:, pos].tolist()))}', e)


def compare_change(ck, job, cases, by, r):
    p = r['x'].product(0, 0, '_CA' + by)
    what = f'change by {NAMES[by].lower()}, penalty {job["penalty"]}'
    if not ck.expect(r['x'].rc == 0, 'exit', f'{what}: exit {r["x"].rc}', r['x'].log[-300:]):
        return
    if not ck.expect(p is not None and p.nb == 39, 'bands', f'{what}: bands {p and p.names}'):
        return
    d = p.data.reshape(39, -1).astype(int)
    u = job['_unit']
    for pos, c in enumerate(r['order']):
        e, g = cases[c], d[:, pos]
        ck.count(1)
        bad = change_of(g, e, u, job, r['first'])
        if bad:
            ck.violation('change', f'{what}: {bad} wrong for the series {e["s"]} x {u}: change {g[:3].tolist()} total {g[3:15].tolist()} before {g[15:27].tolist()} after {g[27:].tolist()}', e)


def change_of(g, e, u, job, first, dates=False):
    if e['total']['n'] < 2:
        return None if (g == NODATA).all() else 'expected nodata'
    if not e['changes']:
        return None                                              # nothing lasts: nothing is said about the change
    bad = judge(g[3:15], e['total'], u, dates=dates)
    if bad:
        return 'TOTAL-' + bad
    why = None
    for c in e['changes']:
        w = None
        if g[2] != first + c['at'] - 1: w = 'time of change'
        elif not dates and g[0] != c['drop'] * u: w = 'magnitude'
        elif judge(g[15:27], c['before'], u, dates=dates): w = 'BEFORE-' + judge(g[15:27], c['before'], u, dates=dates)
        elif judge(g[27:39], c['after'], u, dates=dates): w = 'AFTER-' + judge(g[27:39], c['after'], u, dates=dates)
        elif not dates:
            off = g[4]
            loss = 100 * g[0] / off if off > 0 else 0
            if abs(loss) < 32760 and abs(g[1] - loss) > 1.01: w = 'loss'
        if w is None:
            return None
        why = w if why is None or w != 'time of change' else why
    return why


DATES = ('DEM', 'DLM', 'DPS', 'DSS', 'DMS', 'DES', 'DEV', 'DAV', 'DLV')


def seasons(ck, job, which):
    """trends and changes of yearly phenometrics, judged by the metrics that were written"""
    import h23
    r = np.random.default_rng(job['_seed'])
    w = h23.world(ck, r, 60, 6, 14)
    mets = list(DATES) + ['LGS', 'LTS']
    x = Run(ck, 'TSA', w['cube'].path, dict(SENSORS='LND08', TARGET_SENSOR='LNDLG', DATE_RANGE='2015-01-01 2020-12-31', INDEX='NIR', INTERPOLATE='LINEAR', INT_DAY=10, OUTPUT_POL='TRUE', POL=' '.join(mets), POL_ADAPTIVE='TRUE', STANDARDIZE_POL='NONE',
                                            TREND_TAIL=job['tail'], TREND_CONF=job['conf'] / 100, CHANGE_PENALTY='FALSE', RESOLUTION=10, CHUNK_SIZE=f'{h23.NCOL * 10} {w["nrow"] * 10}', NTHREAD_COMPUTE=3, **{f'OUTPUT_{q}O': 'TRUE' for q in which}))
    if not ck.expect(x.rc == 0, 'exit', f'seasons: exit {x.rc}', x.log[-300:]):
        return
    series, jobs = {}, []
    for m in mets:
        p = x.product(0, 0, f'_{m}-POL')
        if not ck.expect(p is not None, 'missing', f'seasons: no product {m}'):
            return
        d = p.data.reshape(p.nb, -1).astype(int)
        for k in range(p.nb) if m in DATES else []:
            d[k] = np.where(d[k] == NODATA, NODATA, d[k] - 365 * k)
        series[m] = d
        jobs.append(dict(job, series=[list(t) for t in sorted({tuple(c) for c in d.T.tolist()})]))
    cases, _ = explore(ck, jobs)
    for m, cs in zip(mets, cases):
        known = {tuple(e['s']): e for e in cs}
        for q in which:
            p = x.product(0, 0, f'_{m}-{q}O')
            if not ck.expect(p is not None, 'missing', f'seasons: no product {q} of {m}: {[f for f in x.files() if m in f]}'):
                continue
            g = p.data.reshape(p.nb, -1).astype(int)
            for i in range(g.shape[1]):
                s = series[m][:, i].tolist()
                e = known[tuple(s)]
                ck.count(1)
                if q == 'TR':
                    bad = judge(g[:, i], e['total'] if e['total']['n'] >= 3 else dict(n=0), 1, dates=m in DATES)
                else:
                    whole = NODATA not in s[s.index(next(v for v in s if v != NODATA)):][:sum(v != NODATA for v in s)] if any(v != NODATA for v in s) else True
                    bad = change_of(g[:, i], e, 1, job, w['y0'], dates=m in DATES) if whole or m not in DATES else None
                if bad:
                    ck.violation('seasons', f'{q} of {m}: {bad} wrong for {s} (days of year{"" if m in DATES else ", or days"}): {g[:, i].tolist()}', e)
    ck.trace(len(jobs))
