"""H10: clear-sky observation statistics."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from cube import Cube, Run, NODATA
from ts import FLAGGED, UNFLAGGED, admissible, iso, ymd

STA = ['NUM', 'MIN', 'MAX', 'RNG', 'AVG', 'STD', 'SKW', 'KRT', 'Q10', 'Q25', 'Q50', 'Q75', 'Q90', 'IQR']


def configs(ck):
    rng = ck.rng
    C = []

    def cfg(frm, to, step, dates, nalt, sta=STA):
        # fourth powers of long gaps exceed TLC's integers
        sta = [s for s in sta if s not in ('SKW', 'KRT') or (s == 'SKW' and step <= 2) or len(dates) <= 6 and step == 1]
        C.append({'from': frm, 'to': to, 'step': step, 'dates': dates, 'nalt': nalt, 'sta': sta})
    # borders: first and last day of windows, two acquisitions on one day, an empty window
    cfg([2018, 1, 1], [2018, 12, 31], 3, [[2018, 1, 1], [2018, 2, 10], [2018, 2, 10], [2018, 3, 31], [2018, 4, 1], [2018, 4, 20], [2018, 12, 31]], 3)
    cfg([2017, 11, 15], [2018, 3, 20], 1, [[2017, 11, 20], [2017, 12, 1], [2017, 12, 31], [2018, 1, 1], [2018, 3, 1], [2018, 3, 20]], 3)
    cfg([2016, 1, 1], [2018, 6, 30], 12, [[2016, 2, 28], [2016, 12, 31], [2017, 1, 1], [2017, 7, 1], [2018, 1, 2], [2018, 6, 30]], 3)
    cfg([2018, 2, 1], [2018, 11, 30], 5, [[2018, m, d] for m, d in ((2, 1), (2, 28), (3, 1), (6, 30), (7, 1), (11, 30))] + [[2018, 11, 30]], 3)
    for _ in range(6 if ck.thorough else 2):
        y = rng.choice([2016, 2017, 2018])
        m0 = rng.randrange(1, 13)
        span = rng.randrange(1, 26)
        k = 12 * y + m0 - 1
        frm = [y, m0, rng.choice([1, 1, 15, 28])]
        e = k + span
        to = [e // 12, e % 12 + 1, rng.choice([1, 17, 28])]
        ds = []
        for _ in range(8 if not ck.thorough else 10):
            a = k + rng.randrange(0, span + 1)
            d = [a // 12, a % 12 + 1, rng.choice([1, 1, 5, 14, 28, 28, rng.randrange(1, 29)])]
            if frm <= d <= to:
                ds.append(d)
        ds.sort()
        cfg(frm, to, rng.randrange(1, 8), ds or [frm], 2)
    return C


def place(dates):
    """file names: two acquisitions of one day come from different sensors"""
    seen, out = set(), []
    for d in dates:
        k = tuple(d)
        s = 'SEN2A' if k not in seen else 'SEN2B'
        if k in seen and (k, 2) in seen:
            raise ValueError
        seen.add((k, 2) if k in seen else k)
        out.append((ymd(d), s))
    return out


def main(ck):
    C = configs(ck)
    for c in C:          # at most two per day
        d, keep = {}, []
        for x in c['dates']:
            d[tuple(x)] = d.get(tuple(x), 0) + 1
            if d[tuple(x)] <= 2:
                keep.append(x)
        c['dates'] = keep
    fn = os.path.join(ck.dir('cfg'), 'c.ndjson')
    open(fn, 'w').write(''.join(json.dumps(c) + '\n' for c in C))
    r = ck.tlc('Cso', spec='Spec', invariants=['Tiling', 'Positive', 'Counted', 'Covers'], env=dict(CFGS=fn))
    cases = {}
    for x in r.cases:
        cases.setdefault(x['cfg'] - 1, []).append(x)
    assert len(cases) == len(C)
    ck.bdir
    work = []
    for i, c in enumerate(C):
        work.append((i, dict(), ' '.join(c['sta'])))
        work.append((i, dict(chunks=2), 'Q50 MAX NUM' if i % 2 else 'STD MIN Q25'))

    def go(a):
        i, opt, sta = a
        c, cs = C[i], cases[i]
        rng = np.random.RandomState(ck.seed * 100 + i)
        n = len(cs)
        ncol = 32
        nrow = -(-n // ncol)
        nrow += nrow % 2
        cube = Cube(ck.dir('cube'), ncol, nrow)
        full = np.full((len(c['dates']), ncol * nrow), 3, int)
        for p, x in enumerate(cs):
            full[:, p] = x['obs']
        for k, (date, sensor) in enumerate(place(c['dates'])):
            o = full[k]
            q = np.where(o == 1, rng.choice([0, 0] + UNFLAGGED, o.size), np.where(o == 2, rng.choice(FLAGGED, o.size), 1))
            v = np.where(o == 3, NODATA, rng.randint(1, 9000, o.size)).astype('int16')
            cube.ard(0, 0, date, sensor, np.stack([v.reshape(nrow, ncol)] * 10), q.reshape(nrow, ncol))
        # acquisitions outside the range must not matter
        for date in (f'{c["from"][0] - 1}0615', f'{c["to"][0] + 1}0615'):
            cube.ard(0, 0, date, 'SEN2A', np.full((10, nrow, ncol), 500, 'int16'))
        return Run(ck, 'CSO', cube.path, dict(SENSORS='SEN2A SEN2B', TARGET_SENSOR='SEN2L', DATE_RANGE=f'{iso(c["from"])} {iso(c["to"])}', MONTH_STEP=c['step'], CSO=sta,
                                              CHUNK_SIZE=f'{ncol * 10} {nrow * 10 // opt.get("chunks", 1)}'))
    with ThreadPoolExecutor(6) as ex:
        runs = list(ex.map(go, work))
    for (i, opt, sta), run in zip(work, runs):
        c, cs = C[i], cases[i]
        what = f'{iso(c["from"])} to {iso(c["to"])}, {c["step"]} months'
        if not ck.expect(run.rc == 0, 'exit', f'{what}: exit {run.rc}', run.log[-600:]):
            continue
        lab = [ymd(x) for x in cs[0]['labels']]
        for s in sta.split():
            r = run.product(0, 0, '_' + s)
            if not ck.expect(r is not None, f'missing:{s}', f'{what}: product {s} missing'):
                continue
            if not ck.expect(r.nb == len(lab) and r.names == lab, 'windows', f'{what}: {s} has bands {r.names}, expected {lab}'):
                continue
            b = c['sta'].index(s)
            D = r.data.reshape(r.nb, -1)
            bad = []
            for p, x in enumerate(cs):
                for k, e in enumerate(x['out'][b]):
                    if not admissible(int(D[k, p]), e):
                        bad.append((p, k))
            ck.count(len(cs) * r.nb)
            if bad:
                p, k = bad[0]
                ck.violation(f'value:{s}', f'{what}: {s} wrong in {len(bad)} of {len(cs) * r.nb} cases, e.g. observations {cs[p]["obs"]} (1 usable) on {[ymd(d) for d in c["dates"]]}, '
                             f'window {lab[k]}: {int(D[k, p])}, expected {cs[p]["out"][b][k]}', dict(config=c, obs=cs[p]['obs']))
        ck.trace(len(cs))
    ck.sample(dict(config=C[1], obs=cases[1][5]['obs'], out=cases[1][5]['out'][0]))
