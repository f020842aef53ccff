"""H20: seasonal curves reproduce seasonal series, and the near-real-time product is the difference to them."""
import json, math, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from cube import Cube, Run, NODATA
from ts import DEFAULT_SCREEN, FLAGGED

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
Y0 = 2016


def name_of(day, sep=''):
    y, d = divmod(day - 1, 365)
    m = max(i for i in range(12) if CUM[i] <= d)
    return f'{Y0 + y}{sep}{m + 1:02d}{sep}{d - CUM[m] + 1:02d}'


def make(ck, rng, modes, trend, fit, end, nobs, npix, step):
    """days count from January 1st of the first year"""
    days = sorted(rng.choice(np.arange(1, end + 1), nobs, replace=False).tolist())
    days[0], days[-1] = fit[0], end                       # the ends of the fit range belong to it
    k = min(range(nobs), key=lambda t: abs(days[t] - fit[1]))
    days[k] = fit[1]
    days = sorted(set(days))
    nobs = len(days)
    a = rng.integers(-400, 400, 6)
    slope = int(rng.integers(-2, 3)) * 0.2 if trend else 0

    def f(d):
        ce = Y0 * 365 + d
        v = 2500 + slope * d
        for m in range(modes):
            v += a[2 * m] * math.cos(2 * (m + 1) * math.pi * ce / 365) + a[2 * m + 1] * math.sin(2 * (m + 1) * math.pi * ce / 365)
        return v
    ncol = 10
    nrow = -(-npix // ncol)
    val = np.zeros((nobs, npix), int)
    state = np.full((nobs, npix), 'ok', object)
    ncoef = 1 + trend + 2 * modes
    for p in range(npix):
        lose = [0.0, 0.2, 0.4, 0.75, 0.9][p % 5]
        state[rng.random(nobs) < lose, p] = 'flagged' if p % 2 else 'empty'
        if p % 7 == 3:                                     # exactly enough, or one too few
            inside = [t for t in range(nobs) if fit[0] <= days[t] <= fit[1]]
            state[inside, p] = 'flagged'
            state[rng.choice(inside, ncoef - (p // 7) % 2, replace=False), p] = 'ok'
        for t in range(nobs):
            out = days[t] < fit[0] or days[t] > fit[1]
            val[t, p] = round(f(days[t])) + (int(rng.integers(-1500, 1500)) if out and p % 3 else 0)
    val = np.clip(val, 1, 12000)
    cube = Cube(ck.dir('cube'), ncol, nrow)
    for t in range(nobs):
        red = np.full(nrow * ncol, NODATA)
        q = np.ones(nrow * ncol, int)
        red[:npix] = np.where(state[t] == 'empty', NODATA, np.where(state[t] == 'flagged', 9000 - val[t] // 2, val[t]))
        q[:npix] = [1 if s == 'empty' else int(rng.choice(FLAGGED)) if s == 'flagged' else 0 for s in state[t]]
        cube.ard(0, 0, name_of(days[t]), 'LND08', np.stack([red.reshape(nrow, ncol)] * 6).astype('int16'), q.reshape(nrow, ncol))
    nstep = end // step
    steps = [1 + i * step for i in range(nstep)]
    ahead = [d for d in days if d > fit[1]]
    job = dict(days=days, fit=fit, steps=steps, modes=modes, trend=bool(trend), spare=8, curve=[round(f(d)) for d in steps], ahead=[round(f(d)) for d in ahead],
               pixels=[dict(state=state[:, p].tolist(), value=val[:, p].tolist()) for p in range(npix)])
    return dict(job=job, cube=cube, ahead=ahead, end=end, step=step, nrow=nrow, ncol=ncol)


def main(ck):
    rng = np.random.default_rng(ck.seed * 77)
    worlds = [make(ck, rng, 3, 1, (1, 1095), 1460, 60, 50, 16), make(ck, rng, 1, 0, (366, 1095), 1460, 50, 50, 10), make(ck, rng, 2, 1, (1, 730), 1095, 55, 50, 30),
              make(ck, rng, 1, 1, (31, 1400), 1460, 40, 50, 32), make(ck, rng, 2, 0, (100, 1000), 1200, 50, 50, 25), make(ck, rng, 3, 0, (1, 1460), 1460, 70, 50, 16)]
    fn = os.path.join(ck.dir('cfg'), 'jobs.ndjson')
    with open(fn, 'w') as f:
        for w in worlds:
            f.write(json.dumps(w['job']) + '\n')
    ck.bdir

    def go(w):
        j = w['job']
        whole = not w['ahead']
        return Run(ck, 'TSA', w['cube'].path, dict(
            SENSORS='LND08', DATE_RANGE=f'{Y0}-01-01 {name_of(w["end"], "-")}', INDEX='RED', INTERPOLATE='HARMONIC', INT_DAY=w['step'], HARMONIC_TREND=str(j['trend']).upper(), HARMONIC_MODES=j['modes'],
            HARMONIC_FIT_RANGE=f'{name_of(j["fit"][0], "-")} {name_of(j["fit"][1], "-")}', OUTPUT_NRT='FALSE' if whole else 'TRUE', OUTPUT_TSI='TRUE', SCREEN_QAI=' '.join(DEFAULT_SCREEN),
            RESOLUTION=10, CHUNK_SIZE=f'{w["ncol"] * 10} {w["nrow"] * 10}', NTHREAD_COMPUTE=2))
    with ThreadPoolExecutor(4) as ex:
        runs = list(ex.map(go, worlds))
    r = ck.tlc('Harmonic', spec='Spec', invariants=['OnlyFitRange'], env=dict(JOBS=fn))
    ck.tlc('Harmonic', spec='Spec', invariants=['AlwaysFitted'], env=dict(JOBS=fn), expect_violation=True)
    firm = 0
    for c in r.cases:
        w, x = worlds[c['job'] - 1], runs[c['job'] - 1]
        j = w['job']
        what = f'{j["modes"]} modes, trend {j["trend"]}, days {j["fit"]} of {w["end"]}'
        if c['px'] == 1:
            if ck.expect(x.rc == 0, 'exit', f'{what}: exit {x.rc}', x.log[-400:]):
                tsi = x.product(0, 0, '_TSI')
                nrt = x.product(0, 0, '_NRT') if w['ahead'] else None
                ck.expect(tsi is not None and tsi.names == [name_of(d) for d in j['steps']], 'labels', f'{what}: interpolated series is missing or labelled {tsi and tsi.names}')
                if w['ahead']:
                    ck.expect(nrt is not None and [n[:8] for n in nrt.names] == [name_of(d) for d in w['ahead']], 'nrtlabels', f'{what}: near-real-time product is missing or labelled {nrt and nrt.names}, expected {[name_of(d) for d in w["ahead"]]}')
                w['prod'] = (tsi, nrt)
        if 'prod' not in w or w['prod'][0] is None or (w['ahead'] and w['prod'][1] is None):
            continue
        y, xx = divmod(c['px'] - 1, w['ncol'])
        firm += c['out']['firm']
        n = sum(s == 'ok' for s in j['pixels'][c['px'] - 1]['state'])
        for kind, img, want in (('TSI', w['prod'][0], c['out']['series']), ('NRT', w['prod'][1], c['out']['nrt'])):
            if img is None or img.nb != len(want):
                continue
            got = img.data[:, y, xx].tolist()
            ck.count(len(got))
            bad = [i for i, (g, e) in enumerate(zip(got, want)) if (g == NODATA) != (e[0] == 0) or (e[0] and c['out']['firm'] and abs(g - e[1]) > 4)]
            if not c['out']['firm']:
                bad = [i for i in bad if got[i] == NODATA or want[i][0] == 0]
            ck.expect(not bad, kind, f'{what}, pixel with {n} usable observations: {kind} is {[got[i] for i in bad[:6]]} instead of {[want[i] for i in bad[:6]]} (band {bad[:6]})', j['pixels'][c['px'] - 1])
    ck.trace(len(r.cases))
    ck.notes['pixels whose values are judged'] = firm
    ck.sample(r.cases[0]['out']['nrt'])
