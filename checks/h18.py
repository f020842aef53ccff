"""H18: the noise filter removes outliers and takes plausible observations back."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from cube import Cube, Run, NODATA
from ts import DEFAULT_SCREEN, FLAGGED

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
SENSORS = ['LND07', 'LND08', 'LND09']


def name_of(day):
    y, d = divmod(day - 1, 365)
    m = max(i for i in range(12) if CUM[i] <= d)
    return f'{2017 + y}{m + 1:02d}{d - CUM[m] + 1:02d}'


def world(ck, rng, nt, npix, above, below, sameday=False):
    days, sens = [], []
    d = int(rng.integers(1, 20))
    while len(days) < nt:
        days.append(d)
        sens.append(SENSORS[int(rng.integers(0, 3))])
        if sameday and rng.random() < 0.4:
            days.pop(), sens.pop()
            for s in SENSORS[:min(3, nt - len(days))]:
                days.append(d)
                sens.append(s)
        d += int(rng.choice([1, 5, 8, 16, 40, 100]))
    ncol = 20
    nrow = -(-npix // ncol)
    val = np.zeros((nt, npix), int)
    state = np.full((nt, npix), 'ok', object)
    for p in range(npix):
        kind = p % 4
        base = 100 if kind == 0 else rng.integers(20, 180) + (rng.integers(-60, 60) * np.arange(nt)) / nt if kind == 1 else 100 + 60 * np.sin(np.arange(nt) / 2.0)
        v = base + rng.integers(-6, 7, nt) * (kind != 2) + (rng.random(nt) < 0.2) * rng.integers(-90, 90, nt)
        val[:, p] = np.clip(v, 1, 200).astype(int)
        state[rng.random(nt) < 0.25, p] = 'flagged'
        state[rng.random(nt) < 0.08, p] = 'empty'
    if npix > 4:
        val[:, 0], state[:, 0] = 50, 'ok'                        # no noise at all
        state[:, 1] = 'flagged'
        state[2:, 2] = 'empty'
    cube = Cube(ck.dir('cube'), ncol, nrow)
    for t in range(nt):
        blue = np.full(nrow * ncol, NODATA)
        q = np.ones(nrow * ncol, int)
        blue[:npix] = np.where(state[t] == 'empty', NODATA, val[t])
        q[:npix] = [1 if s == 'empty' else int(rng.choice(FLAGGED)) if s == 'flagged' else 0 for s in state[t]]
        nir = np.where(blue == NODATA, NODATA, 3000 + rng.integers(0, 2000, nrow * ncol))
        sh = (nrow, ncol)
        cube.ard(0, 0, name_of(days[t]), sens[t], np.stack([blue.reshape(sh)] + [nir.reshape(sh)] * 5).astype('int16'), q.reshape(sh))
    return dict(days=days, sens=sens, val=val, state=state, above=above, below=below, cube=cube, npix=npix, nrow=nrow, ncol=ncol)


def run(ck, w, **kw):
    f = lambda x: x[0] / x[1]
    return Run(ck, 'TSA', w['cube'].path, dict(SENSORS=' '.join(SENSORS), TARGET_SENSOR='LNDLG', DATE_RANGE='2017-01-01 2021-12-31', INDEX='BLUE NIR', OUTPUT_TSS='TRUE', OUTPUT_STM='TRUE', STM='NUM',
                                               SCREEN_QAI=' '.join(DEFAULT_SCREEN), ABOVE_NOISE=f(w['above']), BELOW_NOISE=f(w['below']), RESOLUTION=10,
                                               CHUNK_SIZE=f'{w["ncol"] * 10} {w["nrow"] * 10}', NTHREAD_COMPUTE=2, INTERPOLATE='NONE', **kw))


def main(ck):
    rng = np.random.default_rng(ck.seed * 31)
    n = 400 if ck.thorough else 100
    worlds = [world(ck, rng, 12, n, (2, 1), (1, 1)), world(ck, rng, 9, n, (3, 2), (1, 2)), world(ck, rng, 14, n, (5, 2), (2, 1)), world(ck, rng, 10, n, (3, 2), (3, 2), sameday=True),
              world(ck, rng, 3, 40, (2, 1), (1, 1)), world(ck, rng, 4, 60, (1, 1), (1, 1)), world(ck, rng, 11, n, (2, 1), (0, 1)), world(ck, rng, 2, 20, (2, 1), (1, 1)),
              world(ck, rng, 5, 60, (5, 4), (2, 1))]
    fn = os.path.join(ck.dir('cfg'), 'pixels.ndjson')
    index = []
    with open(fn, 'w') as f:
        for wi, w in enumerate(worlds):
            if len(w['days']) < 3:
                continue                                         # nothing to filter
            for p in range(w['npix']):
                index.append((wi, p))
                f.write(json.dumps(dict(day=w['days'], value=w['val'][:, p].tolist(), state=w['state'][:, p].tolist(), above=w['above'], below=w['below'])) + '\n')
    ck.bdir
    with ThreadPoolExecutor(4) as ex:
        runs = [ex.submit(run, ck, w) for w in worlds]
        off = ex.submit(run, ck, dict(worlds[0], above=(0, 1), below=(0, 1)))
        r = ck.tlc('Noise', spec='Spec', invariants=['Sound', 'KeepsEnough'], properties=['Ends'], env=dict(PIXELS=fn))
        for inv in ('NothingRemoved', 'NothingRestored'):
            ck.tlc('Noise', spec='Spec', invariants=[inv], env=dict(PIXELS=fn), expect_violation=True)
        runs, off = [x.result() for x in runs], off.result()
    want = [{} for _ in worlds]
    for c in r.cases:
        wi, p = index[c['px'] - 1]
        want[wi][p] = c
    judged = 0
    for wi, (w, x) in enumerate(list(zip(worlds, runs)) + [(worlds[0], off)]):
        filtering = wi < len(worlds) and len(w['days']) >= 3
        what = f'{len(w["days"])} observations, ABOVE_NOISE {w["above"]}, BELOW_NOISE {w["below"]}' if filtering else f'{len(w["days"])} observations, no filter'
        if not ck.expect(x.rc == 0, 'exit', f'{what}: exit {x.rc}', x.log[-400:]):
            continue
        names = [name_of(d) + '_' + s for d, s in zip(w['days'], w['sens'])]
        for band in ('BLUE', 'NIR'):
            tss, num = x.product(0, 0, f'_{band}_TSS'), x.product(0, 0, f'_{band}_STM')
            if not ck.expect(tss is not None and num is not None and tss.names == names, 'missing', f'{what}: series is missing or labelled {tss and tss.names}'):
                continue
            flat, cnt = tss.data.reshape(tss.nb, -1), num.data.reshape(-1)
            for p in range(w['npix']):
                e = want[wi][p] if filtering else dict(usable=[t + 1 for t in range(len(names)) if w['state'][t, p] == 'ok'], unclear=False)
                if e['unclear']:
                    continue
                judged += 1
                got = [t + 1 for t in range(len(names)) if flat[t, p] != NODATA]
                if not ck.expect(got == sorted(e['usable']), 'filter', f'{what}: days {w["days"]} values {w["val"][:, p].tolist()} states {w["state"][:, p].tolist()}: used are {got}, expected {sorted(e["usable"])}', e):
                    continue
                if band == 'BLUE':
                    ck.expect(all(flat[t - 1, p] == w['val'][t - 1, p] for t in got), 'value', f'{what}: values of the used observations are changed')
                ck.expect(cnt[p] == (len(got) or NODATA), 'count', f'{what}: {len(got)} observations are used, the statistics count {cnt[p]}')
    ck.count(judged)
    ck.trace(len(index))
    ck.notes['pixels with removed observations'] = sum(bool(c['removed']) for c in r.cases)
    ck.notes['pixels with restored observations'] = sum(bool(c['restored']) for c in r.cases)
    ck.notes['not judged (at a threshold)'] = sum(c['unclear'] for c in r.cases)
    ck.sample(dict(r.cases[7], day=worlds[0]['days']))
