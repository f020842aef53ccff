"""H22: library completeness is the distance to the closest sample."""
import json
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from cube import Cube, Run, NODATA

NF, NCOL, NROW = 4, 20, 12
# deviations with a mean of zero whose standard deviation is the unit
UNITS = [[-1, 0, 1], [1, -1, 1, -1, 0], [1, 1, -1, -1, 1, -1, 1, -1, 0]]


def library(rng, sds, rows=None):
    base = [UNITS[i] for i in range(len(UNITS)) if rows is None or len(UNITS[i]) == rows]
    u = base[int(rng.integers(0, len(base)))]
    mean = [int(v) for v in rng.integers(-500, 6000, NF)]
    sd = [int(rng.choice(sds)) for _ in range(NF)]
    cols = [[mean[f] + sd[f] * k for k in rng.permutation(u)] for f in range(NF)]
    return dict(rows=[[int(cols[f][r]) for f in range(NF)] for r in range(len(u))], mean=mean, sd=sd)


def main(ck):
    rng = np.random.default_rng(ck.seed * 91)
    fine, any_ = [50, 100, 200, 40], [1, 2, 5, 10, 25, 100, 200]
    cfgs = [dict(rescale=rs, exclude=exc, libs=[library(rng, sds) for _ in range(n)], masked=m) for rs, exc, n, sds, m in
            [(False, True, 2, any_, True), (False, False, 3, any_, False), (True, True, 1, [200], True), (True, False, 3, fine, False), (True, False, 2, [200, 100], True), (True, True, 2, [1, 2, 5, 200], False)]]
    if ck.thorough:
        for _ in range(8):
            cfgs.append(dict(rescale=bool(rng.random() < 0.6), exclude=bool(rng.random() < 0.5), libs=[library(rng, fine) for _ in range(int(rng.integers(1, 5)))], masked=bool(rng.random() < 0.5)))
    npx = NCOL * NROW
    worlds, lines, index = [], [], []
    for ci, c in enumerate(cfgs):
        x = np.zeros((NF, npx), int)
        for p in range(npx):
            L = c['libs'][int(rng.integers(0, len(c['libs'])))]
            r = L['rows'][int(rng.integers(0, len(L['rows'])))]
            kind = p % 4
            x[:, p] = r if kind == 0 else np.array(r) + rng.integers(-60, 60, NF) if kind == 1 else [L['mean'][f] + L['sd'][f] * int(rng.integers(-3, 4)) + int(rng.integers(-20, 20)) for f in range(NF)] if kind == 2 else rng.integers(-1000, 9000, NF)
        ok = rng.random((NF, npx)) > 0.08
        ok[:, 5] = False
        x = np.where(ok, x, NODATA)
        mask = (rng.random(npx) > 0.1) if c['masked'] else np.ones(npx, bool)
        cube, m = Cube(ck.dir('cube'), NCOL, NROW), Cube(ck.dir('mask'), NCOL, NROW)
        sh = (NROW, NCOL)
        cube.image(0, 0, 'A.tif', x[:3].reshape(3, *sh).astype('int16'))
        cube.image(0, 0, 'B.tif', x[3:].reshape(1, *sh).astype('int16'))
        m.image(0, 0, 'M.tif', mask.reshape(1, *sh).astype('int16'))
        d = ck.dir('lib')
        for i, L in enumerate(c['libs']):
            open(f'{d}/lib{i}.txt', 'w').write(''.join(('\t' if i % 2 else ' ').join(str(v) for v in r) + '\n' for r in L['rows']))
        worlds.append(dict(cube=cube, mask=m.path, lib=d, x=x, ok=ok, inside=mask))
        for p in range(npx):
            index.append((ci, p))
            lines.append(json.dumps(dict(cfg=ci + 1, x=x[:, p].tolist(), ok=[bool(v) for v in ok[:, p]], masked=not bool(mask[p]))))
    d = ck.dir('cfg')
    open(d + '/c.ndjson', 'w').write(''.join(json.dumps(c) + '\n' for c in cfgs))
    open(d + '/p.ndjson', 'w').write('\n'.join(lines) + '\n')
    env = dict(CONFIGS=d + '/c.ndjson', PIXELS=d + '/p.ndjson')

    def run(ci, **kw):
        c, w = cfgs[ci], worlds[ci]
        over = dict(DIR_LIBRARY=w['lib'], FILE_LIBRARY=' '.join(f'lib{i}.txt' for i in range(len(c['libs']))), LIB_RESCALE='TRUE' if c['rescale'] else 'FALSE', FEATURE_EXCLUDE='TRUE' if c['exclude'] else 'FALSE',
                    RESOLUTION=10, CHUNK_SIZE=f'{NCOL * 10} {NROW * 10 if ci % 2 else NROW * 5}', NTHREAD_COMPUTE=3)
        if c['masked']:
            over.update(DIR_MASK=w['mask'], BASE_MASK='M.tif')
        return Run(ck, 'LIB', w['cube'].path, {**over, **kw}, features=['A.tif 1 2 3', 'B.tif 1'])

    ck.bdir
    with ThreadPoolExecutor(4) as ex:
        runs = [ex.submit(run, ci) for ci in range(len(cfgs))]
        r = ck.tlc('Library', spec='Spec', invariants=['Described', 'Member'], properties=['Ends'], env=env)
        for inv in ('NoMember', 'NothingSkipped'):
            ck.tlc('Library', spec='Spec', invariants=[inv], env=env, expect_violation=True)
        runs = [x.result() for x in runs]
    want = {index[c['px'] - 1]: c for c in r.cases}
    far = 0
    for ci, (c, w, x) in enumerate(zip(cfgs, worlds, runs)):
        what = f'{len(c["libs"])} libraries, rescale {c["rescale"]}, exclude {c["exclude"]}'
        if not ck.expect(x.rc == 0, 'exit', f'{what}: exit {x.rc}', x.log[-400:]):
            continue
        mae = x.product(0, 0, '_MAE')
        nl = len(c['libs'])
        if not ck.expect(mae is not None and mae.names == [f'lib{i}' for i in range(nl)] + ['LIBRARY-SUMMARY'], 'missing', f'{what}: product is missing or its bands are {mae and mae.names}'):
            continue
        flat = mae.data.reshape(nl + 1, -1)
        for p in range(npx):
            e = want[ci, p]
            got = flat[:, p].tolist()
            at = f'{what}: features {w["x"][:, p].tolist()}, libraries {[(L["mean"], L["sd"], len(L["rows"])) for L in c["libs"]]}'
            if e['skipped']:
                ck.expect(got == [NODATA] * (nl + 1), 'blank', f'{at}: {got} although the pixel is masked or features are missing')
                continue
            exp = [v / e['n'] * (1000 / 200 if c['rescale'] else 1) for v in e['found'] + [e['least']]]
            far += max(exp) > 32767
            # a distance that exceeds the value range is not reported, or as the largest value
            ck.expect(all(abs(a - b) <= 1 if b < 32766 else a in (NODATA, 32767) or (b < 32768 and a == 32766) for a, b in zip(got, exp)), 'distance', f'{at}: distances {got}, expected {exp}', e)
            ck.count(1)
    # libraries that do not fit the features are refused
    w = worlds[1]
    for bad in (0, 1):
        d = ck.dir('lib')
        for i in range(3):
            open(f'{d}/lib{i}.txt', 'w').write('1 2 3\n4 5 6\n' if i >= bad else '1 2 3 4\n5 6 7 8\n')
        nm = len(ck.missing)
        x = run(1, DIR_LIBRARY=d)
        del ck.missing[nm:]
        ck.expect(not [f for f in x.files() if f.endswith('.tif')], 'misfit', f'libraries with another number of features than given are used: {x.files()}')
    ck.trace(len(index))
    ck.notes['distances beyond the value range'] = far
    ck.sample(dict(r.cases[3]))
