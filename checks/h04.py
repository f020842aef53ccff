"""H04: masked-out pixels are nodata and influence nothing."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import cube
from mods import World, content, NCOL, NROW, RES

FOCAL = ('LSM', 'TXT', 'CFI')        # values of unmasked pixels may depend on masked neighbours


def grids(ck):
    """all combinations of chunk patterns, one tile each, in one run"""
    fn = os.path.join(ck.dir('m'), 'none.ndjson')
    open(fn, 'w').write(json.dumps(dict(cols=1, rows=1, cw=1, ch=1, mask=[])) + '\n')
    cases = ck.tlc('Mask', spec='Spec', constants=dict(Exhaust=True), invariants=['Exactly', 'NoFile'], properties=['Monotone'], env=dict(MASKS=fn)).cases
    assert len(cases) == 256
    cases.sort(key=lambda c: c['job']['mask'])
    if not ck.thorough:
        cases = ck.rng.sample(cases, 80)
    C = cube.Cube(ck.dir('cube'), 4, 4)
    M = cube.Cube(ck.dir('mask'), 4, 4)
    rng = np.random.RandomState(ck.seed)
    vals = {}
    for i, c in enumerate(cases):
        x, y = i % 16, i // 16
        v = vals[(x, y)] = rng.randint(1, 9000, (4, 4)).astype('int16')
        C.ard(x, y, '20180504', 'LND08', np.stack([v] * 6))
        if i % 29 != 7:               # some tiles have no mask
            M.image(x, y, 'mask.tif', np.array(c['job']['mask'], 'uint8').reshape(4, 4), nodata=255, dtype=1)
    run = cube.Run(ck, 'TSA', C.path, dict(SENSORS='LND08', DATE_RANGE='2018-01-01 2018-12-31', INDEX='RED', OUTPUT_TSS='TRUE', OUTPUT_STM='TRUE', STM='AVG NUM', DIR_MASK=M.path, BASE_MASK='mask.tif',
                                           X_TILE_RANGE='0 15', Y_TILE_RANGE='0 15', CHUNK_SIZE='20 20'), timeout=300)
    ck.expect(run.rc == 0, 'exit', f'exit {run.rc}', run.log[-400:])
    files = set(run.files())
    for i, c in enumerate(cases):
        x, y = i % 16, i // 16
        mask = np.array(c['job']['mask']).reshape(4, 4)
        want = np.array(c['file']).reshape(4, 4) if c['file'] and i % 29 != 7 else None
        d = os.path.join(run.out, cube.tile_name(x, y))
        for prod in ('TSS', 'STM'):
            hit = [f for f in files if f.startswith(d + '/') and f.endswith(f'_{prod}.tif')]
            what = f'mask {mask.tolist()}{" (no mask file)" if i % 29 == 7 else ""}'
            if want is None:
                ck.expect(not hit, 'written', f'{what}: product although no pixel is to be processed')
                continue
            if not ck.expect(len(hit) == 1, 'missing', f'{what}: product {prod} missing'):
                continue
            r = cube.Raster(hit[0])
            exp = [np.where(want == 1, vals[(x, y)], -9999)] + ([np.where(want == 1, 1, -9999)] if prod == 'STM' else [])
            ck.expect(r.nb == len(exp) and all((a == b).all() for a, b in zip(r.data, exp)), f'value:{prod}', f'{what}: {prod} is {r.data.tolist()}, expected {[e.tolist() for e in exp]}')
            ck.count(16)
    ck.trace(len(cases))


def modules(ck):
    rng = ck.rng
    W = World(ck, seed=ck.seed)
    R = W.runs()
    del R['L2I']
    layouts = [(1, 1), (2, 2), (4, 1), (1, 3), (2, 3)]
    kinds = []
    for k, (c, r) in enumerate(layouts):
        ms = {}
        for t in W.tiles:
            m = np.random.RandomState(ck.seed * 10 + k + 100 * t[0]).choice([0, 1, 1, 1, 2, 255], size=(NROW, NCOL)).astype('uint8')
            if t == W.tiles[0]:
                m[:NROW // r, :NCOL // c] = 0 if c * r > 1 else m[:NROW // r, :NCOL // c]
            if k == 1:
                m[:, :NCOL // 2] = 1 if t == W.tiles[0] else 0
            ms[t] = m
        kinds.append((c, r, ms))
    fn = os.path.join(ck.dir('m'), 'jobs.ndjson')
    with open(fn, 'w') as f:
        for c, r, ms in kinds:
            for t in W.tiles:
                f.write(json.dumps(dict(cols=c, rows=r, cw=NCOL // c, ch=NROW // r, mask=ms[t].reshape(-1).tolist())) + '\n')
    cases = ck.tlc('Mask', spec='Spec', constants=dict(Exhaust=False), invariants=['Exactly', 'NoFile'], env=dict(MASKS=fn)).cases
    exp = {(c['job']['cols'], c['job']['rows'], tuple(c['job']['mask'])): c['file'] for c in cases}
    dirs = []
    for c, r, ms in kinds:
        M = cube.Cube(ck.dir('mask'), NCOL, NROW)
        for t in W.tiles:
            M.image(*t, 'm.tif', ms[t], nodata=255, dtype=1)
        dirs.append(M.path)
    work = []
    for n, s in R.items():
        work.append((n, s, None))
        for k in (range(len(kinds)) if ck.thorough else rng.sample(range(len(kinds)), 1 if n.startswith('TSA') else 2)):
            work.append((n, s, k))

    def go(a):
        n, s, k = a
        over = {}
        if k is not None:
            c, r, _ = kinds[k]
            over = dict(DIR_MASK=dirs[k], BASE_MASK='m.tif', CHUNK_SIZE=f'{NCOL * RES // c} {NROW * RES // r}')
        run = W.run(s, over)
        return run.rc, content(run), run.log[-400:]
    with ThreadPoolExecutor(7) as ex:
        res = list(ex.map(go, work))
    ref = {a[0]: r for a, r in zip(work, res) if a[2] is None}
    for (n, s, k), (rc, got, log) in zip(work, res):
        if not ck.expect(rc == 0, f'run:{n}', f'{n}: exit {rc}', log) or k is None:
            continue
        c, r, ms = kinds[k]
        full = ref[n][1]
        what = f'{n} with mask, {c} x {r} chunks'
        ck.expect(set(got) == set(full), f'files:{n}', f'{what}: files differ: {sorted(set(got) ^ set(full))[:3]}')
        ck.trace(1)
        for f in sorted(set(got) & set(full)):
            if isinstance(full[f], str):
                continue
            A, B = full[f], got[f]
            t = [t for t in W.tiles if f.startswith(cube.tile_name(*t))][0]
            sel = np.array(exp[(c, r, tuple(ms[t].reshape(-1).tolist()))]).reshape(NROW, NCOL) == 1
            if B['data'].shape != A['data'].shape:
                ck.violation(f'shape:{n}', f'{what}: {f} has another size')
                continue
            bad = [int((B['data'][b][~sel] != A['nodata'][b]).sum()) for b in range(len(A['data']))]
            if any(bad):
                b = int(np.argmax(bad))
                ck.violation(f'masked:{n}', f'{what}: {f} band {b + 1}: {bad[b]} masked pixels hold a value, e.g. {B["data"][b][~sel][B["data"][b][~sel] != A["nodata"][b]][0]}')
            if n not in FOCAL:
                d = (A['data'] != B['data']) & sel
                if d.any():
                    b, i, j = (int(v) for v in np.argwhere(d)[0])
                    ck.violation(f'unmasked:{n}', f'{what}: {f} band {b + 1}: {int(d.sum())} unmasked pixels differ from the run without mask, e.g. row {i} column {j}: {A["data"][b, i, j]} -> {B["data"][b, i, j]}')
            ck.count(A['data'].size)


def main(ck):
    ck.bdir
    grids(ck)
    modules(ck)
    ck.sample('all 256 combinations of four chunk patterns; every higher-level module with and without mask')
