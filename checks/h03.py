"""H03: textures are grey-scale morphology in the seamless mosaic."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vf
from cube import Cube, Run, write_raster, tile_name

OPS = ['ERO', 'DIL', 'OPN', 'CLS', 'GRD', 'THT', 'BHT']
RES = 10


def picture(rng, ny, nx, kind, nodata):
    if kind == 'flat':          # few levels: plateaus, ties
        a = rng.integers(0, 3, (ny, nx)) * 100
    elif kind == 'peaks':       # isolated maxima and minima
        a = np.full((ny, nx), 500)
        for _ in range(ny * nx // 9):
            a[rng.integers(ny), rng.integers(nx)] = rng.integers(-2000, 5000)
    else:
        a = rng.integers(-3000, 9000, (ny, nx))
    if kind != 'peaks':
        a = np.where(rng.random((ny, nx)) < 0.04, nodata, a)
    return a


def job(rng, id, w, h, nx, ny, missing, r, it, chunks, ops=OPS, exclude=False, masked=False, nodata=-9999, kind='any'):
    tiles = [[x, y] for y in range(ny) for x in range(nx) if (x, y) not in missing]
    imgs = [picture(rng, h * ny, w * nx, k, nodata) for k in (kind, 'peaks')]
    mask = (rng.random((h * ny, w * nx)) < 0.7).astype(int) if masked else None
    halo = r * it * (2 if set(ops) & {'OPN', 'CLS', 'THT', 'BHT'} else 1)
    for c in chunks:
        assert halo <= min(c) and w % c[0] == 0 and h % c[1] == 0, (id, halo, c)
    return dict(id=id, w=w, h=h, nx=nx, ny=ny, tiles=tiles, imgs=imgs, r=r, it=it, chunks=chunks, ops=ops, exclude=exclude, mask=mask, nodata=nodata)


def prepare(ck, j):
    cube = Cube(ck.dir('cube'), j['w'], j['h'], RES)
    masks = Cube(ck.dir('mask'), j['w'], j['h'], RES)
    for x, y in j['tiles']:
        cut = lambda a: a[y * j['h']:(y + 1) * j['h'], x * j['w']:(x + 1) * j['w']]
        cube.image(x, y, 'FEAT.tif', np.stack([cut(a) for a in j['imgs']]), nodata=j['nodata'])
        if j['mask'] is not None:
            masks.image(x, y, 'M.tif', cut(j['mask']), nodata=255)
    return cube.path, masks.path


def run(ck, j, dirs, chunk, threads):
    over = dict(X_TILE_RANGE=f'0 {j["nx"] - 1}', Y_TILE_RANGE=f'0 {j["ny"] - 1}', CHUNK_SIZE=f'{chunk[0] * RES} {chunk[1] * RES}', RESOLUTION=RES, FEATURE_NODATA=j['nodata'],
                FEATURE_EXCLUDE='TRUE' if j['exclude'] else 'FALSE', TXT_RADIUS=j['r'] * RES, TXT_ITERATION=j['it'], TXT=' '.join(j['ops']), NTHREAD_COMPUTE=threads,
                STREAMING='TRUE' if threads > 1 else 'FALSE')
    if j['mask'] is not None:
        over.update(DIR_MASK=dirs[1], BASE_MASK='M.tif')
    return Run(ck, 'TXT', dirs[0], over, features=['FEAT.tif 1 2'])


def main(ck):
    rng = np.random.default_rng(ck.seed)
    ck.bdir
    e, g = ['ERO', 'DIL', 'GRD'], OPS
    jobs = [job(rng, 'single', 12, 10, 1, 1, (), 1, 1, [(12, 10), (4, 5), (12, 2)], kind='flat'),
            job(rng, 'four', 8, 6, 2, 2, (), 1, 1, [(8, 6), (4, 3), (2, 6)]),
            job(rng, 'hole', 8, 6, 3, 2, {(1, 0)}, 1, 2, [(8, 6), (4, 6)], kind='flat'),
            job(rng, 'corner', 8, 8, 2, 2, {(1, 1)}, 2, 1, [(8, 8), (4, 4)], exclude=True),
            job(rng, 'wide', 12, 12, 2, 1, (), 3, 1, [(12, 12), (6, 6)], masked=True),
            job(rng, 'simple', 8, 8, 2, 2, {(0, 1)}, 2, 2, [(8, 8), (4, 4)], ops=e, nodata=-500),
            job(rng, 'narrow', 6, 6, 2, 3, (), 1, 1, [(3, 2), (2, 3), (6, 6)], ops=['THT', 'ERO'], exclude=True, masked=True, kind='flat'),
            job(rng, 'none', 6, 4, 2, 1, (), 0, 1, [(6, 4), (3, 2)])]
    for n in range(40 if ck.thorough else 4):
        w, h = int(rng.choice([4, 6, 8, 12])), int(rng.choice([4, 6, 8]))
        r, it = int(rng.choice([1, 1, 2])), int(rng.choice([1, 1, 2]))
        ops = [o for o in OPS if rng.random() < 0.6] or ['BHT']
        halo = r * it * (2 if set(ops) & {'OPN', 'CLS', 'THT', 'BHT'} else 1)
        chunks = [(a, b) for a in range(1, w + 1) for b in range(1, h + 1) if w % a == 0 and h % b == 0 and min(a, b) >= halo]
        if not chunks:
            continue
        nx, ny = int(rng.integers(1, 4)), int(rng.integers(1, 3))
        jobs.append(job(rng, f'any{n}', w, h, nx, ny, {(int(rng.integers(3)), 1)}, r, it, [chunks[i] for i in rng.permutation(len(chunks))[:2]], ops=ops,
                        exclude=bool(rng.random() < 0.3), masked=bool(rng.random() < 0.3), nodata=int(rng.choice([-9999, -9999, 0])), kind=str(rng.choice(['any', 'flat']))))
    fn = os.path.join(ck.dir('cfg'), 'jobs.ndjson')
    with open(fn, 'w') as f:
        for j in jobs:
            for b, a in enumerate(j['imgs']):
                f.write(json.dumps(dict(id=[j['id'], b], w=j['w'], h=j['h'], tiles=j['tiles'], rows=a.tolist(), nodata=j['nodata'], r=j['r'], it=j['it'], exclude=j['exclude'],
                                        mask=[] if j['mask'] is None else j['mask'].tolist())) + '\n')
    res = ck.tlc('Texture', spec='Spec', invariants=['Ordered', 'RoundKernel'], env=dict(JOBS=fn))
    want = {(c['id'][0], c['id'][1]): c['out'] for c in res.cases}
    if len(want) != 2 * len(jobs):
        raise vf.CheckError('the specification did not evaluate every job')
    dirs = {j['id']: prepare(ck, j) for j in jobs}
    work = [(j, c, (1, 3)[n % 2]) for j in jobs for n, c in enumerate(j['chunks'])]
    with ThreadPoolExecutor(6) as ex:
        runs = list(ex.map(lambda a: run(ck, a[0], dirs[a[0]['id']], a[1], a[2]), work))
    for (j, chunk, thr), r in zip(work, runs):
        what = f'{j["id"]}: radius {j["r"]}, {j["it"]} iterations, chunks {chunk}'
        if not ck.expect(r.rc == 0, 'exit', f'{what}: exit {r.rc}', r.log[-300:]):
            continue
        ck.trace()
        for x, y in j['tiles']:
            for op in OPS:
                R = r.product(x, y, '_' + op)
                if op not in j['ops']:
                    ck.expect(R is None, 'extra', f'{what}: {op} was not requested')
                    continue
                if not ck.expect(R is not None, 'missing', f'{what}: no {op} for tile {x},{y}'):
                    continue
                ck.expect(R.names == ['FEAT_B0001', 'FEAT_B0002'], 'bands', f'{what}: bands {R.names}')
                for b in range(2):
                    exp = np.array(want[(j['id'], b)][op])[y * j['h']:(y + 1) * j['h'], x * j['w']:(x + 1) * j['w']]
                    # chunks without any pixel to process are not computed: nodata there as well
                    bad = np.argwhere(R.data[b] != exp)
                    ck.count(exp.size)
                    if len(bad):
                        i, c = bad[0]
                        ck.violation(op, f'{what}: {op} of feature {b + 1}, tile {x},{y} row {i} col {c} is {R.data[b][i, c]}, expected {exp[i, c]} ({len(bad)} differ)',
                                     dict(got=R.data[b].tolist(), want=exp.tolist()))
    ck.notes['runs'] = len(work)
    ck.sample(dict(job=jobs[1]['id'], ero=want[('four', 0)]['ERO'][:2]))
