"""H12: landscape metrics describe the patches within the kernel of each pixel."""
import json, math, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vf
from cube import Cube, Run

MET = ['UCI', 'MPA', 'FDI', 'EDD', 'NBR', 'AVG', 'GEO', 'STD', 'MAX', 'ARE']
RES = 10


def job(rng, id, w, h, nx, ny, missing, r, chunk, query, shape='SQUARE', small=1, all=False, exclude=False, masked=False, nodata=-9999, kind='any', threads=3):
    """query: list of (type, limit), one for each feature"""
    H, W = h * ny, w * nx
    imgs = []
    for q, limit in query:
        if kind == 'lines':
            a = np.where((np.add.outer(np.arange(H), np.arange(W)) % 4 == 0) | (rng.random((H, W)) < 0.1), limit, limit + 37)
        else:
            a = limit + rng.integers(-2, 3, (H, W)) * (1 if q == 'EQ' else int(rng.integers(1, 300)))
        a = np.where(rng.random((H, W)) < 0.05, nodata, a)
        if kind == 'sparse':    # most of the image without patches
            a[:, W // 2:] = limit + (5 if q in ('EQ', 'LT', 'LE') else -5)
        imgs.append(a)
    assert r <= min(chunk) and w % chunk[0] == 0 and h % chunk[1] == 0, id
    return dict(id=id, w=w, h=h, nx=nx, ny=ny, tiles=[[x, y] for y in range(ny) for x in range(nx) if (x, y) not in missing], imgs=imgs, query=query, r=r, chunk=chunk, shape=shape,
                min=small, all=all, exclude=exclude, mask=(rng.random((H, W)) < 0.8).astype(int) if masked else None, nodata=nodata, threads=threads)


def chunks(j):
    cw, ch = j['chunk']
    for x, y in j['tiles']:
        for a in range(j['h'] // ch):
            for b in range(j['w'] // cw):
                yield x, y, y * j['h'] + a * ch, x * j['w'] + b * cw


def run(ck, j):
    cube, masks = Cube(ck.dir('cube'), j['w'], j['h'], RES), Cube(ck.dir('mask'), j['w'], j['h'], RES)
    for x, y in j['tiles']:
        cut = lambda a: a[y * j['h']:(y + 1) * j['h'], x * j['w']:(x + 1) * j['w']]
        cube.image(x, y, 'FEAT.tif', np.stack([cut(a) for a in j['imgs']]), nodata=j['nodata'])
        if j['mask'] is not None:
            masks.image(x, y, 'M.tif', cut(j['mask']), nodata=255)
    over = dict(X_TILE_RANGE=f'0 {j["nx"] - 1}', Y_TILE_RANGE=f'0 {j["ny"] - 1}', CHUNK_SIZE=f'{j["chunk"][0] * RES} {j["chunk"][1] * RES}', RESOLUTION=RES, FEATURE_NODATA=j['nodata'],
                FEATURE_EXCLUDE='TRUE' if j['exclude'] else 'FALSE', LSM_RADIUS=j['r'] * RES, LSM_MIN_PATCHSIZE=j['min'], LSM_KERNEL_SHAPE=j['shape'], NTHREAD_COMPUTE=j['threads'],
                LSM_THRESHOLD_TYPE=' '.join(q for q, _ in j['query']), LSM_THRESHOLD=' '.join(str(v) for _, v in j['query']), LSM_ALL_PIXELS='TRUE' if j['all'] else 'FALSE', LSM=' '.join(MET))
    if j['mask'] is not None:
        over.update(DIR_MASK=masks.path, BASE_MASK='M.tif')
    return Run(ck, 'LSM', cube.path, over, features=['FEAT.tif ' + ' '.join(str(i + 1) for i in range(len(j['imgs'])))])


def exact(cell, r):
    """metric -> (lower, upper) bound of the admissible values of a cell with metrics"""
    K, v, n = (2 * r + 1) ** 2, cell['vals'], len(cell['vals'])
    A, E = cell['area'], cell['edge']
    out = {'ARE': n, 'NBR': len(A), 'EDD': sum(E) / math.sqrt(K) / math.sqrt(K) * 10000, 'MPA': sum(a * a for a in A) / sum(A) / K * 10000 if A else 0}
    if n:
        m = sum(v) / n
        out.update(AVG=m, MAX=max(v), STD=math.sqrt(sum((x - m) ** 2 for x in v) / (n - 1)) if n > 1 else 0)
        pos = [x for x in v if x > 0]
        if pos:
            out['GEO'] = math.exp(sum(math.log(x) for x in pos) / len(pos))
    elif not A:
        out.update(AVG=0)
    big = [(a, e) for a, e in zip(A, E) if a > 1]
    if big and all(e > 0 for _, e in big):
        s = sum(a for a, _ in big)
        out['FDI'] = sum(a * 2 * math.log(0.25 * e) / math.log(a) for a, e in big) / s * 10000
    elif not A:
        out['FDI'] = 0
    whole = ('ARE', 'NBR', 'MAX')
    return {m: (t, t) if m in whole else (t - abs(t) * 2e-6 - 1.0001, t + abs(t) * 2e-6 + 1e-4) if t >= 0 else (t - abs(t) * 2e-6 - 1e-4, t + abs(t) * 2e-6 + 1.0001) for m, t in out.items()}


def main(ck):
    rng = np.random.default_rng(ck.seed)
    ck.bdir
    jobs = [job(rng, 'square', 8, 8, 1, 1, (), 2, (8, 8), [('GT', 100), ('EQ', 300)]),
            job(rng, 'circle', 8, 6, 2, 2, (), 2, (4, 6), [('LE', 50), ('GE', 50)], shape='CIRCLE', small=3, exclude=True),
            job(rng, 'lines', 9, 9, 2, 1, (), 3, (9, 9), [('EQ', 10), ('LT', 20)], shape='CIRCLE', small=4, all=True, exclude=True, kind='lines'),
            job(rng, 'hole', 6, 6, 2, 2, {(1, 0)}, 2, (3, 3), [('LT', 0), ('GT', 0)], small=2, all=True),
            job(rng, 'masked', 8, 8, 2, 1, (), 1, (4, 2), [('GE', 700), ('LT', 700)], small=2, exclude=True, masked=True),
            job(rng, 'negative', 6, 6, 1, 2, (), 2, (6, 3), [('LT', -600), ('LE', -600)], exclude=True, kind='any'),
            job(rng, 'sparse', 12, 6, 1, 1, (), 1, (3, 3), [('EQ', 5), ('GT', 40)], small=2, all=True, exclude=True, kind='sparse'),
            job(rng, 'single', 5, 5, 1, 1, (), 0, (5, 5), [('EQ', 5)], exclude=True, nodata=-1)]
    for n in range(60 if ck.thorough else 6):
        w, h = int(rng.choice([4, 6, 8])), int(rng.choice([4, 6, 8]))
        r = int(rng.choice([1, 2, 3]))
        lay = [(a, b) for a in range(r, w + 1) for b in range(r, h + 1) if w % a == 0 and h % b == 0]
        q = [(str(rng.choice(['EQ', 'GT', 'GE', 'LT', 'LE'])), int(rng.integers(-900, 900))) for _ in range(2)]
        jobs.append(job(rng, f'any{n}', w, h, int(rng.integers(1, 3)), int(rng.integers(1, 3)), {(1, 1)}, r, lay[int(rng.integers(len(lay)))], q, shape=str(rng.choice(['SQUARE', 'CIRCLE'])),
                        small=int(rng.integers(1, 6)), all=bool(rng.random() < 0.5), exclude=bool(rng.random() < 0.7), masked=bool(rng.random() < 0.3), kind=str(rng.choice(['any', 'lines', 'sparse'])),
                        threads=int(rng.integers(1, 4))))
    fn = os.path.join(ck.dir('cfg'), 'jobs.ndjson')
    n = 0
    with open(fn, 'w') as f:
        for j in jobs:
            for b, a in enumerate(j['imgs']):
                for i, (x, y, y0, x0) in enumerate(chunks(j)):
                    n += 1
                    f.write(json.dumps(dict(id=[j['id'], b, i], w=j['w'], h=j['h'], tiles=j['tiles'], rows=a.tolist(), nodata=j['nodata'], r=j['r'], shape=j['shape'], query=j['query'][b][0],
                                            limit=j['query'][b][1], min=j['min'], all=j['all'], exclude=j['exclude'], mask=[] if j['mask'] is None else j['mask'].tolist(),
                                            y0=y0 + 1, x0=x0 + 1, ny=j['chunk'][1], nx=j['chunk'][0])) + '\n')
    with ThreadPoolExecutor(5) as ex:
        later = [ex.submit(run, ck, j) for j in jobs]
        res = ck.tlc('Landscape', spec='Spec', invariants=['OnePatch', 'LargeEnough'], env=dict(JOBS=fn))
        runs = [r.result() for r in later]
    want = {tuple(c['id']): c for c in res.cases}
    if len(want) != n:
        raise vf.CheckError('the specification did not evaluate every chunk')
    for j, r in zip(jobs, runs):
        what = f'{j["id"]}: radius {j["r"]}, {j["shape"]}, patches of {j["min"]}, chunks {j["chunk"]}'
        if not ck.expect(r.rc == 0, 'exit', f'{what}: exit {r.rc}', r.log[-300:]):
            continue
        ck.trace()
        for b, (q, limit) in enumerate(j['query']):
            for i, (x, y, y0, x0) in enumerate(chunks(j)):
                out = want[(j['id'], b, i)]
                ids = {}
                prods = {m: r.product(x, y, '_' + m) for m in MET}
                if not ck.expect(all(p is not None for p in prods.values()), 'missing', f'{what}: products missing for tile {x},{y}'):
                    break
                for row in range(j['chunk'][1]):
                    for col in range(j['chunk'][0]):
                        cell = out['cells'][row][col]
                        ty, tx = y0 - y * j['h'] + row, x0 - x * j['w'] + col
                        got = {m: int(p.data[b, ty, tx]) for m, p in prods.items()}
                        where = f'{what}: {q} {limit}, tile {x},{y} row {ty} col {tx}'
                        ck.count(len(MET))
                        if not cell:
                            if any(v != j['nodata'] for v in got.values()):
                                ck.violation('nodata', f'{where} should be nodata, is {got}')
                            continue
                        cell = cell[0]
                        for m, (lo, hi) in exact(cell, j['r']).items():
                            if not lo <= got[m] <= hi:
                                ck.violation(m, f'{where}: {m} is {got[m]}, expected {lo:.2f}..{hi:.2f}', dict(cell=cell, got=got))
                        if not (got['UCI'] > 0) == (cell['id'] > 0) or ids.setdefault(cell['id'], got['UCI']) != got['UCI']:
                            ck.violation('UCI', f'{where}: patch {got["UCI"]}, expected {ids.get(cell["id"])} (patch {cell["id"]})')
                ck.expect(len(set(ids.values())) == len(ids), 'UCI', f'{what}: {q} {limit}: two patches of tile {x},{y} share their number')
    ck.notes['windows'] = n
    ck.sample(dict(job='square', cell=want[('square', 0, 0)]['cells'][0][0]))
