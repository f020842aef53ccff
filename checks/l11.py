"""L11: reprojected images: every cell of the grid holds the pixel its centre lies in."""
import glob, json, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from osgeo import osr
import vf
from l1 import *
from cube import Raster, wkt_of

CRS = [32632, 3035, 32633, 3857, 31467]
DAY = '20180615'


def transform(a, b):
    s = []
    for e in (a, b):
        r = osr.SpatialReference()
        r.ImportFromEPSG(e)
        r.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        s.append(r)
    return osr.CoordinateTransformation(*s)


def make(rng, n):
    plane = n % 3 != 2
    smooth = n % 6 in (3, 4)
    grid = rng.choice([15, 20, 30] if smooth else [15, 20, 30, 45, 60]) if plane else rng.choice([20, 30, 45])
    j = dict(plane=plane, smooth=smooth, grid=grid, nx=rng.randint(18, 30), ny=rng.randint(18, 30), tile=(rng.choice([10, 16, 24]), rng.choice([10, 16, 24])), crs=32632 if plane else CRS[1 + (n // 3) % 4],
             shift=(rng.randrange(-9000, 9000), rng.randrange(-9000, 9000)), holes=[(rng.randint(5, 14), rng.randint(5, 14)) for _ in range(rng.choice([0, 0, 1, 2]))])
    if plane:
        # away from the edges of pixels: the centres of cells lie at multiples of a common divisor
        g = grid * 10
        step = {150: 150, 200: 100, 300: 300, 450: 150, 600: 300}[g]
        off = rng.choice([37, 61]) if step == 100 else rng.choice([37, 61, 118])
        j['shift'] = tuple((v // step) * step + (g // 2) % step + off for v in j['shift'])
    return j


def dns(rng, j):
    r = np.random.RandomState(rng.randrange(1 << 30))
    a = {b: v + r.randint(0, 160, (j['ny'], j['nx'])) for b, v in BASE.items()}
    for _ in range(rng.choice([0, 6, 20])):
        a['2'][r.randint(0, j['ny']), r.randint(0, j['nx'])] = SAT        # flagged pixels, to tell quality words apart
    for y, x in j['holes']:
        for b in a:
            a[b][y, x] = 0
    return a


def run(ck, k, j, a):
    ulx, uly = OX + j['shift'][0] / 10, OY - j['shift'][1] / 10
    whole = L2Cube(ck, 40, 40, DO_TILE='FALSE')
    rc, log = whole.process(a, ulx, uly)
    ref = {}
    for p in ('TOA', 'QAI'):
        f = glob.glob(f'{whole.out}/**/*_{p}.tif', recursive=True)
        ref[p] = Raster(f[0]).data.astype(int) if len(f) == 1 else None
    cube = L2Cube(ck, *j['tile'], DO_REPROJ='TRUE', RESAMPLING='BL' if j['smooth'] else 'NN', RESOLUTION_LANDSAT=j['grid'], TILE_SIZE=f"{j['tile'][0] * j['grid']} {j['tile'][1] * j['grid']}", PROJECTION=wkt_of(j['crs']))
    rc2, log2 = cube.process(a, ulx, uly)
    return (rc, log, ref), (rc2, log2, cube.tiles('TOA', DAY), cube.tiles('QAI', DAY))


def main(ck):
    jobs = [make(ck.rng, n) for n in range(90 if ck.thorough else 36)]
    data = [dns(ck.rng, j) for j in jobs]
    ck.bdir
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda a: run(ck, *a), [(k, j, a) for k, (j, a) in enumerate(zip(jobs, data))]))
    fn = ck.dir('jobs') + '/j.json'
    origin, window = [], []
    with open(fn, 'w') as f:
        for j, (w, _) in zip(jobs, res):
            if not ck.expect(w[0] == 0 and w[2]['TOA'] is not None and w[2]['QAI'] is not None and w[2]['QAI'].shape[1:] == (j['ny'], j['nx']), 'whole', f'image without reprojection and tiles: exit {w[0]}', w[1][-300:]):
                return
            ulx, uly = OX + j['shift'][0] / 10, OY - j['shift'][1] / 10
            ox, oy = transform(4326, j['crs']).TransformPoint(*ORIGIN)[:2]
            t = transform(32632, j['crs'])
            cx, cy = zip(*[t.TransformPoint(ulx + 30 * x, uly - 30 * y)[:2] for x in (0, j['nx']) for y in (0, j['ny'])])
            x0, x1 = int((min(cx) - ox) // j['grid']) - 4, int((max(cx) - ox) // j['grid']) + 4
            y0, y1 = int((oy - max(cy)) // j['grid']) - 4, int((oy - min(cy)) // j['grid']) + 4
            rec = dict(nx=j['nx'], ny=j['ny'], valid=(1 - (w[2]['QAI'][0] & 1)).tolist(), x0=x0, y0=y0, cols=x1 - x0 + 1, rows=y1 - y0 + 1, inplane=j['plane'], smooth=j['smooth'] and j['plane'],
                       plane=dict(res=300, ulx=j['shift'][0], uly=j['shift'][1], grid=j['grid'] * 10), slack=20 if j['plane'] else 140, given=[])
            if not j['plane']:
                b = transform(j['crs'], 32632)
                for r in range(y0, y1 + 1):
                    pts = b.TransformPoints([(ox + (c + .5) * j['grid'], oy - (r + .5) * j['grid']) for c in range(x0, x1 + 1)])
                    rec['given'].append([[int((p[0] - ulx) / 30 * 1000 // 1), int((uly - p[1]) / 30 * 1000 // 1)] for p in pts])
            window.append((x0, y0))
            origin.append((ox, oy))
            f.write(json.dumps(rec) + '\n')
    r = ck.tlc('Warp', spec='Spec', invariants=['Order'], properties=['Ends'], env=dict(JOBS=fn))
    ck.tlc('Warp', spec='Spec', invariants=['All'], env=dict(JOBS=fn), expect_violation=True)
    want = {c['i'] - 1: c['out'] for c in r.cases}
    seen = [0, 0, 0]
    for k, (j, (w, (rc, log, toa, qai))) in enumerate(zip(jobs, res)):
        what = f"image of {j['nx']} x {j['ny']} pixels at {j['shift'][0] / 10}, {j['shift'][1] / 10} m from the origin, grid of {j['grid']} m in EPSG:{j['crs']}" + (', bilinear' if j['smooth'] else '')
        ck.count(1)
        if not ck.expect(rc == 0, 'exit', f'{what}: exit {rc}', log[-300:]):
            continue
        ck.trace(1)
        tx, ty = j['tile']
        must, may = set(), set()
        refq, reft = w[2]['QAI'][0].ravel(), w[2]['TOA'].reshape(w[2]['TOA'].shape[0], -1)
        cells = {}
        for y, line in enumerate(want[k]):
            for x, c in enumerate(line):
                cells[(window[k][0] + x, window[k][1] + y)] = c
        for (gx, gy), c in cells.items():
            at = (gx // tx, gy // ty)
            if c['at'] >= 0:
                must.add(at)
            if c['at'] != -1 or j['smooth']:
                may.add(at)
        if not ck.expect(must <= set(toa) <= may and set(toa) == set(qai), 'tiles', f'{what}: tiles {sorted(toa)}, expected {sorted(must)}'):
            continue
        for at in toa:
            T, Q = toa[at], qai[at]
            if not ck.expect(T.data.shape[1:] == Q.data.shape[1:] == (ty, tx) and T.gt[1] == j['grid'] and abs(T.gt[0] - (origin[k][0] + at[0] * tx * j['grid'])) < 1e-2 and abs(T.gt[3] - (origin[k][1] - at[1] * ty * j['grid'])) < 1e-2,
                             'geometry', f'{what}: tile {at} is {T.data.shape[1:]} at {T.gt}'):
                continue
            td, qd = T.data.astype(int), Q.data[0].astype(int)
            for y in range(ty):
                for x in range(tx):
                    c = cells.get((at[0] * tx + x, at[1] * ty + y), dict(at=-1, four=[]))
                    if c['at'] == -2:
                        continue
                    where = f'{what}: tile {at}, cell ({x}, {y})'
                    if c['at'] == -1:
                        ck.expect(qd[y, x] & 1 and (j['smooth'] or (td[:, y, x] == -9999).all()), 'empty', f'{where} lies outside of the image or at a pixel without data, but holds {td[:, y, x].tolist()}, quality {qd[y, x]}')
                        continue
                    seen[0] += 1
                    ck.expect(qd[y, x] == refq[c['at']], 'quality', f"{where} should hold quality {refq[c['at']]} of pixel {c['at']}, but holds {qd[y, x]}")
                    if not j['smooth']:
                        seen[1] += 1
                        ck.expect((td[:, y, x] == reft[:, c['at']]).all(), 'value', f"{where} should hold pixel ({c['at'] % j['nx']}, {c['at'] // j['nx']}) with {reft[:, c['at']].tolist()}, but holds {td[:, y, x].tolist()}")
                    elif c['four']:
                        p, fx, fy = c['four']
                        seen[2] += 1
                        e = (reft[:, p] * (1000 - fx) + reft[:, p + 1] * fx) * (1000 - fy) + (reft[:, p + j['nx']] * (1000 - fx) + reft[:, p + j['nx'] + 1] * fx) * fy
                        four = reft[:, [p, p + 1, p + j['nx'], p + j['nx'] + 1]]
                        ck.expect((np.abs(td[:, y, x] - e / 1e6) <= 1.1 + 0.003 * (four.max(1) - four.min(1))).all(), 'bilinear', f"{where} should be {np.round(e / 1e6, 1).tolist()} between four pixels, but holds {td[:, y, x].tolist()}")
    if min(seen) < 300:
        raise vf.CheckError(f'too few of some kind: {seen}')
    ck.notes['cells'] = str(seen)
    ck.sample(jobs[0])
