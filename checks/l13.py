"""L13: terrain flags follow the elevation model and the sun."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vf
from osgeo import gdal
from l1 import *

HOLE = -32767
TIMES = [('2018-06-15', 10 + 5 / 60), ('2018-06-15', 5.0), ('2018-12-10', 9.5), ('2018-03-02', 14.25), ('2018-12-20', 13.5), ('2018-09-01', 7.75)]


def make(rng, n):
    ny, nx = rng.randint(10, 16), rng.randint(10, 16)
    z = np.zeros((ny, nx), int)
    yy, xx = np.mgrid[:ny, :nx]
    kind = n % 4
    if kind == 0:                   # planes of different slope and aspect
        k = rng.randint(5, nx - 5)
        for s in (np.s_[:, :k], np.s_[:, k:]):
            t, a = rng.choice([0.2, 0.5, 1, 5, 12, 20, 30, 45]), rng.uniform(0, 2 * math.pi)
            z[s] = np.round(500 + t * (xx * math.sin(a) + yy * math.cos(a)))[s]
    elif kind == 1:                 # rough
        z = np.array([[rng.randint(100, 100 + rng.choice([2, 10, 40])) for _ in range(nx)] for _ in range(ny)])
    elif kind == 2:                 # a mountain
        cy, cx, h = rng.uniform(3, ny - 3), rng.uniform(3, nx - 3), rng.choice([8, 25, 50])
        z = np.round(1200 - h * np.hypot(yy - cy, xx - cx)).astype(int)
    else:                           # coast: land next to sea level, no data beyond
        c = rng.randint(4, 7)
        z = np.maximum(0, (xx - c) * rng.choice([1, 3, 11]))
        sea = z == 0
        if n % 32 < 16:             # sea level only far from the land
            z[:, 1:][sea[:, 1:]] = HOLE
            if rng.random() < 0.5:
                z[rng.randrange(ny):, 0] = HOLE
        else:
            z[sea & (np.array([[rng.random() for _ in range(nx)] for _ in range(ny)]) < 0.75)] = HOLE
        z = np.ascontiguousarray(np.rot90(z, n // 4 % 4))
        ny, nx = z.shape
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 3)):
            z[rng.randrange(ny), rng.randrange(nx)] = HOLE
    gap = np.zeros((ny, nx), int)
    if rng.random() < 0.4:
        gap[4:6, 4:rng.randint(5, 8)] = 1
    date, hours = TIMES[(n // 4 + n) % len(TIMES)]
    return dict(dem=z, gap=gap, date=date, hours=hours, threads=rng.choice([1, 4]), kind=['planes', 'rough', 'mountain', 'coast'][kind])


def run(ck, j):
    ny, nx = j['dem'].shape
    c = L2Cube(ck, 20, 20, NTHREAD=j['threads'], DEM_RESAMPLING='NN', DEM_NODATA=HOLE, FILE_DEM='x')
    ulx, uly = ul_of(0, 0)
    fn = c.top + '/dem.tif'
    d = gdal.GetDriverByName('GTiff').Create(fn, nx, ny, 1, gdal.GDT_Int16)
    d.SetGeoTransform([ulx, RES, 0, uly, 0, -RES])
    d.SetProjection(WKT32)
    d.GetRasterBand(1).SetNoDataValue(HOLE)
    d.GetRasterBand(1).WriteArray(j['dem'].astype('int16'))
    d = None
    c.prm['FILE_DEM'] = fn
    a = {b: np.full((ny, nx), v) for b, v in BASE.items()}
    for b in a:
        a[b][j['gap'] == 1] = 0
    h, m = int(j['hours']), round(j['hours'] % 1 * 60)
    rc, log = c.process(a, ulx, uly, date=j['date'], time=f'{h:02d}:{m:02d}:00.0000000Z')
    return rc, log, c.tiles('QAI', j['date'].replace('-', ''))


def main(ck):
    jobs = [make(ck.rng, n) for n in range(96 if ck.thorough else 28)]
    ck.bdir
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: run(ck, j), jobs))
    fn = ck.dir('jobs') + '/j.json'
    open(fn, 'w').write(''.join(json.dumps(dict(dem=j['dem'].tolist(), hole=HOLE, gap=j['gap'].tolist(), sun=[round(1000 * v) for v in to_sun(j['date'], j['hours'])])) + '\n' for j in jobs))
    r = ck.tlc('Terrain', spec='Spec', constants=dict(Cell=30), invariants=['LandKept', 'Flat'], properties=['Ends'], env=dict(JOBS=fn))
    for v in ('NoSea', 'NoShadow'):
        ck.tlc('Terrain', spec='Spec', constants=dict(Cell=30), invariants=[v], env=dict(JOBS=fn), expect_violation=True)
    want = {c['i'] - 1: np.array(c['out']) for c in r.cases}
    seen = {}
    for k, (j, (rc, log, tiles)) in enumerate(zip(jobs, res)):
        ck.count(1)
        ck.trace(1)
        e = want[k]
        ny, nx = j['dem'].shape
        what = f"{j['kind']}, {j['date']} at {j['hours']:.2f} h"
        if (e[:, :, 0] == 1).all():
            continue
        if not ck.expect(rc == 0 and (0, 0) in tiles, 'exit', f'{what}: exit {rc}, tiles {sorted(tiles)}', log[-300:]):
            continue
        q = tiles[(0, 0)].data[0].astype(int)[:ny, :nx]
        off, ill, slp = q & 1, q >> 11 & 3, q >> 13 & 1
        bad = off != e[:, :, 0]
        if bad.any():
            y, x = np.argwhere(bad)[0]
            ck.violation('data', f"{what}: pixel ({x}, {y}) has {'no ' if off[y, x] else ''}data, heights are {j['dem'][max(0, y - 1):y + 2, max(0, x - 1):x + 2].tolist()}")
            continue
        on = off == 0
        sure = on.copy()
        for t in (0, 173.6, 573.6):
            sure &= np.abs(e[:, :, 3] - t) > 12
        bad = sure & (ill != e[:, :, 1])
        for v in np.unique(e[:, :, 1][sure]):
            seen[int(v)] = seen.get(int(v), 0) + 1
        if bad.any():
            y, x = np.argwhere(bad)[0]
            ck.violation('illumination', f'{what}: pixel ({x}, {y}) has illumination {ill[y, x]} instead of {e[y, x, 1]} (cosine {e[y, x, 3] / 1000})')
        inner = np.zeros((ny, nx), bool)
        inner[1:-1, 1:-1] = True
        bad = on & inner & (np.abs(e[:, :, 4] - 70) > 2) & (slp != e[:, :, 2])
        if bad.any():
            y, x = np.argwhere(bad)[0]
            ck.violation('slope', f'{what}: pixel ({x}, {y}) is {"" if slp[y, x] else "not "}flagged as slope, heights are {j["dem"][y - 1:y + 2, x - 1:x + 2].tolist()}')
    ck.notes['classes'] = str(seen)
    if len(seen) < 4:
        raise vf.CheckError(f'not all classes of illumination occur: {seen}')
    ck.sample(dict(kind=jobs[0]['kind'], dem=jobs[0]['dem'].tolist()))
