"""L07: products are clipped to the area of interest."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from osgeo import ogr, osr
import vf
from l1 import *
import level2

osr.UseExceptions()
ogr.UseExceptions()
N = 24


def box(x0, y0, x1, y1):
    return [[x0, y0], [x1, y0], [x1, y1], [x0, y1]]


def make(rng, n):
    fs = []
    kind = ['boxes', 'triangle', 'hole', 'boxes', 'all', 'none', 'triangle'][n % 7]
    odd = lambda a, b: rng.randrange(a, b) * 10 + rng.choice([2, 8, 0])
    if kind == 'boxes':
        for _ in range(rng.choice([1, 2, 3])):
            x, y = odd(-3, 18), odd(-3, 18)
            fs.append([box(x, y, x + odd(2, 12), y + odd(2, 12))])
    elif kind == 'triangle':
        fs.append([[[odd(0, 6), odd(0, 8)], [odd(14, 26), odd(0, 12)], [odd(4, 20), odd(16, 25)]]])
        if rng.random() < 0.5:
            x = odd(2, 20)
            fs.append([box(x, 12, x + 33, 78)])
    elif kind == 'hole':
        x, y = odd(0, 4), odd(0, 4)
        fs.append([box(x, y, x + 180, y + 170), box(x + 42, y + 31, x + 108, y + 122)])
    elif kind == 'all':
        fs.append([box(-1000, -1000, 2000, 2000)])
    else:
        fs.append([box(1000, 1000, 1200, 1200)])
    return dict(rows=N, cols=N, features=fs, srs=[32632, 4326, 3035, 32632][n % 4] if kind != 'triangle' else rng.choice([32632, 4326]), fmt=['GPKG', 'ESRI Shapefile', 'GeoJSON'][n % 3], gx=rng.randrange(-20, 5), gy=rng.randrange(-20, 5),
                off=[[rng.randrange(3, N - 3), rng.randrange(3, N - 3)] for _ in range(4)])


def vector(fn, j, ulx, uly):
    if j['fmt'] == 'GeoJSON' and j['srs'] != 4326:
        j['fmt'] = 'GPKG'
    a, b = osr.SpatialReference(), osr.SpatialReference()
    a.ImportFromEPSG(EPSG)
    b.ImportFromEPSG(j['srs'])
    for s in (a, b):
        s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    tr = osr.CoordinateTransformation(a, b) if j['srs'] != EPSG else None
    fn += dict(GPKG='.gpkg', GeoJSON='.geojson').get(j['fmt'], '.shp')
    ds = ogr.GetDriverByName(j['fmt']).CreateDataSource(fn)
    lay = ds.CreateLayer('aoi', b, ogr.wkbPolygon)
    for rings in j['features']:
        g = ogr.Geometry(ogr.wkbPolygon)
        for r in rings:
            o = ogr.Geometry(ogr.wkbLinearRing)
            # edges as many short ones, so that they stay straight in another projection
            for k in range(len(r)):
                (x0, y0), (x1, y1) = r[k], r[(k + 1) % len(r)]
                m = 1 if tr is None else 40
                for t in range(m):
                    x, y = x0 + (x1 - x0) * t / m, y0 + (y1 - y0) * t / m
                    mx, my = ulx + x * RES / 10, uly - y * RES / 10
                    if tr is not None:
                        mx, my, _ = tr.TransformPoint(mx, my)
                    o.AddPoint_2D(mx, my)
            o.CloseRings()
            g.AddGeometry(o)
        f = ogr.Feature(lay.GetLayerDefn())
        f.SetGeometry(g)
        lay.CreateFeature(f)
    ds = None
    return fn


def run(ck, k, j):
    cube = L2Cube(ck, 10, 10)
    ulx, uly = ul_of(j['gx'], j['gy'])
    words = np.zeros((N, N), int)
    for r, c in j['off']:
        words[r, c] = 1
    cube.prm['FILE_AOI'] = vector(cube.top + '/aoi', j, ulx, uly)
    rc, log = cube.process(level2.dns(words, 1), ulx, uly)
    q = np.full((N, N), 1)
    t = np.full((6, N, N), -9999)
    Q, T = cube.tiles('QAI'), cube.tiles('TOA')
    for xy in set(Q) & set(T):
        x0, y0 = xy[0] * 10 - j['gx'], xy[1] * 10 - j['gy']
        r0, r1, c0, c1 = max(0, y0), min(N, y0 + 10), max(0, x0), min(N, x0 + 10)
        if r1 > r0 and c1 > c0:
            q[r0:r1, c0:c1] = Q[xy].data[0, r0 - y0:r1 - y0, c0 - x0:c1 - x0]
            t[:, r0:r1, c0:c1] = T[xy].data[:, r0 - y0:r1 - y0, c0 - x0:c1 - x0]
    return rc, log, q, t, set(Q), set(T)


def main(ck):
    jobs = [make(ck.rng, n) for n in range(112 if ck.thorough else 56)]
    fn = ck.dir('jobs') + '/j.json'
    with open(fn, 'w') as f:
        for j in jobs:
            f.write(json.dumps({k: j[k] for k in ('rows', 'cols', 'features')}) + '\n')
    r = ck.tlc('Aoi', spec='Spec', invariants=['Inside'], properties=['Grows', 'Ends'], env=dict(JOBS=fn))
    ck.tlc('Aoi', spec='Spec', invariants=['Whole'], env=dict(JOBS=fn), expect_violation=True)
    want = {c['i'] - 1: c for c in r.cases}
    ck.bdir
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda a: run(ck, *a), enumerate(jobs)))
    for k, (j, (rc, log, q, t, Q, T)) in enumerate(zip(jobs, res)):
        what = f"area {j['features']}, EPSG:{j['srs']}, {j['fmt']}"
        keep = np.zeros((N, N), bool)
        for p in want[k]['kept']:
            keep[p[0], p[1]] = True
        sure = np.ones((N, N), bool)
        for p in want[k]['unsure']:
            sure[p[0], p[1]] = False
            keep[p[0], p[1]] = not q[p[0], p[1]] & 1
        for rr, c in j['off']:
            keep[rr, c] = False
        if not ck.expect(rc == 0, 'exit', f'{what}: exit {rc}', log[-300:]):
            continue
        ck.trace(1)
        ck.count(int(sure.sum()))
        bad = np.argwhere(((q & 1) == 0) != keep)
        if len(bad):
            ck.violation('clip', f"{what}: {len(bad)} pixels differ, such as row {bad[0][0]} column {bad[0][1]}, which is {'kept' if not q[tuple(bad[0])] & 1 else 'dropped'}", dict(job=j, got=(q & 1).tolist()))
            continue
        ck.expect((t[:, ~keep] == -9999).all() and (t[:, keep] != -9999).all(), 'values', f'{what}: reflectance and quality disagree about the area')
        tiles = {((j['gx'] + int(c)) // 10, (j['gy'] + int(r)) // 10) for r, c in np.argwhere(keep)}
        ck.expect(Q == tiles and T == tiles, 'tiles', f'{what}: tiles {sorted(Q)}, expected {sorted(tiles)}')
    ck.sample(dict(features=jobs[0]['features']))
