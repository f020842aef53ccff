"""C02: all programs agree on the tiling grid."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from osgeo import gdal, ogr, osr
import cube, vf


def srs_of(wkt):
    s = osr.SpatialReference()
    s.ImportFromWkt(wkt)
    s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    return s


GEO = srs_of(cube.wkt_of(4326))


class World:
    """a grid in map units; the specification counts in units of 1/q map units"""

    def __init__(self, ck, name, wkt, q, ox, oy, tw, th, res, deprecated=False):
        self.ck, self.name, self.q, self.wkt = ck, name, q, wkt
        self.g = dict(ox=ox, oy=oy, tw=tw, th=th, res=res)
        self.dir = ck.dir('g-' + name)
        v = dict(X=ox / q, Y=oy / q, W=tw / q, H=th / q)
        with open(self.dir + '/datacube-definition.prj', 'w') as f:
            if deprecated:
                assert tw == th
                f.write(f"{wkt}\n1.000000\n2.000000\n{v['X']:f}\n{v['Y']:f}\n{v['W']:f}\n{v['W'] / 10:f}\n")
            else:
                f.write(f"PROJECTION = {wkt}\nORIGIN_GEO_X = 1.000000\nORIGIN_GEO_Y = 2.000000\nORIGIN_MAP_X = {v['X']:f}\n"
                        f"ORIGIN_MAP_Y = {v['Y']:f}\nTILE_SIZE_X = {v['W']:f}\nTILE_SIZE_Y = {v['H']:f}\n")
        self.srs = srs_of(wkt)
        self.togeo = osr.CoordinateTransformation(self.srs, GEO)
        self.tomap = osr.CoordinateTransformation(GEO, self.srs)

    def lonlat(self, p):
        return self.togeo.TransformPoint(p[0] / self.q, p[1] / self.q)[:2]


def points(rng, g, n):
    """points strictly inside pixels, around the origin, near and far from borders"""
    out, seen = [], set()
    ncol, nrow, r = g['tw'] // g['res'], g['th'] // g['res'], g['res']
    while len(out) < n:
        tx, ty = rng.randrange(-3, 4), rng.randrange(-3, 4)
        col = rng.choice([0, ncol - 1, rng.randrange(ncol)])
        row = rng.choice([0, nrow - 1, rng.randrange(nrow)])
        if (tx, ty, col, row) in seen:
            continue
        seen.add((tx, ty, col, row))
        near = max(1, r // 8)
        dx, dy = rng.choice([near, r - near, r // 2]), rng.choice([near, r - near, r // 2])
        out.append((g['ox'] + tx * g['tw'] + col * r + dx, g['oy'] - ty * g['th'] - row * r - dy))
    return out


def boxes(rng, g, n):
    out = []
    for _ in range(n):
        def at(t, off, org, sgn, size):
            return org + sgn * (t * size + off)
        x = sorted((rng.randrange(-3, 4), rng.randrange(-3, 4)))
        y = sorted((rng.randrange(-3, 4), rng.randrange(-3, 4)))
        o = [rng.choice([1, s - 1, s // 2 + 1]) for s in (g['tw'], g['tw'], g['th'], g['th'])]
        l, r = at(x[0], o[0], g['ox'], 1, g['tw']), at(x[1], o[1], g['ox'], 1, g['tw'])
        t, b = at(y[0], o[2], g['oy'], -1, g['th']), at(y[1], o[3], g['oy'], -1, g['th'])
        if l >= r or b >= t:
            continue
        out.append((l, b, r, t))
    return out


def finder(w, k, p, e):
    lon, lat = w.lonlat(p)
    rc, log = w.ck.run([w.ck.bin + '/force-tile-finder', '-p', f'{lon:.12f},{lat:.12f}', '-r', repr(w.g['res'] / w.q), w.dir])
    m = re.search(r'X(-?\d+)_Y(-?\d+)\s+at pixel J/I\s+(-?\d+)/(-?\d+)', log)
    name = re.search(r'X\S+_Y\S+', log)
    got = (list(map(int, m.groups())) if m else None, name.group(0) if name else None)
    want = e['tile'] + e['pixel']
    return ('finder', p, rc == 0 and got[0] == want and got[1] == cube.tile_name(*e['tile']), want, got if rc == 0 else log[-300:])


def sampler(w, pts, exp, projected):
    ck, g = w.ck, w.g
    ncol, nrow = g['tw'] // g['res'], g['th'] // g['res']
    lower = ck.dir(f's-{w.name}-{projected}')
    os.system(f"cp '{w.dir}/datacube-definition.prj' '{lower}/'")
    tiles = sorted({tuple(e['tile']) for e in exp})
    for t in tiles:
        ids = np.arange(ncol * nrow).reshape(nrow, ncol)
        cube.write_raster(f'{lower}/{cube.tile_name(*t)}/F.tif', np.stack([ids, np.full_like(ids, (t[0] + 10) * 100 + t[1] + 10)]), res=g['res'] / w.q,
                          ulx=(g['ox'] + t[0] * g['tw']) / w.q, uly=(g['oy'] - t[1] * g['th']) / w.q, wkt=w.wkt)
    d = ck.dir(f'sp-{w.name}-{projected}')
    with open(d + '/points.txt', 'w') as f:
        for k, p in enumerate(pts):
            x, y = (p[0] / w.q, p[1] / w.q) if projected else w.lonlat(p)
            f.write(f'{x:.10f} {y:.10f} {k}\n')
    over = dict(X_TILE_RANGE='-9 9', Y_TILE_RANGE='-9 9', RESOLUTION=g['res'] / w.q, CHUNK_SIZE=f"{g['tw'] / w.q} {g['th'] / w.q / 2}",
                FILE_POINTS=d + '/points.txt', FILE_SAMPLE=d + '/f.txt', FILE_RESPONSE=d + '/r.txt', FILE_COORDINATES=d + '/c.txt',
                PROJECTED='TRUE' if projected else 'FALSE')
    run = cube.Run(ck, 'SMP', lower, over, features=['F.tif 1 2'])
    got = {}
    try:
        for a, b in zip(open(d + '/f.txt'), open(d + '/r.txt')):
            a, b = list(map(int, a.split())), float(b)
            t = [a[1] // 100 - 10, a[1] % 100 - 10]
            got.setdefault(int(b), []).append(t + [a[0] % ncol, a[0] // ncol])
    except (OSError, ValueError, IndexError):
        pass
    for k, p in enumerate(pts):
        want = exp[k]['tile'] + exp[k]['pixel']
        yield ('sampler', p, got.get(k) == [want], want, got.get(k, run.log[-200:] if run.rc else None))


def importer(w, pts, exp):
    ck, g = w.ck, w.g
    ncol, nrow = g['tw'] // g['res'], g['th'] // g['res']
    out = ck.dir('i-' + w.name)
    os.system(f"cp '{w.dir}/datacube-definition.prj' '{out}/'")
    src = ck.dir('v-' + w.name) + '/pts.gpkg'
    ds = ogr.GetDriverByName('GPKG').CreateDataSource(src)
    lay = ds.CreateLayer('pts', w.srs, ogr.wkbPoint)
    lay.CreateField(ogr.FieldDefn('id', ogr.OFTInteger))
    for k, p in enumerate(pts):
        f = ogr.Feature(lay.GetLayerDefn())
        f.SetField('id', k)
        f.SetGeometry(ogr.CreateGeometryFromWkt(f'POINT({p[0] / w.q!r} {p[1] / w.q!r})'))
        lay.CreateFeature(f)
    ds = None
    rc, log = ck.run([ck.bin + '/force-cube', '-j', '4', '-s', repr(g['res'] / w.q), '-a', 'id', '-n', '-1', '-t', 'Int16', '-o', out, src], cwd=out)
    got = {}
    for t in sorted(os.listdir(out)):
        fn = f'{out}/{t}/pts.tif'
        m = re.fullmatch(r'X(-?\d+)_Y(-?\d+)', t)
        if not m or not os.path.exists(fn):
            continue
        r = cube.Raster(fn)
        tx, ty = map(int, m.groups())
        place = abs(r.gt[0] - (g['ox'] + tx * g['tw']) / w.q) < 1e-6 and abs(r.gt[3] - (g['oy'] - ty * g['th']) / w.q) < 1e-6 and (r.nx, r.ny) == (ncol, nrow)
        for y, x in zip(*np.where(r.data[0] >= 0)):
            got.setdefault(int(r.data[0][y, x]), []).append([tx, ty, int(x), int(y)] if place else [tx, ty, 'displaced', list(r.gt)])
    for k, p in enumerate(pts):
        want = exp[k]['tile'] + exp[k]['pixel']
        yield ('import', p, got.get(k) == [want], want, got.get(k, log[-200:]))


def export(w, k, b, want):
    """want: tiles, or None for boxes with curved borders"""
    ck, g = w.ck, w.g
    if want is not None:
        c = [w.lonlat((b[0], b[1])), w.lonlat((b[2], b[3]))]
        lo, la, hi, ha = c[0][0], c[0][1], c[1][0], c[1][1]
    else:
        lo, la, hi, ha = b
    fn = f"{ck.dir('e-' + w.name)}/grid{k}.gpkg"
    rc, log = ck.run([ck.bin + '/force-tabulate-grid', '-b', f'{la!r},{ha!r},{lo!r},{hi!r}', '-o', fn, '-f', 'GPKG', w.dir])
    ds = ogr.Open(fn) if rc == 0 and os.path.exists(fn) else None
    if ds is None:
        return ('export', b, False, 'a grid', log[-300:])
    bad, tiles = [], []
    for f in ds.GetLayer(0):
        t = (f.GetField('Tile_X'), f.GetField('Tile_Y'))
        tiles.append(t)
        e = f.GetGeometryRef().GetEnvelope()
        should = ((g['ox'] + t[0] * g['tw']) / w.q, (g['ox'] + (t[0] + 1) * g['tw']) / w.q, (g['oy'] - (t[1] + 1) * g['th']) / w.q, (g['oy'] - t[1] * g['th']) / w.q)
        if f.GetField('Tile_ID') != cube.tile_name(*t) or max(abs(a - c) for a, c in zip(e, should)) > 1e-6 \
           or abs(f.GetGeometryRef().GetArea() - g['tw'] / w.q * g['th'] / w.q) > 1e-6:
            bad.append((f.GetField('Tile_ID'), t, e, should))
    if len(set(tiles)) != len(tiles):
        bad.append('tiles twice')
    if want is not None:
        miss, extra = {tuple(t) for t in want} - set(tiles), set(tiles) - {tuple(t) for t in want}
    else:
        n, miss, extra = 60, set(), set()
        for i in range(n + 1):
            for j in range(n + 1):
                x, y = w.tomap.TransformPoint(lo + (hi - lo) * i / n, la + (ha - la) * j / n)[:2]
                fx, fy = (x * w.q - g['ox']) / g['tw'], (g['oy'] - y * w.q) / g['th']
                if min(abs(fx - round(fx)), abs(fy - round(fy))) < 0.02:
                    continue
                t = (int(fx // 1), int(fy // 1))
                if t not in tiles:
                    miss.add(t)
        xs, ys = [t[0] for t in tiles], [t[1] for t in tiles]
        if len(tiles) != (max(xs) - min(xs) + 1) * (max(ys) - min(ys) + 1):
            bad.append('holes')
    return ('export', b, not (bad or miss or extra), 'the tiles of the box', dict(bad=bad[:3], missing=sorted(miss)[:5], extra=sorted(extra)[:5]))


def main(ck):
    rng = ck.rng
    laea, utm, geo = cube.wkt_of(3035), cube.wkt_of(32633), cube.wkt_of(4326)
    worlds = [
        World(ck, 'deg', geo, 4096, 4096 * -3, 4096 * 51, 4096 // 2, 4096 // 4, 64),
        World(ck, 'laea', laea, 8, 8 * 4321000, 8 * 3210000, 8 * 3000, 8 * 2000, 8 * 20),
        World(ck, 'utm', utm, 8, 8 * 400000, 8 * 5600000, 8 * 1200, 8 * 1200, 8 * 30, deprecated=True),
    ]
    if ck.thorough:
        worlds += [World(ck, 'laea2', laea, 8, 8 * 2456026, 8 * 4574919, 8 * 30000, 8 * 30000, 8 * 1000),
                   World(ck, 'south', cube.wkt_of(32733), 8, 8 * 300000, 8 * 100, 8 * 900, 8 * 1200, 8 * 60)]
    n = 60 if ck.thorough else 26
    jobs = [dict(grid=w.g, points=points(rng, w.g, n), boxes=boxes(rng, w.g, 6 if not ck.thorough else 20)) for w in worlds]
    fn = ck.dir('jobs') + '/grids.json'
    with open(fn, 'w') as f:
        for j in jobs:
            f.write(json.dumps(j) + '\n')
    r = ck.tlc('Grid', spec='Spec', invariants=['OneTile', 'InRange', 'Covered', 'Translates'], env=dict(GRIDS=fn))
    got = {c['i'] - 1: c for c in r.cases}
    if len(got) != len(jobs):
        raise vf.CheckError('grids missing')
    done = []
    with ThreadPoolExecutor(6) as ex:
        todo = []
        for i, (w, j) in enumerate(zip(worlds, jobs)):
            e = got[i]
            for k, p in enumerate(j['points']):
                todo.append(ex.submit(finder, w, k, p, e['points'][k]))
            if w.name == 'deg':
                for k, b in enumerate(j['boxes']):
                    todo.append(ex.submit(export, w, k, b, e['boxes'][k]))
            if w.name in ('laea', 'laea2', 'utm'):
                for proj in (True, False):
                    todo.append(ex.submit(lambda a=(w, j['points'], e['points'], proj): list(sampler(*a))))
            todo.append(ex.submit(lambda a=(w, j['points'], e['points']): list(importer(*a))))
        wide = World(ck, 'wide', laea, 1, 4321000, 3210000, 30000, 30000, 10)
        for k in range(6 if ck.thorough else 3):
            lo, la = rng.uniform(-5, 0), rng.uniform(38, 60)
            todo.append(ex.submit(export, wide, k, (lo, la, lo + rng.uniform(10, 25), la + rng.uniform(0.3, 3)), None))
        for t in todo:
            x = t.result()
            done += x if isinstance(x, list) else [x]
    for what, p, ok, want, seen in done:
        ck.count()
        ck.expect(ok, what, f'{what}: {p} should be {want}, is {seen}', dict(what=what, at=p, want=want, got=seen))
    ck.trace(len(worlds))
