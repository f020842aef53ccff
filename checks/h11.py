"""H11: sampling extracts each sample point at most once, from its own pixel."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from osgeo import osr
import cube, vf

SUB = 8
RES = 20


def srs_of(wkt):
    s = osr.SpatialReference()
    s.ImportFromWkt(wkt)
    s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    return s


GEO_WKT = cube.wkt_of(4326)
# where the grid lies decides how much it is turned against the meridians
PLACES = {
    'laea': (3035, 4321000, 3210000), 'west': (3035, 2600000, 2100000), 'utm-south': (32733, 400000, 6000000),
    'polar90': (3413, -2000000, -2000000), 'polar180': (3413, -300000, 2500000), 'polar45': (3413, 2000000, 30000), 'antarctic': (3031, 100000, -1500000),
}


def make(rng, place, projected, n, border, res):
    ncol, nrow = rng.choice([(4, 4), (6, 4), (6, 6)])
    tiles = [(x, y) for x in range(-1, 2) for y in range(-1, 2)]
    have = [t for t in tiles if rng.random() < 0.8] or [(0, 0)]
    lo = [rng.choice([-1, -1, 0]) for _ in range(2)]
    hi = [rng.choice([1, 1, 0]) for _ in range(2)]
    proc = [t for t in have if lo[0] <= t[0] <= hi[0] and lo[1] <= t[1] <= hi[1]]
    # tiles without one of the two feature files are skipped
    partial = [t for t in have if rng.random() < 0.15]
    ccol, crow = rng.choice([d for d in (1, 2, 3, ncol) if ncol % d == 0]), rng.choice([d for d in (1, 2, 3, nrow) if nrow % d == 0])
    pts = []
    for _ in range(n):
        t = (rng.randrange(-2, 3), rng.randrange(-2, 3)) if rng.random() < 0.2 else rng.choice(tiles)
        col = rng.choice([0, ncol - 1, rng.randrange(ncol)])
        row = rng.choice([0, nrow - 1, rng.randrange(nrow)])
        sx, sy = rng.choice([1, SUB - 1, SUB // 2, 3]), rng.choice([1, SUB - 1, SUB // 2, 5])
        if border and rng.random() < 0.3:
            if rng.random() < 0.5:
                sx = 0
            else:
                sy = 0
        pts.append(((t[0] * ncol + col) * SUB + sx, (t[1] * nrow + row) * SUB + sy))
    for _ in range(n // 10):
        pts.append(rng.choice(pts))
    cells = [(*t, c, r) for t in tiles for c in range(ncol) for r in range(nrow)]
    use_mask = rng.random() < 0.5
    nomask = {t for t in tiles if use_mask and rng.random() < 0.15}
    masked = {x for x in cells if use_mask and (rng.random() < 0.25 or x[:2] in nomask)}
    holes = {x for x in cells if rng.random() < 0.2}
    if rng.random() < 0.3 and have:
        holes |= {x for x in cells if x[:2] == have[0]}
    return dict(place=place, projected=projected, ncol=ncol, nrow=nrow, ccol=ccol, crow=crow, sub=SUB, points=pts, exclude=rng.random() < 0.5,
                tiles=[t for t in proc if t not in partial], holes=sorted(holes), masked=sorted(masked), have=have, partial=partial, lo=lo, hi=hi, use_mask=use_mask,
                nomask=sorted(nomask), res=res, streaming=rng.choice(['TRUE', 'FALSE']), listed=bool(proc) and rng.random() < 0.3, columns=rng.choice([1, 2, 3]))


BANDS = 3
PICK = [(0, 3), (0, 1), (1, 2)]     # features: (file, band)


def value(f, b, t, col, row):
    return 1000 * b + 13000 * f + ((t[0] + 1) * 3 + t[1] + 1) * 100 + row * 10 + col


def go(ck, k, j):
    epsg, ox, oy = PLACES[j['place']]
    wkt = cube.wkt_of(epsg)
    res, ncol, nrow = j['res'], j['ncol'], j['nrow']
    c = cube.Cube(ck.dir(f'low{k}'), ncol, nrow, res=res, ox=ox, oy=oy, wkt=wkt)
    holes, masked = set(map(tuple, j['holes'])), set(map(tuple, j['masked']))
    rng = np.random.default_rng(k)
    for t in j['have']:
        for f in range(2):
            if f == 1 and t in j['partial']:
                continue
            a = np.array([[[value(f, b, t, x, y) for x in range(ncol)] for y in range(nrow)] for b in range(1, BANDS + 1)])
            for x in range(ncol):
                for y in range(nrow):
                    if (*t, x, y) in holes:
                        which = [p for p in PICK if p[0] == f]
                        # one feature is missing in the second file, or all of the first
                        if f == 1:
                            a[which[0][1] - 1, y, x] = -9999
                        elif (x + y) % 2:
                            a[which[0][1] - 1, y, x] = -9999
            c.image(*t, f'F{f}.tif', a)
    over = dict(X_TILE_RANGE=f"{j['lo'][0]} {j['hi'][0]}", Y_TILE_RANGE=f"{j['lo'][1]} {j['hi'][1]}", RESOLUTION=res, CHUNK_SIZE=f"{j['ccol'] * res} {j['crow'] * res}",
                FEATURE_EXCLUDE='TRUE' if j['exclude'] else 'FALSE', PROJECTED='TRUE' if j['projected'] else 'FALSE', STREAMING=j['streaming'])
    if j['use_mask']:
        m = cube.Cube(ck.dir(f'mask{k}'), ncol, nrow, res=res, ox=ox, oy=oy, wkt=wkt)
        for t in j['have']:
            if t in j['nomask']:
                continue
            a = np.array([[0 if (*t, x, y) in masked else 1 for x in range(ncol)] for y in range(nrow)])
            m.image(*t, 'M.tif', a, nodata=255, dtype=cube.gdal.GDT_Byte)
        over.update(DIR_MASK=m.path, BASE_MASK='M.tif')
    d = ck.dir(f'smp{k}')
    if j['listed']:
        open(d + '/tiles.txt', 'w').write(''.join(s + '\n' for s in [str(len(j['have']))] + [cube.tile_name(*t) for t in j['have']]))
        over.update(FILE_TILE=d + '/tiles.txt')
    tr = osr.CoordinateTransformation(srs_of(wkt), srs_of(GEO_WKT))
    coords = []
    with open(d + '/points.txt', 'w') as f:
        for n, p in enumerate(j['points']):
            x, y = ox + p[0] * res / SUB, oy - p[1] * res / SUB
            if not j['projected']:
                x, y = tr.TransformPoint(x, y)[:2]
            coords.append((x, y))
            extra = [n + 0.25, -n, 1e-3 * n][:j['columns']]
            f.write(' '.join([f'{x:.12f}', f'{y:.12f}'] + [repr(float(e)) for e in extra]) + '\n')
    over.update(FILE_POINTS=d + '/points.txt', FILE_SAMPLE=d + '/f.txt', FILE_RESPONSE=d + '/r.txt', FILE_COORDINATES=d + '/c.txt')
    run = cube.Run(ck, 'SMP', c.path, over, features=['F0.tif 3 1', 'F1.tif 2'])
    tabs = []
    for n in 'frc':
        try:
            tabs.append([list(map(float, ln.split())) for ln in open(f'{d}/{n}.txt')])
        except (OSError, ValueError):
            tabs.append([])
    return run, coords, tabs


def judge(ck, k, j, want, run, coords, tabs):
    feat, resp, crd = tabs
    tag = f"{j['place']}{'' if j['projected'] else ', geographic'}"
    ck.count()
    ck.expect(run.rc == 0, 'exit', f'{tag}: exit {run.rc}: {run.log[-300:]}')
    ck.expect(len(feat) == len(resp) == len(crd), 'aligned', f'{tag}: {len(feat)} lines of features, {len(resp)} of responses, {len(crd)} of coordinates', j)
    got = {}
    for a, b, c in zip(feat, resp, crd):
        n = round(b[0] - 0.25) if b else -1
        whole = [n + 0.25, -n, 1e-3 * n][:j['columns']]
        if not 0 <= n < len(coords) or len(b) != len(whole) or max(abs(u - v) for u, v in zip(b, whole)) > 1e-6:
            ck.violation('response', f'{tag}: response {b} is none of the sample points', j)
            continue
        got.setdefault(n, []).append((a, c))
    holes = set(map(tuple, j['holes']))
    exp = {ln[0] - 1: ln[1:] for ln in want}
    for n, p in enumerate(j['points']):
        ck.count()
        g = got.get(n, [])
        border = p[0] % SUB == 0 or p[1] % SUB == 0
        if len(g) > 1:
            ck.violation('twice', f'{tag}: point {p} gives {len(g)} lines: {g}', j)
            continue
        if border:
            if g and not any(near(j, p, g[0][0], dx, dy) for dx in (0, -1) for dy in (0, -1)):
                ck.violation('value', f'{tag}: point {p} on a border gives {g[0][0]}', j)
            continue
        e = exp.get(n)
        ck.expect((e is None) == (not g), 'lost' if e is not None else 'extra', f'{tag}: point {p} should give {"no line" if e is None else e}, gives {g}', j)
        if e is None or not g:
            continue
        a, c = g[0]
        full = features(j, e)
        ck.expect(len(a) == len(full) and all(abs(u - v) < 0.5 for u, v in zip(a, full)), 'value', f'{tag}: point {p} in {e}: features {a}, should be {full}', j)
        ck.expect(len(c) == 2 and max(abs(u - v) for u, v in zip(c, coords[n])) <= 1e-6, 'coordinate', f'{tag}: point {p}: coordinates {c}, should be {coords[n]}', j)


def features(j, e):
    tx, ty, x, y = e
    full = [value(f, b, (tx, ty), x, y) for f, b in PICK]
    if tuple(e) in set(map(tuple, j['holes'])):
        if (x + y) % 2:
            full[0] = -9999
        full[2] = -9999
    return full


def near(j, p, a, dx, dy):
    x, y = p[0] + dx, p[1] + dy
    e = (x // (j['ncol'] * SUB), y // (j['nrow'] * SUB), x % (j['ncol'] * SUB) // SUB, y % (j['nrow'] * SUB) // SUB)
    return all(abs(u - v) < 0.5 for u, v in zip(a, features(j, e)))


def main(ck):
    rng = ck.rng
    plan = [(p, proj) for p in PLACES for proj in (False,)] + [('laea', True), ('utm-south', True)]
    if ck.thorough:
        plan = plan * 3
    jobs = [make(rng, p, proj, 60 if ck.thorough else 45, proj, RES if n % 2 else 2000) for n, (p, proj) in enumerate(plan)]
    fn = ck.dir('jobs') + '/j.json'
    keep = ('ncol', 'nrow', 'ccol', 'crow', 'tiles', 'sub', 'points', 'exclude', 'holes', 'masked')
    open(fn, 'w').write(''.join(json.dumps({a: j[a] for a in keep}) + '\n' for j in jobs))
    r = ck.tlc('Sampling', spec='Spec', invariants=['Once', 'Exactly'], env=dict(JOBS=fn))
    want = {c['i'] - 1: c['lines'] for c in r.cases}
    if len(want) != len(jobs):
        raise vf.CheckError('jobs missing')
    with ThreadPoolExecutor(4) as ex:
        done = list(ex.map(lambda a: go(ck, *a), enumerate(jobs)))
    for k, (j, d) in enumerate(zip(jobs, done)):
        ck.trace(1)
        judge(ck, k, j, want[k], *d)
