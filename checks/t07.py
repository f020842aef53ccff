"""T07: histograms and stratified samples count pixels exactly."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from osgeo import gdal, ogr
import cube, vf

DT = {'Byte': (gdal.GDT_Byte, [0, 1, 2, 254, 255]), 'Int16': (gdal.GDT_Int16, [-32768, -9999, -1, 0, 1, 7, 32767])}
OX, OY, RES = 4000000, 3000000, 20


def make(rng, k):
    t = rng.choice(list(DT))
    pool = DT[t][1]
    nodata = rng.choice(pool)
    classes = rng.sample(pool, rng.randrange(2, len(pool) + 1))
    ncol, nrow, nb = rng.randrange(3, 9), rng.randrange(3, 9), rng.randrange(1, 4)
    band = rng.randrange(1, nb + 1)
    img = [[rng.choice(classes) for _ in range(ncol * nrow)] for _ in range(nb)]
    image = img[band - 1]
    have = {}
    for v in image:
        if v != nodata:
            have[v] = have.get(v, 0) + 1
    want = []
    for c in sorted(have):
        if rng.random() < 0.8:
            want.append([c, rng.choice([0, 1, 2, have[c] // 2, have[c], have[c] + 3])])
    if rng.random() < 0.3:
        want.append([5, 3])     # a class that does not occur
    if not any(n for _, n in want):
        want.append([sorted(have)[0] if have else 5, 1])
        want = [list(x) for x in {w[0]: w for w in want}.values()]
    rng.shuffle(want)
    return dict(type=t, nodata=nodata, ncol=ncol, nrow=nrow, bands=img, band=band, image=image, want=want, have=have,
                draw=rng.choice(['low', 'high', 'alternate', str(rng.randrange(1, 9999)), str(rng.randrange(1, 9999))]), cols=rng.sample(['class', 'count', 'n'], 3),
                fmt=rng.choice([None, None, 'GPKG', 'GeoJSON']), named=rng.random() < 0.7)


def run(ck, k, j):
    d = ck.dir(f'i{k}')
    a = np.array(j['bands']).reshape(len(j['bands']), j['nrow'], j['ncol'])
    cube.write_raster(d + '/img.tif', a, nodata=j['nodata'], res=RES, ulx=OX, uly=OY, dtype=DT[j['type']][0])
    hist = d + '/h.csv'
    band = ['-b', str(j['band'])] if j['band'] > 1 else []
    rc, log = ck.run([ck.bin + '/force-hist', *band, '-o', hist, d + '/img.tif'], cwd=d)
    got = []
    try:
        lines = open(hist).read().split('\n')
        head = lines[0].split(',')
        for ln in lines[1:]:
            if ln.strip():
                v = dict(zip(head, map(float, ln.split(','))))
                got.append([int(v['class']), int(v['count'])])
    except (OSError, KeyError, ValueError) as e:
        got = f'{e} (exit {rc}: {log[-200:]})'
    # sample
    rows = [dict(**{'class': c, 'count': j['have'].get(c, 0), 'n': n}) for c, n in j['want']]
    tab = d + '/size.csv'
    open(tab, 'w').write('\n'.join([','.join(j['cols'])] + [','.join(str(r[c]) for c in j['cols']) for r in rows]) + '\n')
    ext = {None: '.gpkg', 'GPKG': '.gpkg', 'GeoJSON': '.geojson'}[j['fmt']]
    out = d + '/s' + ext if (j['named'] or j['fmt']) else d + '/sample.gpkg'
    cmd = [ck.bin + '/force-stratified-sample', *band] + (['-o', out] if j['named'] or j['fmt'] else []) + (['-f', j['fmt']] if j['fmt'] else []) + [d + '/img.tif', tab, 'n']
    rc2, log2 = ck.run(cmd, cwd=d, env=dict(LD_PRELOAD=vf.shared_lib('draw'), DRAW=j['draw']))
    pts = None
    if rc2 == 0 and os.path.exists(out):
        pts = []
        ds = ogr.Open(out)
        for f in ds.GetLayer(0):
            g = f.GetGeometryRef()
            x, y = (g.GetX() - OX) * 2 / RES, (OY - g.GetY()) * 2 / RES
            whole = abs(x - round(x)) < 1e-6 and abs(y - round(y)) < 1e-6
            pts.append([round(x), round(y), f.GetField('label_map')] if whole else [0, 0, f.GetField('label_map')])
        ds = None
    return got, pts, f'exit {rc2}: {log2[-300:]}'


def main(ck):
    jobs = [make(ck.rng, k) for k in range(150 if ck.thorough else 50)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda a: run(ck, *a), enumerate(jobs)))
    fn = ck.dir('jobs') + '/j.json'
    with open(fn, 'w') as f:
        for j, (_, pts, _) in zip(jobs, res):
            f.write(json.dumps(dict(image=j['image'], ncol=j['ncol'], nodata=j['nodata'], want=j['want'], points=pts or [])) + '\n')
    r = ck.tlc('Strata', spec='Spec', invariants=['Total', 'Sorted', 'Distinct'], env=dict(JOBS=fn))
    verdict = {c['i'] - 1: c for c in r.cases}
    full = 0
    for k, (j, (hist, pts, log)) in enumerate(zip(jobs, res)):
        v = verdict[k]
        ck.trace(1)
        ck.count(2)
        ck.expect(hist == v['counts'], 'histogram', f"band {j['band']} of {len(j['bands'])} ({j['type']}, nodata {j['nodata']}): histogram {hist}, should be {v['counts']}", j)
        if pts is None:
            ck.violation('sample-exit', f"sample of {j['want']} (format {j['fmt']}): no points, {log}", j)
            continue
        ck.expect(v['why'] == '', 'sample', f"sample of {j['want']} from {v['counts']}: point {v['at']} {pts[v['at'] - 1] if pts and v['at'] else ''}: {v['why']}", j)
        # if every pixel of a class is requested, every pixel is drawn: the share of the class is at least its size
        per = {}
        for p in pts:
            per[p[2]] = per.get(p[2], 0) + 1
        full += len(pts)
        for c, n in j['want']:
            if j['have'].get(c) and n >= j['have'][c] and 10 * sum(m for _, m in j['want']) >= sum(j['have'].values()):
                ck.expect(per.get(c, 0) == j['have'][c], 'all', f"sample of {j['want']} from {v['counts']}: class {c} gives {per.get(c, 0)} points although all are requested", j)
    if full < 20:
        raise vf.CheckError('hardly any points are drawn')
