"""H25: sharpened fields are means of the coarse values of similar neighbours."""
import datetime, json, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import cube, vf

ND = -9999
NX, NY, RES = 10, 8, 10


def date(year, doy):
    return f'{year:04d}' + (datetime.date(2015, 1, 1) + datetime.timedelta(doy - 1)).strftime('%m%d')   # years have 365 days


WINDOWS = [[1, 181, 365], [1, 365], [60, 150, 250], [270, 30, 91, 181, 260], [1, 91, 200, 300, 40], [100, 101]]


def make(rng, k):
    tx, ty = rng.choice([(1, 1), (2, 1), (1, 2), (2, 2)])
    cols, rows = tx * NX, ty * NY
    n = cols * rows
    windows = rng.choice(WINDOWS)
    years = rng.choice([[2017], [2017, 2018], [2018, 2016], [2016, 2017, 2018]])
    looks = rng.choice([2, 2, 3, 4])
    images, taken = [], set()

    def doy_in(w):
        a, b = windows[w], windows[w + 1]
        if a < b:
            return 0, rng.choice([a, b - 1, rng.randrange(a, b)])
        if w == len(windows) - 2:
            return rng.choice([(0, a), (0, rng.randrange(a, 366)), (1, rng.randrange(1, b)), (1, b - 1)])
        return rng.choice([(-1, a), (-1, rng.randrange(a, 366)), (0, b - 1), (0, rng.randrange(1, b))])
    layout = {}
    for y in years:
        layout[y] = [rng.randrange(1, looks + 1) for _ in range(n)]
    seen = rng.random() < 0.75
    for y in years:
        if y == years[0] and len(years) > 1 and not seen:
            continue                 # a year without acquisitions
        for w in range(len(windows) - 1):
            for _ in range(rng.choice([0, 1, 2])):
                dy, doy = doy_in(w)
                if (y + dy, doy) in taken or not 2015 <= y + dy <= 2019:
                    continue
                taken.add((y + dy, doy))
                images.append(dict(year=y + dy, doy=doy, of=y))
    for _ in range(3):               # other acquisitions, with other layouts
        y, doy = rng.choice([2015, 2016, 2017, 2018, 2019]), rng.choice([1, 30, 40, 59, 99, 101, 150, 181, 250, 260, 269, 299, 300, 365])
        if (y, doy) not in taken:
            taken.add((y, doy))
            images.append(dict(year=y, doy=doy, of=None))
    gone = rng.choice([0, 0.1, 0.3])
    mask = [1] * n if rng.random() < 0.6 else [0 if rng.random() < 0.2 else 1 for _ in range(n)]
    fields = []
    for f in range(rng.choice([1, 2])):
        bands = []
        for b in range(4):
            v = [rng.randrange(-20, 100) * 10 for _ in range(n)]
            if rng.random() < 0.6:
                for p in rng.sample(range(n), 4):
                    v[p] = ND
            bands.append(v)
        fields.append(bands)
    return dict(tx=tx, ty=ty, cols=cols, rows=rows, windows=windows, years=years, first=2015, nodata=ND, mask=mask, fields=fields, images=images, layout=layout, looks=looks,
                radius=rng.choice([1, 2, 3]), gone=gone, text=rng.choice([1, 1, 20]), split=rng.random() < 0.4, rng=rng.randrange(10**6))


def inside(j, y, im):
    """as the specification; only used to keep images of different layouts apart"""
    nw = len(j['windows']) - 1
    for w in range(nw):
        a, b = j['windows'][w], j['windows'][w + 1]
        if a < b and im['year'] == y and a <= im['doy'] < b:
            return True
        if a > b and (w < nw - 1 or nw == 1) and ((im['year'] == y - 1 and im['doy'] >= a) or (im['year'] == y and im['doy'] < b)):
            return True
        if a > b and w == nw - 1 and ((im['year'] == y and im['doy'] >= a) or (im['year'] == y + 1 and im['doy'] < b)):
            return True
    return False


def finish(j):
    """an image shows the layout of every year whose windows it falls into (years that share an image share the layout)"""
    r = np.random.RandomState(j['rng'])
    n = j['cols'] * j['rows']
    for im in j['images']:
        ys = [y for y in j['years'] if inside(j, y, im)]
        for y in ys[1:]:
            j['layout'][y] = j['layout'][ys[0]]
    for im in j['images']:
        ys = [y for y in j['years'] if inside(j, y, im)]
        lay = j['layout'][ys[0]] if ys else r.randint(1, j['looks'] + 1, n).tolist()
        im['look'] = [0 if r.rand() < j['gone'] else v for v in lay]
    return j


def usable(j):
    """every chunk must show at least two looks in every year that has acquisitions"""
    cw, ch = (NX // 2, NY // 2) if j['split'] else (NX, NY)
    for y in j['years']:
        ims = [im for im in j['images'] if inside(j, y, im)]
        if not ims:
            continue
        look = np.zeros(j['cols'] * j['rows'], int)
        for im in ims:
            look = np.where(np.array(im['look']) > 0, im['look'], look)
        look = np.where(np.array(j['mask']) == 1, look, 0).reshape(j['rows'], j['cols'])
        for r in range(0, j['rows'], ch):
            for c in range(0, j['cols'], cw):
                if len(set(look[r:r + ch, c:c + cw].reshape(-1).tolist()) - {0}) < 2:
                    return False
    return True


def run(ck, k, j):
    C = cube.Cube(ck.dir(f'c{k}'), NX, NY, RES)
    M = cube.Cube(ck.dir(f'm{k}'), NX, NY, RES)
    cut = lambda v, x, y: np.array(v).reshape(j['rows'], j['cols'])[y * NY:(y + 1) * NY, x * NX:(x + 1) * NX]
    for x in range(j['tx']):
        for y in range(j['ty']):
            for im in j['images']:
                l = cut(im['look'], x, y)
                v = np.stack([np.where(l > 0, 300 + 40 * b + (1500 + 60 * b) * l, ND) for b in range(6)]).astype('int16')
                C.ard(x, y, date(im['year'], im['doy']), 'LND08', v, np.where(l > 0, 0, 2).astype('int16') if k % 2 else np.where(l > 0, 0, 1).astype('int16'))
            for f, bands in enumerate(j['fields']):
                C.image(x, y, f'F{f}.tif', np.stack([cut(b, x, y) for b in bands]).astype('int16'))
            M.image(x, y, 'm.tif', cut(j['mask'], x, y).astype('uint8'), nodata=255, dtype=1)
    d = 2 if j['split'] else 1
    over = dict(SENSORS='LND08', DATE_RANGE=j.get('range', '2015-01-01 2019-12-31'), SEASONAL_WINDOW=' '.join(map(str, j['windows'])), KERNEL_SIZE=j['radius'] * RES, KERNEL_TEXT=min(j['text'], j['radius'] * RES),
                DIR_COARSE=C.path, BASE_COARSE=' '.join(f'F{f}.tif' for f in range(len(j['fields']))), COARSE_1ST_YEAR=j['first'], COARSE_PREDICT_YEARS=' '.join(map(str, j['years'])),
                COARSE_NODATA=ND, X_TILE_RANGE=f"0 {j['tx'] - 1}", Y_TILE_RANGE=f"0 {j['ty'] - 1}", CHUNK_SIZE=f'{NX * RES // d} {NY * RES // d}', RESOLUTION=RES)
    if 0 in j['mask']:
        over.update(DIR_MASK=M.path, BASE_MASK='m.tif')
    r = cube.Run(ck, 'CFIMP', C.path, over)
    out = []
    for f in range(len(j['fields'])):
        a = np.zeros((len(j['years']), j['rows'], j['cols']), int)
        names = None
        for x in range(j['tx']):
            for y in range(j['ty']):
                fn = f'{r.out}/{cube.tile_name(x, y)}/F{f}_IMP.tif'
                if not os.path.exists(fn):
                    return r, None
                R = cube.Raster(fn)
                if R.data.shape != (len(j['years']), NY, NX):
                    return r, f'{fn} has shape {R.data.shape}'
                names = R.names
                a[:, y * NY:(y + 1) * NY, x * NX:(x + 1) * NX] = R.data
        out.append((a, names))
    return r, out


def main(ck):
    jobs = []
    while len(jobs) < (70 if ck.thorough else 28):
        j = finish(make(ck.rng, len(jobs)))
        if usable(j):
            jobs.append(j)
    fn = ck.dir('jobs') + '/j.json'
    with open(fn, 'w') as f:
        for j in jobs:
            f.write(json.dumps({**{k: j[k] for k in ('cols', 'rows', 'radius', 'windows', 'years', 'first', 'nodata', 'mask', 'fields')}, 'images': [dict(year=im['year'], doy=im['doy'], look=im['look']) for im in j['images']]}) + '\n')
    r = ck.tlc('Improphe', spec='Spec', invariants=['Own', 'Blind'], properties=['Ends'], env=dict(JOBS=fn))
    ck.tlc('Improphe', spec='Spec', invariants=['NeverOut'], env=dict(JOBS=fn), expect_violation=True)
    want = {(c['i'] - 1, c['year']): c['pixels'] for c in r.cases}
    ck.bdir
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda a: run(ck, *a), enumerate(jobs)))
    like = 0
    for k, (j, (r, out)) in enumerate(zip(jobs, res)):
        what = f"windows {j['windows']}, years {j['years']}, images {[(im['year'], im['doy']) for im in j['images']]}, radius {j['radius']}, heterogeneity {j['text']}, {len(j['fields'])} fields"
        if not j['images']:
            continue
        if not ck.expect(r.rc == 0 and isinstance(out, list), 'run', f"{what}: exit {r.rc}, {out if out else 'products are missing'}: {r.log[-300:]}", j):
            continue
        ck.trace(1)
        for f, (a, names) in enumerate(out):
            ck.expect(list(names) == [f'YEAR-{y:04d}' for y in j['years']], 'names', f'{what}: bands {names}', j)
            for b, y in enumerate(j['years']):
                px = want[(k, y)]
                for p, w in enumerate(px):
                    own = j['fields'][f][y - j['first']][p]
                    v = int(a[b].reshape(-1)[p])
                    ck.count(1)
                    if w['kind'] == 'none':
                        ok, exp = v == ND, 'nodata'
                    elif w['kind'] == 'part':
                        ok, exp = v == ND or v == own, f'nodata{"" if own == ND else f" or {own}"}'
                    elif w['kind'] == 'keep':
                        ok, exp = v == own, f'{own} (coarse value)'
                    elif j['text'] == 1:
                        like += 1
                        ok, exp = abs(v * w['n'] - w['sum'][f]) <= w['n'], f"{w['sum'][f] / w['n']:.2f}, mean of {w['n']} mates"
                    else:
                        like += 1
                        ok, exp = w['low'][f] - 1 <= v <= w['high'][f] + 1, f"between {w['low'][f]} and {w['high'][f]}"
                    if not ok:
                        ck.violation(w['kind'], f"{what}: field {f + 1}, year {y}, row {p // j['cols']} column {p % j['cols']}: {v}, should be {exp}", None)
                        break
    # years without a coarse value, or without the period of acquisitions, cannot be predicted
    base = next(j for j in jobs if j['images'])
    for n, over in enumerate([dict(years=[2014], range='2013-01-01 2019-12-31'), dict(years=[2019], range='2015-01-01 2019-12-31'), dict(years=[2017, 2013], range='2013-01-01 2019-12-31'),
                              dict(years=[2018, 2016], range='2017-01-01 2019-12-31'), dict(years=[2018], range='2015-01-01 2017-12-31')]):
        r, out = run(ck, 1000 + n, {**base, **over})
        ck.count(1)
        left = [fn for d, _, fns in os.walk(r.out) for fn in fns if fn.endswith('.tif')]
        ck.expect(r.rc != 'timeout' and not left, 'years', f"coarse fields of 2015 to 2018, period {over['range']}: year {over['years']} was predicted (exit {r.rc}): {left}", over)
    if like < 2000 and not ck.viol:
        raise vf.CheckError('hardly any prediction')
    ck.sample(dict(predictions=like))
