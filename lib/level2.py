"""Replay of Level 2 behaviours (spec/Level2.tla): images into force-l2ps, tiles against the expected cube."""
import json, os, re, time
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from l1 import *

OUTB = ['2', '3', '4', '5', '6', '7']           # bands of the reflectance product
CLEAR, OFF, CIR, SATW = 0, 1, 6, 512
POS0 = [[0, 0]]


def scenario(id, tx, ty, imgs, length=1, allow=(), maxf=100, maxt=100, once=True, pos=POS0, prm=None):
    return dict(id=id, tx=tx, ty=ty, allow=[list(a) for a in allow], maxf=maxf, maxt=maxt, len=length, once=once, pos=pos, imgs=imgs, prm=prm or {})


def image(x, y, words, pre=False):
    return dict(x=x, y=y, pre=pre, w=[[int(v) for v in row] for row in (words if pre else settled(words))])


def settled(words):
    """pixels of the outermost ring whose inner neighbour has no data have no terrain and are dropped by design; keep to images where that changes nothing"""
    w = [list(r) for r in words]
    ny, nx = len(w), len(w[0])
    while True:
        old = [list(r) for r in w]
        for r in range(ny):
            if w[r][1] & 1:
                w[r][0] = OFF
            if w[r][nx - 2] & 1:
                w[r][nx - 1] = OFF
        for c in range(nx):
            if w[1][c] & 1:
                w[0][c] = OFF
            if w[ny - 2][c] & 1:
                w[ny - 1][c] = OFF
        if w == old:
            return w


def dns(words, n):
    """digital numbers of an image with the given quality words; every pixel of every image has its own values"""
    w = np.array(words)
    ny, nx = w.shape
    k = np.arange(ny * nx).reshape(ny, nx)
    a = {b: np.full((ny, nx), v) + 300 * (n % 6) for b, v in BASE.items() if b not in ('9', '10')}
    a['9'], a['10'] = np.full((ny, nx), BASE['9']), np.full((ny, nx), BASE['10'])
    a['5'] = a['5'] + 2000 * (n % 4) + 25 * (k % 150)
    a['6'] = a['6'] + 25 * (k % 37)
    a['7'] = a['7'] + 25 * (k % 23)
    for (r, c) in zip(*np.where(w & 1)):
        zero = [b for b in BANDS if b != '9'] if (r + c) % 3 else [[b for b in BANDS if b != '9'][(r * 5 + c) % 8]]
        for b in zero:
            a[b][r, c] = 0
    for (r, c) in zip(*np.where(w & 6)):
        a['9'][r, c] = CIRRUS
    for (r, c) in zip(*np.where(w & 512)):
        a[['5', '6', '7'][(r + c) % 3]][r, c] = SAT
    return a


def pre_refl(words, n):
    w = np.array(words)
    v = 500 + 700 * np.arange(6)[:, None, None] + 11 * np.arange(w.size).reshape(1, *w.shape) % 600 + np.zeros((6, 1, 1), int)
    return np.where(w & 1, -9999, v)


def run_case(ck, sc, case):
    """process the images of one behaviour; compare the tiles after every image"""
    what = f'{sc["id"]}: ' + ' '.join(f'{s["img"]}@{s["dx"]},{s["dy"]}' for s in case['steps'])
    cube = L2Cube(ck, sc['tx'], sc['ty'], MAX_CLOUD_COVER_FRAME=sc['maxf'], MAX_CLOUD_COVER_TILE=sc['maxt'], **sc['prm'])
    if sc['allow']:
        cube.allow(sc['allow'])
    src = {}                       # image -> (displacement, DNs, factor) or reflectance
    for n, st in enumerate(case['steps']):
        i = st['img']
        im = sc['imgs'][i - 1]
        gx, gy = im['x'] + st['dx'], im['y'] + st['dy']
        if im['pre']:
            refl = pre_refl(im['w'], i)
            cube.place(gx // sc['tx'], gy // sc['ty'], refl, np.array(im['w']))
            src[i] = (gx, gy, refl)
        else:
            a = dns(im['w'], i)
            rc, log = cube.process(a, *ul_of(gx, gy), row=20 + i)
            if not ck.expect(rc == 0, 'exit', f'{what}: exit {rc} for image {n + 1}', log[-400:]):
                return
            m = re.search(r'(\d+) product\(s\) written', log)
            if st['rejected']:
                ck.expect(m is None, 'rejected', f'{what}: image {n + 1} above the frame limit was processed', log[-200:])
            elif ck.expect(m is not None, 'not-processed', f'{what}: image {n + 1} was not processed', log[-200:]):
                ck.expect(int(m.group(1)) == st['nwrote'], 'count', f'{what}: image {n + 1} reports {m.group(1)} tiles, expected {st["nwrote"]}')
            cloudy = [w for row in im['w'] for w in row if not w & 1]
            cc = re.search(r'cc:\s*([\d.]+)%', log)
            want = 100 * sum(1 for w in cloudy if w & 14) / len(cloudy)
            if ck.expect(cc is not None, 'cover', f'{what}: no cloud cover printed'):
                ck.expect(abs(float(cc.group(1)) - want) < 0.006, 'cover', f'{what}: printed cloud cover {cc.group(1)}, expected {want:.2f}')
            src[i] = (gx, gy, rho(np.stack([a[b] for b in OUTB])))
        compare(ck, sc, st, cube, src, f'{what}, after image {n + 1}')
    ck.trace()


def compare(ck, sc, st, cube, src, what):
    q, t = cube.tiles('QAI'), cube.tiles('TOA')
    want = {(x['x'], x['y']): x for x in st['tiles']}
    key = 'tiles'
    if not (ck.expect(set(q) == set(want), key, f'{what}: quality tiles {sorted(q)} instead of {sorted(want)}')
            and ck.expect(set(t) == set(want), key, f'{what}: reflectance tiles {sorted(t)} instead of {sorted(want)}')):
        return
    f0 = 1 / cos_sun()
    # one calibration factor per image (sun position); found from pixels with a single contributor, must agree with the astronomical one
    fac = {}
    for i, (gx, gy, val) in src.items():
        if sc['imgs'][i - 1]['pre']:
            fac[i] = 1.0
            continue
        ratios = []
        for xy, w in want.items():
            for (r, c) in zip(*np.where(np.array(w['src']) == 1 << (i - 1))):
                ir, ic = xy[1] * sc['ty'] + r - gy, xy[0] * sc['tx'] + c - gx
                ratios.append(t[xy].data[3, r, c] / val[3, ir, ic])
        fac[i] = float(np.median(ratios)) if ratios else f0
        if not 0.995 < fac[i] / f0 < 1.005:
            fac[i] = f0
    for xy, w in want.items():
        Q, T = q[xy], t[xy]
        ulx, uly = OX + xy[0] * sc['tx'] * RES, OY - xy[1] * sc['ty'] * RES
        for R in (Q, T):
            ck.expect((R.nx, R.ny) == (sc['tx'], sc['ty']), 'geometry', f'{what}: tile {xy} has {R.nx}x{R.ny} pixels')
            ck.expect(abs(R.gt[0] - ulx) < 1e-3 and abs(R.gt[3] - uly) < 1e-3 and R.gt[1] == RES and R.gt[5] == -RES, 'geometry', f'{what}: tile {xy} is at {R.gt}')
            ck.expect(R.dtype == 'Int16', 'geometry', f'{what}: tile {xy} has type {R.dtype}')
        ck.expect(Q.nodata[0] == 1 and all(v == -9999 for v in T.nodata), 'nodata-value', f'{what}: tile {xy} declares nodata {Q.nodata} {T.nodata}')
        if not ck.expect(T.nb == 6 and Q.nb == 1, 'bands', f'{what}: tile {xy} has {T.nb}/{Q.nb} bands'):
            continue
        if Q.data.shape[1:] != (sc['ty'], sc['tx']):
            continue
        ww, ss = np.array(w['w']), np.array(w['src'])
        bad = np.argwhere(Q.data[0] != ww)
        ck.count(ww.size * 7)
        for r, c in bad[:3]:
            got, exp = int(Q.data[0, r, c]), int(ww[r, c])
            k = 'validity' if (got ^ exp) & 1 else 'quality'
            ck.violation(k, f'{what}: quality word of tile {xy} row {r} col {c} is {got}, expected {exp}', dict(tile=xy, got=Q.data[0].tolist(), want=ww.tolist(), src=ss.tolist()))
        for r in range(sc['ty']):
            for c in range(sc['tx']):
                v = T.data[:, r, c].astype(int)
                m = int(ss[r, c])
                if m == 0:
                    if (v != -9999).any():
                        ck.violation('nodata', f'{what}: tile {xy} row {r} col {c} should be nodata, is {v.tolist()}')
                    continue
                vals = []
                for i in src:
                    if m >> (i - 1) & 1:
                        gx, gy, val = src[i]
                        vals.append(val[:, xy[1] * sc['ty'] + r - gy, xy[0] * sc['tx'] + c - gx] * fac[i])
                vals = np.array(vals)
                lo, hi = vals.min(0), vals.max(0)
                wide = (hi - lo) > 20 + hi * 5e-3
                ok = np.where(wide, (v > lo + 2 + lo * 5e-4) & (v < hi - 2 - hi * 5e-4), (v > lo - 2.6 - lo * 5e-4) & (v < hi + 2.6 + hi * 5e-4))
                if not ok.all():
                    k = 'lost' if (v == -9999).any() else ('merge' if len(vals) > 1 else 'value')
                    ck.violation(k, f'{what}: tile {xy} row {r} col {c} is {v.tolist()}, contributions {np.round(vals, 1).tolist()}')


def behaviours(ck, scen, properties=('Monotone',)):
    fn = os.path.join(ck.dir('cfg'), 'scen.ndjson')
    open(fn, 'w').write(''.join(json.dumps({k: v for k, v in s.items() if k != 'prm'}) + '\n' for s in scen))
    t = time.time()
    r = ck.tlc('Level2', spec='Spec', invariants=['Partition', 'NoLoss', 'Restrictive', 'TilesHoldData'], properties=list(properties), env=dict(SCENARIOS=fn))
    ck.notes['tlc_s'] = round(time.time() - t, 1)
    return r.cases


def replay(ck, scen, cases):
    by = {s['id']: s for s in scen}
    ck.bdir
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda c: run_case(ck, by[c['id']], c), cases))
