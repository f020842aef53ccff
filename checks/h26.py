"""H26: images are read at the requested resolution."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from cube import Cube, Run, NODATA, write_raster, tile_name

SIDE, STRIPS = 240, (240, 120)
SIZES = (10, 20, 30, 40, 60)
BANDS = dict(BLUE=(0, 0), RED=(2, 2), NIR=(3, 7))      # of Landsat and Sentinel-2


def picture(rng, n, kind, k=1):
    y, x = np.mgrid[0:n, 0:n]
    if kind == 'plane':
        return 2500 + int(rng.integers(-60, 61)) * x + int(rng.integers(-60, 61)) * y
    if kind == 'areas':
        return rng.integers(-300, 9000, (3, 3)).repeat(-(-n // 3), 0).repeat(-(-n // 3), 1)[:n, :n]
    return rng.integers(-200, 9000, (n, n))


def job(rng, id, b, psf, kinds, strip, masked):
    obs = []
    for t, kind in enumerate(kinds):
        a = SIZES[(id + t) % len(SIZES)] if psf == 0 else [s for s in SIZES if s <= b][(id + t) % len([s for s in SIZES if s <= b])]
        n = SIDE // a
        sensor = ('LND08', 'LND07', 'SEN2A', 'SEN2B')[int(rng.integers(4 if t else 2))]
        img = np.stack([picture(rng, n, kind) for _ in range(10 if sensor[0] == 'S' else 6)])
        qai = np.zeros((n, n), int)
        if kind != 'plane':
            hole = rng.random((n, n)) < 0.12
            big = np.zeros((n, n), bool)
            k = max(1, min(n // 2, 2 * b // a))
            r, c = (int(v) for v in rng.integers(0, n - k + 1, 2))
            big[r:r + k, c:c + k] = True
            qai[rng.random((n, n)) < 0.12] = 2
            qai[hole | big] = 1
            img[:, qai == 1] = NODATA
        obs.append(dict(date=f'2018{1 + t:02d}1{int(rng.integers(9))}', sensor=sensor, a=a, img=img, qai=qai))
    m = SIZES[int(rng.integers(len(SIZES)))] if masked else b
    mask = (rng.random((SIDE // m, SIDE // m)) < 0.7).astype(int) if masked else np.ones((SIDE // b, SIDE // b), int)
    return dict(id=id, b=b, psf=psf, obs=obs, m=m, mask=mask, masked=masked, strip=strip)


def run(ck, j):
    C = Cube(ck.dir('cube'), SIDE, SIDE, res=1)
    ux, uy = C.ul(0, 0)
    for o in j['obs']:
        base = os.path.join(C.path, tile_name(0, 0), f'{o["date"]}_LEVEL2_{o["sensor"]}_')
        write_raster(base + 'BOA.tif', o['img'], NODATA, o['a'], ux, uy, wkt=C.wkt)
        write_raster(base + 'QAI.tif', o['qai'], 1, o['a'], ux, uy, wkt=C.wkt)
    over = {}
    if j['masked']:
        M = ck.dir('mask')
        write_raster(os.path.join(M, tile_name(0, 0), 'm.tif'), j['mask'], 255, j['m'], ux, uy, wkt=C.wkt)
        over = dict(DIR_MASK=M, BASE_MASK='m.tif')
    return Run(ck, 'TSA', C.path, dict(SENSORS=' '.join(sorted({o['sensor'] for o in j['obs']})), TARGET_SENSOR='LNDLG', INDEX=' '.join(BANDS), DATE_RANGE='2018-01-01 2018-12-31',
               OUTPUT_TSS='TRUE', OUTPUT_TSI='FALSE', OUTPUT_STM='FALSE', INTERPOLATE='NONE', RESOLUTION=j['b'], REDUCE_PSF='TRUE' if j['psf'] else 'FALSE', CHUNK_SIZE=f'{SIDE} {j["strip"]}',
               SCREEN_QAI='NODATA CLOUD_OPAQUE CLOUD_BUFFER CLOUD_CIRRUS CLOUD_SHADOW', **over))


def main(ck):
    rng = np.random.default_rng(ck.seed)
    ck.bdir
    jobs = []
    for q in range(40 if ck.thorough else 14):
        psf = q % 2
        b = SIZES[1:][(q // 2) % 4] if psf else SIZES[(q // 2) % 5]
        kinds = ['plane', 'areas', 'noise'] if psf else ['noise', 'areas', 'noise']
        jobs.append(job(rng, q, b, psf, kinds, STRIPS[(q // 3) % 2], q % 5 == 2 or q % 5 == 4))
    fn = os.path.join(ck.dir('cfg'), 'jobs.ndjson')
    recs = [dict(id=f'{j["id"]}-{t}-{name}', a=o['a'], b=j['b'], m=j['m'], strip=j['strip'], psf=j['psf'], img=o['img'][BANDS[name][o['sensor'][0] == 'S']].tolist(), off=NODATA,
                 usable=(o['qai'] == 0).astype(int).tolist(), mask=j['mask'].tolist())
            for j in jobs for t, o in enumerate(j['obs']) for name in BANDS]
    with open(fn, 'w') as f:
        f.writelines(json.dumps(r) + '\n' for r in recs)
    some = os.path.join(ck.dir('cfg'), 'some.ndjson')
    with open(some, 'w') as f:
        f.writelines(json.dumps(r) + '\n' for r in recs if r['psf'] and r['a'] == 10 and r['b'] == 60 or r['id'].startswith('1-'))
    with ThreadPoolExecutor(4) as ex:
        later = [ex.submit(run, ck, j) for j in jobs]
        ck.tlc('Resolution', spec='Spec', invariants=['Same'], env=dict(JOBS=some), expect_violation=True)
        res = ck.tlc('Resolution', spec='Spec', invariants=['Some', 'Sure', 'Near'], properties=['Finishes'], env=dict(JOBS=fn))
        runs = [r.result() for r in later]
    want = {c['id']: c['out'] for c in res.cases}
    seen = dict(exact=0, between=0, none=0)
    for j, r in zip(jobs, runs):
        ck.trace()
        if not ck.expect(r.rc == 0, 'exit', f'run at {j["b"]} m exits with {r.rc}', r.log[-300:]):
            continue
        n = SIDE // j['b']
        for name in BANDS:
            R = r.product(0, 0, f'_{name}_TSS')
            if not ck.expect(R is not None and R.nb == len(j['obs']) and (R.nx, R.ny) == (n, n) and R.gt[1] == j['b'], 'shape', f'{name} at {j["b"]} m: no product of {n}x{n} cells and {len(j["obs"])} dates'):
                continue
            for t, o in enumerate(j['obs']):
                tol = 1 if j['psf'] and o['a'] < j['b'] else 0
                for y, cells in enumerate(want[f'{j["id"]}-{t}-{name}']):
                    for x, w in enumerate(cells):
                        got = int(R.data[t, y, x])
                        ck.count()
                        ok = w['none'] if got == NODATA else any(lo - tol <= got <= hi + tol for lo, hi in w['vals'])
                        seen['none' if got == NODATA else 'between' if any(hi - lo > 1 for lo, hi in w['vals']) else 'exact'] += 1
                        if not ok:
                            ck.violation('psf' if tol else 'nearest', f'run {j["id"]}, {name} of {o["sensor"]} with pixels of {o["a"]} m in the {j["b"]} m cell ({y},{x}), strips of {j["strip"]} m'
                                         f'{", mask of %d m" % j["m"] if j["masked"] else ""}: {got}, expected {w}')
    ck.notes['cells'] = seen
    ck.sample(dict(job=recs[3]['id'], row=want[recs[3]['id']][0][:4]))
