"""H16: spectral indices are computed from the named bands of each sensor."""
import json, math, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vf
from cube import Cube, Run, NODATA

BANDS = {'LND': 6, 'SEN': 10, 'MOD': 7, 'S1A': 2, 'S1B': 2}
CAP = ['TC-BRIGHT', 'TC-GREEN', 'TC-WET', 'TC-DI']
BASIC = 'NDVI EVI NBR NDTI ARVI SAVI SARVI NDBI NDWI MNDWI NDMI NDSI kNDVI CCI EVI2 ContRemSWIR'.split() + CAP
EDGE = 'NDRE1 NDRE2 CIre NDVIre1 NDVIre2 NDVIre3 NDVIre1n NDVIre2n NDVIre3n MSRre MSRren'.split()
LBANDS, SBANDS = 'BLUE GREEN RED NIR SWIR1 SWIR2'.split(), 'REDEDGE1 REDEDGE2 REDEDGE3 BROADNIR'.split()
NX, NY = 10, 6


def spectra(rng, sensor):
    """a picture of spectra, with those at the edge of definedness"""
    nb = BANDS[sensor[:3]]
    a = rng.integers(1, 6000, (nb, NY, NX))
    flat = a.reshape(nb, -1)
    for p in range(flat.shape[1]):
        kind = p % 6
        if kind == 1:
            flat[:, p] = rng.integers(-800, 9000, nb)
        elif kind == 2:           # sums of zero, equal bands
            v = int(rng.integers(1, 500))
            flat[:, p] = rng.choice([v, -v, 0], nb)
        elif kind == 3:           # a small denominator of the corrected indices
            flat[:, p] = rng.integers(0, 400, nb)
            flat[0, p] = 1200 + rng.integers(0, 400)
        elif kind == 4:
            flat[int(rng.integers(nb)), p] = int(rng.choice([0, 1, -1, 15000, -5000]))
    return a


def job(rng, id, sensors, target, indices, nobs):
    obs = []
    for t in range(nobs):
        s = sensors[t % len(sensors)]
        qai = np.where(rng.random((NY, NX)) < 0.12, rng.choice([1, 2, 4, 6, 8]), 0)
        a = spectra(rng, s)
        a[:, qai == 1] = NODATA
        obs.append((s, f'2018{1 + t:02d}{1 + int(rng.integers(28)):02d}', a, qai))
    return dict(id=id, sensors=sensors, target=target, indices=indices, obs=obs)


def mixture(rng, id, shade, sto, pos, e):
    """exact mixtures of three endmembers"""
    em = np.array([[3, 12, 1], [5, 20, 1], [4, 31, 2], [45, 38, 1], [20, 50, 2], [9, 44, 1]]) * 100
    fr = np.zeros((NY * NX, 3), int)
    for p in range(NY * NX):
        a = int(rng.integers(0, 81))
        b = int(rng.integers(0, 101 - a))
        fr[p] = [a, b, 100 - a - b]
        if not pos and p % 4 == 0:
            fr[p] = [a + 10, -10, 100 - a]
        if shade and fr[p][2] == 100:
            fr[p] = [10, 20, 70]
    spec = (fr @ em.T // 100).T.reshape(6, NY, NX)
    qai = np.where(rng.random((NY, NX)) < 0.1, 4, 0)
    return dict(id=id, sensors=['LND08'], target='LNDLG', indices=['SMA'], obs=[('LND08', '20180303', spec, qai)], mix=fr, e=e, shade=shade, em=em,
                over=dict(SMA_SUM_TO_ONE='TRUE' if sto else 'FALSE', SMA_NON_NEG='TRUE' if pos else 'FALSE', SMA_SHD_NORM='TRUE' if shade else 'FALSE', SMA_ENDMEMBER=e))


def run(ck, j, indices):
    over = dict(j.get('over', {}))
    if over:
        over['FILE_ENDMEM'] = ck.dir('em') + '/em.txt'
        open(over['FILE_ENDMEM'], 'w').write(''.join(' '.join(map(str, r)) + '\n' for r in j['em']))
    cube = Cube(ck.dir('cube'), NX, NY)
    for s, d, a, q in j['obs']:
        cube.ard(0, 0, d, s, a, q, prod='SIG' if s.startswith('S1') else 'BOA')
    return Run(ck, 'TSA', cube.path, dict(SENSORS=' '.join(j['sensors']), TARGET_SENSOR=j['target'], INDEX=' '.join(indices), DATE_RANGE='2018-01-01 2018-12-31', DOY_RANGE='1 365',
               OUTPUT_TSS='TRUE', OUTPUT_TSI='FALSE', OUTPUT_STM='FALSE', INTERPOLATE='NONE', RESOLUTION=10, CHUNK_SIZE=f'{NX * 10} {NY * 5}', NTHREAD_COMPUTE=3,
               PRODUCT_TYPE_MAIN='SIG' if j['target'] == 'VVVHP' else 'BOA', SCREEN_QAI='NODATA CLOUD_OPAQUE CLOUD_BUFFER CLOUD_CIRRUS CLOUD_SHADOW', **over))


def admissible(got, e):
    if e[0] == 'none':
        return got == NODATA
    if e[0] == 'frac':
        v = e[1] / e[2]
    else:
        a, b = e[1], e[2]
        if e[0] == 'kernel':
            t = math.exp(-(a - b) ** 2 / (2 * (0.5 * (a + b)) ** 2))
            v = (1 - t) / (1 + t) * 10000
        else:
            v = (a / b - 1) / math.sqrt(a / b + 1) * 10000
            if abs(v) > 32766:
                return abs(v) < 32770 or got == NODATA
    return abs(got - v) <= 1.001 + abs(v) * 1e-5 if got != NODATA else abs(v + 9999) < 2


def main(ck):
    rng = np.random.default_rng(ck.seed)
    ck.bdir
    n = 6 if ck.thorough else 3
    jobs = [job(rng, 'landsat', ['LND05', 'LND08'], 'LNDLG', BASIC + LBANDS, n),
            job(rng, 'sentinel', ['SEN2A', 'SEN2B'], 'SEN2L', BASIC + EDGE + LBANDS + SBANDS, n),
            job(rng, 'mixed', ['SEN2A', 'LND08'], 'LNDLG', BASIC + LBANDS, n),
            job(rng, 'mixed2', ['LND09', 'SEN2C', 'LND07'], 'LNDLG', BASIC + LBANDS, n),
            job(rng, 'modis', ['MOD01', 'MOD02'], 'MODIS', BASIC + LBANDS + ['SWIR0'], n),
            job(rng, 'three', ['MOD01', 'SEN2B', 'LND08'], 'LNDLG', BASIC, n),
            job(rng, 'radar', ['S1AIA', 'S1BID'], 'VVVHP', ['VV', 'VH'], n)]
    jobs += [mixture(rng, f'mix{i}', *c) for i, c in enumerate([(False, True, True, 1), (True, True, True, 2), (False, True, False, 3), (False, True, False, 2), (True, False, True, 1), (True, True, True, 3)])]
    # subsets change which bands are read at all
    for q in range(24 if ck.thorough else 6):
        sensors, target, pool = [(['LND08', 'SEN2A'], 'LNDLG', BASIC + LBANDS), (['SEN2A'], 'SEN2L', BASIC + EDGE + LBANDS + SBANDS), (['MOD02', 'LND04'], 'LNDLG', BASIC)][q % 3]
        jobs.append(job(rng, f'some{q}', sensors, target, [str(x) for x in rng.permutation(pool)[:int(rng.integers(1, 4))]], 2))
    # what the sensors cannot provide
    no = [(['LND08'], 'LNDLG', EDGE + SBANDS + ['SWIR0', 'VV']), (['LND08', 'SEN2A'], 'LNDLG', EDGE), (['SEN2A'], 'SEN2L', ['SWIR0', 'VH']), (['MOD01'], 'MODIS', EDGE + SBANDS),
          (['S1AIA'], 'VVVHP', BASIC + ['RED'])]
    refused = []
    for m, (sensors, target, pool) in enumerate(no):
        for x in (pool if ck.thorough else [str(v) for v in rng.permutation(pool)[:4]]):
            refused.append(job(rng, f'no{m}-{x}', sensors, target, [x], 1))
    fn = os.path.join(ck.dir('cfg'), 'jobs.ndjson')
    with open(fn, 'w') as f:
        for j in jobs + refused:
            obs = [dict(sensor=s, ok=bool(q[r, c] == 0), spec=a[:, r, c].tolist()) for s, d, a, q in j['obs'] for r in range(NY) for c in range(NX)] if len(j['obs']) > 1 and 'mix' not in j else []
            if 'mix' in j:
                obs = [dict(ok=bool(j['obs'][0][3].ravel()[p] == 0), mix=j['mix'][p].tolist(), e=j['e'], shade=j['shade']) for p in range(NX * NY)]
            f.write(json.dumps(dict(id=j['id'], sensors=j['sensors'], indices=j['indices'], obs=obs)) + '\n')
    with ThreadPoolExecutor(5) as ex:
        later = [ex.submit(run, ck, j, j['indices']) for j in jobs + refused]
        # an unknown name is refused as well, also next to a known one
        bogus = [ex.submit(run, ck, jobs[0], ix) for ix in (['FOO'], ['NDVI', 'NDVI2'], ['RE', 'RED'])]
        res = ck.tlc('Indices', spec='Spec', invariants=['RedEdge'], env=dict(JOBS=fn))
        runs, bogus = [r.result() for r in later], [r.result() for r in bogus]
    want = {c['id']: {o['index']: o for o in c['out']} for c in res.cases}
    for r in bogus:
        ck.expect(r.rc not in (0, 'timeout') and not r.files(), 'unknown', f'an unknown index was not refused: exit {r.rc}, {len(r.files())} files', r.log[-200:])
    for j, r in zip(jobs + refused, runs):
        what = f'{j["id"]} ({" ".join(j["sensors"])})'
        w = want[j['id']]
        ck.trace()
        if not all(o['provided'] for o in w.values()):
            ck.expect(r.rc not in (0, 'timeout') and not [f for f in r.files() if f.endswith('.tif')], 'refuse', f'{what}: {j["indices"]} was not refused, exit {r.rc}', r.log[-200:])
            continue
        if not ck.expect(r.rc == 0, 'exit', f'{what}: exit {r.rc}', r.log[-400:]):
            continue
        order = sorted(range(len(j['obs'])), key=lambda t: j['obs'][t][1])
        for ix, o in w.items():
            R = r.product(0, 0, f'_{ix}_TSS')
            if not ck.expect(R is not None and R.nb == len(order), 'missing', f'{what}: no complete time series of {ix}'):
                continue
            for b, t in enumerate(order):
                for p in range(NX * NY):
                    e, got = o['vals'][t * NX * NY + p], int(R.data[b, p // NX, p % NX])
                    ck.count()
                    if not admissible(got, e) and not (ix == 'SMA' and e[0] == 'frac' and abs(got - e[1] / e[2]) <= 4):
                        s = j['obs'][t]
                        ck.violation(ix, f'{what}: {ix} of {s[0]} spectrum {s[2][:, p // NX, p % NX].tolist()} (usable: {s[3][p // NX, p % NX] == 0}) is {got}, expected {e}')
    ck.sample(dict(job='landsat', NDVI=want['landsat']['NDVI']['vals'][:3]))
