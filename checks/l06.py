"""L06: images of all supported satellites are read by their own metadata."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vf
import sats
from l1 import *

HIT = {'LND04': 4, 'LND05': 5, 'LND07': 7, 'LND08': 8, 'LND09': 9, 'LND06': 6}
BASE8 = {'1': 60, '2': 60, '3': 60, '4': 120, '5': 80, '7': 50, '6': 140}
BASE16 = {'1': 8000, '2': 8000, '3': 8500, '4': 8500, '5': 16000, '6': 12000, '7': 9000, '9': 5010, '10': 30000}
BASES = {'01': 900, '02': 800, '03': 900, '04': 700, '05': 1100, '06': 2400, '07': 2800, '08': 3000, '8A': 3100, '09': 1000, '10': 15, '11': 1800, '12': 1000}


def files(sat):
    return sats.MSI if sat.startswith('SEN') else sats.OLI if sat in ('LND08', 'LND09') else sats.TM


def pixel(rng, j, special):
    """digital numbers of one kind of pixel, and heights of noise"""
    f = files(j['sat'])
    n = len(f)
    if j['sat'].startswith('SEN'):
        dn = [BASES[b] * j['quant'] // 10000 - j['add'][k] + rng.randrange(-60, 60) * (b != '10') for k, b in enumerate(f)]
        full, step = 65535, None
    elif n == 9:
        dn = [BASE16[b] + rng.randrange(-300, 300) * (b not in ('9', '10')) for b in f]
        full = 65535
    else:
        dn = [BASE8[b] + rng.randrange(-5, 6) * (b not in ('1', '2', '3', '6')) for b in f]
        full = 255
    cirrus = f.index('9') if n == 9 else f.index('10') if n == 13 else -1
    temp = {7: 6, 9: 8, 13: -1}[n]
    spike = [0] * n
    if special == 'zero':
        dn[rng.choice([k for k in range(n) if k != cirrus])] = 0
    elif special == 'cirrus':
        dn[cirrus] = 0
    elif special == 'full':
        k = rng.choice([k for k in range(n) if k not in (temp, cirrus)])
        dn[k] = full
    elif special == 'nearly':
        dn[rng.choice([k for k in range(n) if k not in (temp, cirrus)])] = full - 1
    elif special == 'negative':
        k = rng.choice([k for k in range(n) if k not in (temp, cirrus)])
        dn[k] = 1
    elif special == 'noise':
        for k, h in zip(rng.sample(range(3), 3), rng.choice([(70, 0, 0), (110, 50, 0), (80, 60, 10), (80, 75, 70), (40, 0, 0), (100, 20, 60)])):
            dn[k] = 60 + h
    if n == 7:
        spike[:3] = [abs(v - 60) for v in dn[:3]]
    return dn, spike


ALL = ['LND05', 'SEN2A', 'LND07', 'SEN2B', 'LND08', 'LND04', 'SEN2C', 'LND09', 'LND07', 'SEN2A', 'SEN2D', 'LND05']
LND = ['LND05', 'LND07', 'LND08', 'LND04', 'LND09']


def make(rng, n, like=None, **extra):
    sat = like or ALL[n % 12]
    j = dict(sat=sat, kind='L1TP', category='T1', tier=1, missing='none', quant=10000, noise=rng.random() < 0.7, second=rng.random() < 0.5, big=False, newoff=False,
             date=rng.choice(['2003-06-15', '2018-06-15', '2021-07-02', '1999-05-30']), gx=rng.randrange(-30, 30), gy=rng.randrange(-30, 30), doatmo=False)
    f = files(sat)
    if sat.startswith('SEN'):
        j['kind'] = '1C'
        j['noise'] = False
        j['quant'] = rng.choice([10000, 10000, 1000, 20000])
        j['newoff'] = rng.random() < 0.6
        j['add'] = [-rng.choice([0, 100, 1000, 400 + k]) * j['quant'] // 10000 if j['newoff'] else 0 for k in range(13)]
        j['mul'] = [0] * 13
        j['big'] = n % 12 == 3 and not extra
    elif len(f) == 9:
        j['add'] = [-1000 - 10 * k for k in range(9)]
        j['mul'] = [rng.choice([2, 3]) for _ in f]
    else:
        j['add'] = [-50 - k for k in range(7)]
        j['mul'] = [rng.randrange(120, 270) for _ in f]
    if extra:                      # is it accepted?
        j.update(extra)
    j['like'] = sat
    specials = [None] * 8 + ['zero', 'zero', 'zero', 'full', 'full', 'cirrus' if len(f) > 7 else 'nearly']
    if not sat.startswith('SEN'):
        specials += ['negative', 'negative']
    if len(f) == 7:
        specials += ['noise'] * 8
    ps = [pixel(rng, dict(j, sat=sat), s) for s in specials]
    j['pixels'], j['spike'] = [p[0] for p in ps], [p[1] for p in ps]
    j['specials'] = specials
    return j


def layout(rng, j):
    """kind of pixel at every place; special ones are surrounded by ordinary ones"""
    plain = [k for k, s in enumerate(j['specials']) if s is None]
    odd = [k for k, s in enumerate(j['specials']) if s]
    n = 40 if not j['like'].startswith('SEN') else 250 if j['big'] else 100          # Sentinel-2: cells of 60 m
    m = np.zeros((n, n), int)
    if j['like'] in ('LND08', 'LND09') or j['like'].startswith('SEN') or not j['noise']:
        m = np.array([[rng.choice(plain) for _ in range(n)] for _ in range(n)])
    else:
        m[:] = plain[0]
    spots = [(r, c) for r in range(4, n - 4, 5) for c in range(4, n - 4, 5)]
    rng.shuffle(spots)
    for q, (r, c) in enumerate(spots[:3 * len(odd)]):
        m[r, c] = odd[q % len(odd)]
    return m


def run(ck, k, j, m):
    sen = j['like'].startswith('SEN')
    f = files(j['like'])
    res = 10 if sen else 30
    size = 1500 if j['big'] else 600 if sen else 40
    cube = L2Cube(ck, size // 2, size // 2, TIER=j['tier'], IMPULSE_NOISE='TRUE' if j['noise'] else 'FALSE', TILE_SIZE=f'{size // 2 * res} {size // 2 * res}')
    ulx, uly = OX + res * (j['gx'] - 1 + FRAC), OY - res * (j['gy'] - 1 + FRAC)
    dn = np.array(j['pixels'])
    if sen:
        sub = {}
        for b in sats.MSI:
            e = 60 // sats.MSIRES[b]
            a = np.kron(dn[m][:, :, f.index(b)], np.ones((e, e), int))
            sub[b] = a
        view = None
        if j['big']:               # the swath covers the two left columns of cells only
            for b in sub:
                sub[b][:, int(sub[b].shape[1] * 2 / 3):] = 0
            view = [[5.0, 5.0, 5.0, None]] * 4
        d = sats.sentinel(cube.top + '/l1', j['sat'][4] if j['sat'] != 'SEN3A' else 'A', sub, ulx, uly, j['date'], quant=j['quant'], add=dict(zip(sats.MSI, j['add'])) if j['newoff'] else None, view=view)
        top = os.path.dirname(os.path.dirname(d)) + '/MTD_MSIL1C.xml'
        s = open(top).read()
        if j['sat'] == 'SEN3A':
            s = s.replace('>Sentinel-2A<', '>Sentinel-3A<')
        open(top, 'w').write(s.replace('Level-1C</PROC', f"Level-{j['kind']}</PROC"))
        if j['missing'] != 'none':
            for g in glob.glob(f"{d}/IMG_DATA/*_B{j['missing']}.jp2"):
                os.remove(g)
    else:
        arrs = {b: dn[m][:, :, q] for q, b in enumerate(f)}
        d = sats.landsat(cube.top + '/l1', HIT[j['like']], arrs, {b: j['mul'][q] * 1e-5 for q, b in enumerate(f)}, {b: j['add'][q] * 1e-4 for q, b in enumerate(f)}, ulx, uly, j['date'], second=j['second'], kind=j['kind'], category=j['category'])
        if j['sat'] == 'LND06':
            t = glob.glob(d + '/*_MTL.txt')[0]
            s = open(t).read()
            open(t, 'w').write(re.sub(r'LANDSAT_\d', 'LANDSAT_6', s))
        if j['missing'] != 'none':
            for g in glob.glob(f"{d}/*_B{j['missing']}*.TIF"):
                os.remove(g)
    rc, log = cube.image(d, timeout=120)
    return cube, rc, log, size, res


def judge(ck, k, j, m, want, cube, rc, log, size, res):
    what = f"image {k} of {j['sat']}, {j['kind']} {j['category']}, tier {j['tier']}, missing file {j['missing']}, {j['date']}"
    got = glob.glob(cube.out + '/X*/*')
    if not want[(k, 0)]['accepted']:
        ck.count(1)
        ck.expect(rc not in (0, 'timeout') and not got, 'refused', f'{what} should not be accepted: exit {rc}, {len(got)} products', log[-300:])
        return
    if not ck.expect(rc == 0, 'exit', f'{what}: exit {rc}', log[-300:]):
        return
    w = want[[key for key in want if key[0] == k and key[1] > 0][0]]
    sen = j['like'].startswith('SEN')
    names = {os.path.basename(g) for g in got}
    pre = j['date'].replace('-', '') + '_LEVEL2_' + j['sat']
    ck.expect(names == {pre + '_TOA.tif', pre + '_QAI.tif'}, 'names', f'{what}: products {sorted(names)}, expected {pre}_*')
    if not any(n.startswith(pre) for n in names):
        return
    lost, bright = np.zeros(len(j['pixels']), bool), np.zeros(len(j['pixels']), bool)
    lost[[q - 1 for q in w['lost']]] = True
    bright[[q - 1 for q in w['bright']]] = True
    vals = np.array([o['values'] for o in w['out']], float) / (1 if sen else 10)
    e = 6 if sen else 1
    M = np.kron(m, np.ones((e, e), int))
    near = np.zeros(M.shape, bool)
    if j['noise']:                 # pixels next to noise may be dropped as well
        for r, c in zip(*np.where(np.array([s is not None for s in j['specials']])[m])):
            near[r - 1:r + 2, c - 1:c + 2] = True
            near[r, c] = False
    off = lost[M]
    if j['big']:
        off[:, 1000:] = True
    ts = size // 2
    gx0, gy0 = j['gx'], j['gy']
    Q, T = cube.tiles('QAI', j['date'].replace('-', '')), cube.tiles('TOA', j['date'].replace('-', ''))
    q = np.full(M.shape, 1)
    t = np.full((len(w['out']),) + M.shape, -9999)
    for xy in T:
        R = T[xy]
        if not ck.expect(R.nb == len(w['out']) and R.names == [o['name'] for o in w['out']], 'bands', f"{what}: bands {R.names}, expected {[o['name'] for o in w['out']]}"):
            return
        if not ck.expect(R.data.shape[1:] == (ts, ts) and xy in Q and Q[xy].data.shape[1:] == (ts, ts) and abs(R.gt[0] - (OX + xy[0] * ts * res)) < 1e-3 and abs(R.gt[3] - (OY - xy[1] * ts * res)) < 1e-3 and R.gt[1] == res,
                         'geometry', f'{what}: tile {xy} is at {R.gt}, {R.data.shape}'):
            return
        # where the tile lies in the image
        x0, y0 = xy[0] * ts - gx0, xy[1] * ts - gy0
        r0, r1, c0, c1 = max(0, y0), min(size, y0 + ts), max(0, x0), min(size, x0 + ts)
        inside = np.zeros((ts, ts), bool)
        if r1 > r0 and c1 > c0:
            q[r0:r1, c0:c1] = Q[xy].data[0, r0 - y0:r1 - y0, c0 - x0:c1 - x0]
            t[:, r0:r1, c0:c1] = R.data[:, r0 - y0:r1 - y0, c0 - x0:c1 - x0]
            inside[r0 - y0:r1 - y0, c0 - x0:c1 - x0] = True
        ck.expect((Q[xy].data[0][~inside] == 1).all(), 'outside', f'{what}: tile {xy} has data outside of the image')
    edge = np.zeros(M.shape, bool)
    edge[[0, 1, -1, -2], :] = True
    edge[:, [0, 1, -1, -2]] = True
    if j['big']:
        edge[:, 990:1010] = True
    use = ~near & ~edge
    ck.count(int(use.sum()))
    bad = np.argwhere(((q & 1) != off) & use)
    if len(bad):
        r, c = bad[0]
        ck.violation('dropped', f"{what}: {len(bad)} pixels, such as row {r} column {c} ({j['specials'][M[r, c]]}, {j['pixels'][M[r, c]]}, add {j['add']}), {'are' if q[r, c] & 1 else 'are not'} dropped")
        return
    keep = use & ~off
    bad = np.argwhere((((q >> 9) & 1) != bright[M]) & keep)
    if len(bad):
        r, c = bad[0]
        ck.violation('saturation', f"{what}: saturation of row {r} column {c} ({j['specials'][M[r, c]]}, {j['pixels'][M[r, c]]}) is {(q[r, c] >> 9) & 1}")
    ck.expect((t[:, off & use] == -9999).all(), 'nodata', f'{what}: dropped pixels have values')
    exp = vals[:, M]
    if not sen:
        f0 = 1 / cos_sun(j['date'])
        fac = float(np.median((t[3] / exp[3])[keep]))
        if not ck.expect(abs(fac / f0 - 1) < 0.005, 'sun', f'{what}: reflectance is multiplied by {fac:.4f}, the position of the sun gives {f0:.4f}'):
            return
        exp = exp * fac
        tol = 2 + exp * 1e-3
    else:
        tol = np.full(exp.shape, 2.01)       # digits may be cut off twice
    ok = (abs(t - exp) <= tol) | (exp > 32000)
    bad = np.argwhere(~ok & keep)
    if len(bad):
        b, r, c = bad[0]
        ck.violation('value', f"{what}: {w['out'][b]['name']} of row {r} column {c} is {t[b, r, c]}, should be {exp[b, r, c]:.1f} (file {w['out'][b]['file']}, {j['pixels'][M[r, c]]}, quantification {j['quant']}, add {j['add']}, mul {j['mul']}); {len(bad)} differ")
    ck.trace(1)


def main(ck):
    jobs = [make(ck.rng, n) for n in range(60 if ck.thorough else 24)]
    # all kinds of processing, for all demands
    combos = [(k, c, t) for k in ('L1TP', 'L1GT', 'L1GS') for c in ('T1', 'T2', 'RT') for t in (1, 2, 3)]
    jobs += [make(ck.rng, 0, LND[(n + ck.seed) % 5], kind=k, category=c, tier=t) for n, (k, c, t) in enumerate(combos)]
    jobs += [make(ck.rng, 0, s, missing=ck.rng.choice(files(s))) for s in LND + ['SEN2A', 'SEN2B']]
    jobs += [make(ck.rng, 0, 'LND05', sat='LND06'), make(ck.rng, 0, 'SEN2A', sat='SEN3A'), make(ck.rng, 0, 'SEN2B', kind='2A'), make(ck.rng, 0, 'SEN2A', kind='1C', tier=3)]
    maps = [layout(ck.rng, j) for j in jobs]
    fn = ck.dir('jobs') + '/j.json'
    with open(fn, 'w') as f:
        for j in jobs:
            f.write(json.dumps({k: j[k] for k in ('sat', 'kind', 'category', 'tier', 'missing', 'quant', 'noise', 'add', 'mul', 'pixels', 'spike')}) + '\n')
    r = ck.tlc('Calib', spec='Spec', invariants=['Complete', 'SameBands', 'Refused'], properties=['Grows', 'Ends'], env=dict(JOBS=fn))
    ck.tlc('Calib', spec='Spec', invariants=['Numbered'], env=dict(JOBS=fn), expect_violation=True)
    want = {(c['i'] - 1, c['band']): c for c in r.cases}
    ck.bdir
    with ThreadPoolExecutor(6) as ex:
        res = list(ex.map(lambda a: run(ck, *a), [(k, j, m) for k, (j, m) in enumerate(zip(jobs, maps))]))
    for k, (j, m, o) in enumerate(zip(jobs, maps, res)):
        judge(ck, k, j, m, want, *o)
    acc = {j['sat'] for k, j in enumerate(jobs) if want[(k, 0)]['accepted']}
    if len(acc) < 6:
        raise vf.CheckError(f'hardly any satellite: {acc}')
    ck.notes['satellites'] = sorted(acc)
    ck.sample(dict(sat=jobs[0]['sat'], pixels=jobs[0]['pixels'][:3]))
