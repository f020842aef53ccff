"""L12: optional Level 2 products follow reflectance and quality."""
import glob, json, os, re
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vf
import sats
from level2 import *
from cube import Raster

DAY = '20180615'
SNOW = {'1': 30000, '2': 30000, '3': 29000, '4': 28000, '5': 24000, '6': 7000, '7': 6500, '10': 23500}
BRIGHT = {'1': 30000, '2': 30000, '3': 30000, '4': 30000, '5': 30000, '6': 30000, '7': 30000, '10': 22000}
SHADE = {'1': 6000, '2': 6000, '3': 6000, '4': 5900, '5': 8000, '6': 6500, '7': 6000}
KINDS = ['DST', 'VZN', 'HOT', 'AOD', 'WVP', 'OVV']


def make(rng, n):
    ny, nx = rng.randint(12, 20), rng.choice([rng.randint(12, 20), rng.randint(24, 36)])
    w = np.zeros((ny, nx), int)
    p = rng.choice([0, 0.01, 0.03, 0.1])
    for r in range(ny):
        for c in range(nx):
            v = rng.random()
            w[r, c] = CIR if v < p else SATW if v < p + 0.03 else 0
    if n % 4 == 1:
        w[:, :rng.randint(3, 6)] = OFF
    block = None
    if n % 5 < 3:
        block = ('snow' if n % 5 < 2 else 'bright', rng.randint(2, ny - 6), rng.randint(6, nx - 6), rng.randint(1, 4))
    return dict(kind='image', block=block, w=settled(w.tolist()), atmo=n % 3 == 0, want={k: rng.random() < 0.6 or (k in ('DST', 'HOT')) for k in KINDS}, wvp=rng.choice([0.3, 1.25, 2, 4.5]), threads=rng.choice([1, 4]), n=n)


def overview(rng, n):
    """zones of 80 pixels: overviews have a fifth of the resolution, and are compressed in blocks"""
    zones = [rng.choice(['plain', 'cirrus', 'saturated', 'off', 'bright', 'snow', 'dark', 'both']) for _ in range(9)]
    zones[0], zones[8] = 'plain', 'dark'
    zones[4] = ['plain', 'snow', 'saturated', 'bright'][n % 4]
    a = {b: np.full((240, 240), v) for b, v in BASE.items()}
    r = np.random.RandomState(rng.randrange(1 << 30))
    for b in ('5', '6', '7'):
        a[b] = a[b] + r.randint(0, 300, (240, 240))
    for k, z in enumerate(zones):
        s = np.s_[80 * (k // 3):80 * (k // 3) + 80, 80 * (k % 3):80 * (k % 3) + 80]
        lift = rng.choice([0, 700, 1500, 8000]) if k else 8000
        if z == 'plain':
            for b in ('2', '3', '4'):
                a[b][s] += lift + 400 * int(b)
            a['5'][s] += lift
            a['6'][s] += lift
        elif z in ('cirrus', 'both'):
            a['9'][s] = CIRRUS
        if z in ('saturated', 'both'):
            a['6'][s] = SAT
        elif z == 'off':
            for b in a:
                a[b][s] = 0
        elif z == 'bright':
            for b, v in BRIGHT.items():
                a[b][s] = v
        elif z == 'snow':
            for b, v in SNOW.items():
                a[b][s] = v
        elif z == 'dark':
            a['2'][s] = 5400        # less than the atmosphere reflects
    return dict(kind='overview', arrs=a, zones=zones, size=240, atmo=n % 2 == 1)


def image(j):
    if 'arrs' in j:
        return j['arrs']
    a = dns(j['w'], j['n'])
    if j['block']:
        z, y, x, m = j['block']
        a = {b: np.array(v) for b, v in a.items()}
        on = np.zeros(np.shape(j['w']), bool)
        on[y:y + m, x:x + m] = True
        on &= np.array(j['w']) & OFF == 0
        for b, v in (SNOW if z == 'snow' else BRIGHT).items():
            a[b][on] = v
    return a


def whole(tiles, band):
    """the image put together from its tiles"""
    out = np.full((60, 60), -9999)
    for (x, y), d in tiles.items():
        out[20 * y:20 * y + 20, 20 * x:20 * x + 20] = d[band]
    return out


def shade(rng, n):
    """a cloud and the dark pixels north-west of it, away from the sun"""
    size, m, d = (60, rng.randint(10, 13), rng.randint(24, 30)) if n else (320, 120, 138)
    a = {b: np.full((size, size), v) for b, v in BASE.items()}
    r = np.random.RandomState(rng.randrange(1 << 30))
    for b in ('5', '6', '7'):
        a[b] = a[b] + r.randint(0, 300, (size, size)) + 5000
    y, x = (rng.randint(d + 2, size - m - 2), rng.randint(d // 2 + 4, size - m - 2)) if n else (190, 140)
    for b, v in SHADE.items():
        a[b][y - int(d * 0.87):y - int(d * 0.87) + m, x - d // 2:x - d // 2 + m] = v
    for b, v in BRIGHT.items():
        a[b][y:y + m, x:x + m] = v
    return dict(kind='image' if n else 'overview', arrs=a, w=np.zeros((size, size), int).tolist(), atmo=False, want={k: k == 'DST' for k in KINDS}, wvp=1, threads=4, n=n, zones='cloud and shadow', size=size)


def run(ck, j):
    if j['kind'] == 'overview':
        c = L2Cube(ck, j['size'], j['size'], OUTPUT_OVV='TRUE', DO_ATMO='TRUE' if j['atmo'] else 'FALSE')
        rc, log = c.process(j['arrs'], *ul_of(0, 0))
        return rc, log, c, {}
    c = L2Cube(ck, 20, 20, DO_ATMO='TRUE' if j['atmo'] else 'FALSE', WATER_VAPOR=j['wvp'], NTHREAD=j['threads'], **{f'OUTPUT_{k}': 'TRUE' if v else 'FALSE' for k, v in j['want'].items()})
    rc, log = c.process(image(j), *ul_of(0, 0))
    # haze is computed from reflectance at the top of the atmosphere
    t = L2Cube(ck, 20, 20)
    t.process(image(j), *ul_of(0, 0))
    return rc, log, c, {k: r.data for k, r in t.tiles('TOA').items()}


def main(ck):
    jobs = [make(ck.rng, n) for n in range(48 if ck.thorough else 18)] + [shade(ck.rng, n) for n in range(6 if ck.thorough else 3)] + [overview(ck.rng, n) for n in range(12 if ck.thorough else 5)]
    ck.bdir
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: run(ck, j), jobs))
    recs, keep = [], []
    for j, (rc, log, c, toa) in zip(jobs, res):
        prods, tiles = {}, {}
        for f in glob.glob(c.out + f'/X*_Y*/{DAY}_LEVEL2_LND08_*.*'):
            m = re.match(r'.*/X(\d+)_Y(\d+)/.*_([A-Z]{3})\.(tif|jpg)$', f)
            if m:
                x, y, p = int(m.group(1)), int(m.group(2)), m.group(3)
                tiles.setdefault((x, y), set()).add(p)
                prods.setdefault(p, {})[(x, y)] = Raster(f).data
        what = f"products {[k for k in KINDS if j['want'][k]]}, {'with' if j['atmo'] else 'without'} atmospheric correction" if j['kind'] == 'image' else f"overview of zones {j['zones']}"
        if not ck.expect(rc == 0 and 'QAI' in prods, 'exit', f'{what}: exit {rc}', log[-300:]):
            continue
        if j['kind'] == 'image':
            ny, nx = len(j['w']), len(j['w'][0])
            asked = {k for k in KINDS if j['want'][k]} | {'QAI', 'BOA' if j['atmo'] else 'TOA'}
            if not ck.expect(all(v == asked for v in tiles.values()) and set(toa) == set(tiles), 'products', f'{what}: {({k: sorted(v) for k, v in tiles.items()})} are written, and {sorted(toa)} without optional products'):
                continue
            q = whole(prods['QAI'], 0)
            q[q == -9999] = 1
            t = np.array([whole(toa, b) for b in range(3)])
            recs.append(dict(kind='image', word=q[:ny, :nx].tolist(), blue=t[0, :ny, :nx].tolist(), red=t[2, :ny, :nx].tolist(), res=30, vapour=round(j['wvp'] * 1000) if j['atmo'] else -1))
        else:
            if not ck.expect('OVV' in prods and prods['OVV'][(0, 0)].shape == (3, j['size'] // 5, j['size'] // 5), 'overview', f"{what}: overview is {'missing' if 'OVV' not in prods else prods['OVV'][(0, 0)].shape}"):
                continue
            q = prods['QAI'][(0, 0)][0].astype(int)
            # every fifth pixel; a zone counts if all its pixels have the same quality
            recs.append(dict(kind='overview', word=q[::5, ::5].tolist(), blue=[], red=[], res=30, vapour=-1))
        keep.append((j, prods, what))
    fn = ck.dir('jobs') + '/j.json'
    open(fn, 'w').write(''.join(json.dumps(x) + '\n' for x in recs))
    if not recs:
        return
    r = ck.tlc('Extras', spec='Spec', invariants=['Lipschitz'], properties=['Ends'], env=dict(JOBS=fn))
    ck.tlc('Extras', spec='Spec', invariants=['Clear'], env=dict(JOBS=fn), expect_violation=True)
    want = {c['i'] - 1: c['out'] for c in r.cases}
    zones, words = {}, {}
    for k, (j, prods, what) in enumerate(keep):
        ck.count(1)
        ck.trace(1)
        if j['kind'] == 'image':
            ny, nx = len(j['w']), len(j['w'][0])
            e = np.array(want[k])
            for v in {int(v) for row in recs[k]['word'] for v in row}:
                for name, on in (('clear', v == 0), ('cirrus', v >> 1 & 3 == 3), ('cloud', v >> 1 & 3 in (1, 2)), ('shadow', v & 8), ('snow', v & 16)):
                    words[name] = words.get(name, 0) + bool(on)
            for p in ('DST', 'HOT', 'WVP', 'AOD', 'VZN'):
                if p not in prods:
                    continue
                d = whole(prods[p], 0).astype(int)
                if not ck.expect((d[ny:] == -9999).all() and (d[:, nx:] == -9999).all(), 'outside', f'{what}: {p} outside of the image'):
                    continue
                d = d[:ny, :nx]
                off = np.array(recs[k]['word']) & 1 > 0
                if p in ('AOD', 'VZN'):
                    none = (d == -9999)
                    ck.expect((none == (off if p == 'VZN' or j['atmo'] else True)).all(), 'valid', f'{what}: {p} and quality disagree about which pixels are valid')
                    if p == 'VZN':
                        ck.expect(((d[~off] >= 0) & (d[~off] < 900)).all(), 'view', f'{what}: view zenith {d[~off].min()} to {d[~off].max()}')
                elif p == 'HOT':
                    bad = (np.abs(2 * d - e[:, :, 1]) > 2) if not j['atmo'] else (np.abs(2 * d - e[:, :, 1]) > 4)
                    bad |= off & (d != -9999)
                    ck.expect(not bad.any(), 'haze', f'{what}: haze index' + (f' {d[bad][0]} instead of {e[:, :, 1][bad][0] / 2}' if bad.any() else ''))
                else:
                    bad = d != e[:, :, 0 if p == 'DST' else 2] if p == 'DST' else np.abs(d - e[:, :, 2]) > 1
                    if bad.any():
                        y, x = np.argwhere(bad)[0]
                        ck.violation(p, f"{what}: {p} at ({x}, {y}) is {d[y, x]} instead of {e[y, x, 0 if p == 'DST' else 2]}")
            continue
        d = prods['OVV'][(0, 0)].astype(int)
        t = prods['BOA' if j['atmo'] else 'TOA'][(0, 0)].astype(int)
        m = j['size'] // 80
        for z in range(m * m):
            s = (slice(16 * (z // m), 16 * (z // m) + 16), slice(16 * (z % m), 16 * (z % m) + 16))
            cs = {tuple(c) for row in want[k][s[0]] for c in row[s[1]]}
            if len(cs) != 1:
                continue
            c = cs.pop()
            name = c
            if not c:
                v = t[[2, 1, 0]][:, ::5, ::5][(slice(None),) + s]
                if (v.max((1, 2)) - v.min((1, 2))).max() > 60:
                    continue
                c, name = tuple(np.clip(v.mean((1, 2)) / 2500 * 255, 0, 255)), 'plain' if max(v.mean((1, 2))) < 2500 else 'vivid'
            zones[name] = zones.get(name, 0) + 1
            inner = d[(slice(None), slice(s[0].start + 2, s[0].stop - 2), slice(s[1].start + 2, s[1].stop - 2))]
            got = inner.mean((1, 2))
            ck.expect(np.abs(got - c).max() < 12, 'colour', f"{what}: zone {z} should be {[round(v) for v in c]}, but is {got.round().tolist()}")
    ck.notes['zones'], ck.notes['words'] = str(zones), str(words)
    if len(zones) < 4 or not words.get('snow') or not words.get('cirrus'):
        raise vf.CheckError(f'too few kinds of zones and pixels: {zones}, {words}')
    ck.sample(dict(words=jobs[0]['w']))
