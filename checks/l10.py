"""L10: sharpening of Sentinel-2 changes only what it may change."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vf
import sats
from l1 import *

SIDE = 2400
N = 14                 # pixels of a patch
GAP = 24               # distance of patches
BASE = {'01': 900, '02': 700, '03': 800, '04': 600, '05': 1200, '06': 2400, '07': 2900, '08': 3000, '8A': 3100, '09': 900, '10': 20, '11': 1700, '12': 900}
FINE = ['03', '04', '08']
COARSE = ['05', '06', '07', '8A', '11', '12']
ORDER = ['02', '03', '04', '05', '06', '07', '08', '8A', '11', '12']
METHODS = ['IMPROPHE', 'REGRESSION', 'STARFM']


def block(a):
    return np.repeat(np.repeat(a, 2, 0), 2, 1)


def patch(rng, k):
    """values relative to the surroundings; multiples of 110 (or few at all), so that no sum of differences is near a threshold"""
    h = N // 2
    r = np.random.RandomState(rng.randrange(1 << 30))
    kind = ['random', 'weak', 'linear', 'edge', 'hole', 'sparse'][k % 6]
    amp = {'random': [0, 0, 0, 110, 220], 'weak': [0, 10, 20], 'linear': [0, 110, 220, 330], 'edge': [0], 'hole': [0, 0, 110], 'sparse': [0] * 30 + [110]}[kind]
    step = [0, 0, 70, 140, 350] if kind != 'weak' else [0, 35]
    fine = [r.choice(amp, (N, N)) for _ in range(3)]
    coarse = [block(r.choice(step, (h, h))) for _ in range(6)]
    hole = np.zeros((N, N), bool)
    if kind == 'linear':
        fine = [block(r.choice(amp, (h, h))) for _ in range(3)]
        coarse = [fine[b % 3] + fine[(b + 1) % 3] * (b // 3) for b in range(6)]
    if kind == 'edge':
        e = np.arange(N)[None, :] + np.zeros((N, 1), int) >= (N // 2 + r.randint(-3, 4)) if k % 2 else np.arange(N)[:, None] + np.zeros((1, N), int) >= (N // 2 + r.randint(-3, 4))
        fine = [e * v for v in r.choice([110, 220, 440], 3)]
        coarse = [block((e[::2, ::2]) * v) for v in r.choice([70, 210, 420], 6)]
    if kind == 'sparse':
        coarse = [block(r.choice([0] * 20 + [280], (h, h))) for _ in range(6)]
    if kind == 'hole':
        hole[6:8, 6:8] = True
    return dict(fine=fine, coarse=coarse, hole=hole, linear=kind == 'linear', kind=kind)


def image(ck, arrs, method, threads=1):
    cube = L2Cube(ck, 40, 40, TILE_SIZE='6000 6000', RES_MERGE=method, NTHREAD=threads)
    d = sats.sentinel(cube.top + '/l1', 'A', arrs, OX - 3, OY + 3, '2018-06-15')
    rc, log = cube.image(d, timeout=200)
    t, q = cube.tiles('TOA'), cube.tiles('QAI')
    return rc, log, (t[(0, 0)].data.astype(int) if (0, 0) in t else None), (q[(0, 0)].data[0].astype(int) if (0, 0) in q else None), set(t)


def main(ck):
    n = SIDE // 10
    pos = [(y, x) for y in range(26, n - 40, GAP) for x in range(26, n - 40, GAP)]
    patches = [patch(ck.rng, k) for k in range(len(pos))]
    full = {b: np.full((n, n), BASE[b]) for b in sats.MSI}
    for p, (y, x) in zip(patches, pos):
        for b, v in list(zip(FINE, p['fine'])) + list(zip(COARSE, p['coarse'])):
            full[b][y:y + N, x:x + N] += v
        for b in FINE + COARSE + ['02']:
            full[b][y:y + N, x:x + N][p['hole']] = 0
    arrs = {b: a[::sats.MSIRES[b] // 10, ::sats.MSIRES[b] // 10] for b, a in full.items()}
    ck.bdir
    none = image(ck, arrs, 'NONE')
    if not ck.expect(none[0] == 0 and none[2] is not None and none[3] is not None, 'none', f'without sharpening: exit {none[0]}', none[1][-300:]):
        return
    toa, qai = none[2][:, :n, :n], none[3][:n, :n]
    off = ((qai & 1) | (qai & 6) | (qai & 8)) != 0
    nodata = (qai & 1) != 0
    if off.mean() > 0.6 or not any(off[y:y + N, x:x + N].any() for y, x in pos):
        raise vf.CheckError(f'unexpected clouds or gaps: {off.mean()}')
    use = [k for k, (y, x) in enumerate(pos) if not (off[y - 5:y + N + 5, x - 5:x + N + 5].sum() - off[y:y + N, x:x + N].sum())]
    if not ck.thorough:
        use = use[:48]
    if len(use) < 20:
        raise vf.CheckError(f'only {len(use)} usable patches')
    fn = ck.dir('jobs') + '/j.json'
    with open(fn, 'w') as f:
        for k in use:
            y, x = pos[k]
            p = patches[k]
            f.write(json.dumps(dict(n=N, fine=[v.tolist() for v in p['fine']], coarse=[v.tolist() for v in p['coarse']], off=off[y:y + N, x:x + N].astype(int).tolist(), linear=p['linear'])) + '\n')
    with ThreadPoolExecutor(4) as ex:
        runs = {m: ex.submit(image, ck, arrs, m) for m in METHODS}
        more = {m: ex.submit(image, ck, arrs, m, 4) for m in METHODS}
        r = ck.tlc('Sharpen', spec='Spec', invariants=['Own'], properties=['Ends'], env=dict(JOBS=fn))
        ck.tlc('Sharpen', spec='Spec', invariants=['Nothing'], env=dict(JOBS=fn), expect_violation=True)
        runs = {m: f.result() for m, f in runs.items()}
        more = {m: f.result() for m, f in more.items()}
    want = {use[c['i'] - 1]: c['out'] for c in r.cases}
    tens = [ORDER.index(b) for b in ['02'] + FINE]
    twenties = [ORDER.index(b) for b in COARSE]
    seen = dict(even=0, lawful=0, choice=0)
    for m in METHODS:
        rc, log, t, q, tiles = runs[m]
        ck.count(1)
        if not ck.expect(rc == 0 and t is not None and q is not None and t.shape == none[2].shape and tiles == none[4], 'exit', f'{m}: exit {rc}', log[-300:]):
            continue
        ck.trace(1)
        o = more[m]
        ck.expect(o[0] == 0 and o[2] is not None and (o[2] == t).all(), 'threads', f'{m}: four threads give another result than one' + ('' if o[2] is None else f' at {int((o[2] != t).any(0).sum())} pixels'))
        ck.expect((q == none[3]).all(), 'quality', f'{m}: the quality product changes')
        t = t[:, :n, :n]
        for b in tens:
            ck.expect((t[b] == toa[b]).all(), 'fine', f'{m}: the 10 m band {ORDER[b]} changes at {int((t[b] != toa[b]).sum())} pixels')
        ck.expect((t[:, nodata] == toa[:, nodata]).all(), 'nodata', f'{m}: pixels without data change')
        if m != 'STARFM':
            ck.expect((t[:, off] == toa[:, off]).all(), 'cloud', f'{m}: cloud or shadow pixels change')
        moved = 0
        for k in use:
            y0, x0 = pos[k]
            for y, row in enumerate(want[k]):
                for x, c in enumerate(row):
                    if c['off']:
                        continue
                    for q_, b in enumerate(twenties):
                        v, w = int(t[b, y0 + y, x0 + x]), int(toa[b, y0 + y, x0 + x])
                        moved += abs(v - w) > 5
                        where = f"{m}: patch {k} ({patches[k]['kind']}), pixel ({x}, {y}), band {ORDER[b]}"
                        if c['even']:
                            seen['even'] += 1
                            ck.expect(abs(v - w) <= 2, 'even', f'{where}: even surroundings of {w} become {v}')
                        if m == 'REGRESSION' and c['lawful']:
                            seen['lawful'] += 1
                            ck.expect(abs(v - w) <= 6, 'lawful', f'{where}: {w} follows the 10 m bands linearly, but becomes {v}')
                        if m == 'IMPROPHE':
                            lo, hi = c['between'][q_]
                            seen['choice'] += lo < hi
                            ck.expect(BASE[COARSE[q_]] + lo - 3 <= v <= BASE[COARSE[q_]] + hi + 1, 'between', f'{where}: {v} is not between {BASE[COARSE[q_]] + lo} and {BASE[COARSE[q_]] + hi}')
        ck.expect(moved > 100, 'sharpened', f'{m}: hardly anything is sharpened ({moved})')
    if min(seen.values()) < 50:
        raise vf.CheckError(f'too few of some kind: {seen}')
    ck.notes["seen"] = str(seen)
    ck.sample(dict(kinds=[patches[k]['kind'] for k in use]))
