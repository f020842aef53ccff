"""L14: clouds, cirrus, shadows and snow grow by their buffers."""
import json
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vf
from level2 import *
from l12 import BRIGHT, SNOW, SHADE

SIZE = 42
CHOICE = [0, 20, 30, 59, 60, 75, 90, 130, 150, 210]


def make(rng, n):
    a = {b: np.full((SIZE, SIZE), v) for b, v in BASE.items()}
    r = np.random.RandomState(rng.randrange(1 << 30))
    for b in ('5', '6', '7'):
        a[b] = a[b] + r.randint(0, 300, (SIZE, SIZE)) + 5000
    if n % 3 < 2:               # a cloud and its shadow, away from the sun
        m, d = rng.randint(9, 10), rng.randint(24, 26)
        y, x = SIZE - m - rng.randint(1, 4), SIZE - m - rng.randint(1, 10)
        for b, v in SHADE.items():
            a[b][y - int(d * 0.87):y - int(d * 0.87) + m, x - d // 2:x - d // 2 + m] = v
        for b, v in BRIGHT.items():
            a[b][y:y + m, x:x + m] = v
        free = np.ones((SIZE, SIZE), bool)
        free[y - 1:y + m + 1, x - 1:x + m + 1] = False
    else:                       # snow
        for _ in range(rng.randint(1, 3)):
            y, x, m = rng.randrange(SIZE), rng.randrange(SIZE), rng.randint(1, 5)
            for b, v in SNOW.items():
                a[b][y:y + m, x:x + m] = v
        free = np.zeros((SIZE, SIZE), bool)
    for _ in range(rng.choice([1, 3, 6])):
        y, x = rng.randrange(SIZE), rng.randrange(SIZE)
        if free[y, x]:
            a['9'][y, x] = CIRRUS
    if n % 2:
        for b in a:
            a[b][:5, :rng.randint(1, 4)] = 0
    wide = [rng.choice(CHOICE) for _ in range(4)]
    if n < 4:                   # one kind alone
        only = [0, 1, 3, 2][n]
        wide = [rng.choice(CHOICE[4:]) if k == only else 0 for k in range(4)]
    return dict(arrs=a, wide=wide, erase=int(n % 4 == 0 or n % 6 == 1), threads=rng.choice([1, 4]))


def run(ck, j, wide, erase):
    c = L2Cube(ck, 50, 50, NTHREAD=j['threads'], ERASE_CLOUDS='TRUE' if erase else 'FALSE', **dict(zip(('CLOUD_BUFFER', 'CIRRUS_BUFFER', 'SHADOW_BUFFER', 'SNOW_BUFFER'), wide)))
    rc, log = c.process(j['arrs'], *ul_of(0, 0))
    t, b = c.tiles('QAI'), c.tiles('TOA')
    ok = (0, 0) in t and (0, 0) in b
    return rc, log, t[(0, 0)].data[0].astype(int)[:SIZE, :SIZE] if ok else None, b[(0, 0)].data.astype(int)[:, :SIZE, :SIZE] if ok else None


def main(ck):
    jobs = [make(ck.rng, n) for n in range(36 if ck.thorough else 10)]
    ck.bdir
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda k: (run(ck, k, [0] * 4, 0), run(ck, k, k['wide'], k['erase'])), jobs))
    recs, keep = [], []
    for j, (ref, got) in zip(jobs, res):
        what = f"buffers of {j['wide']} m around clouds, cirrus, shadows and snow{', clouds erased' if j['erase'] else ''}"
        if ck.expect(ref[0] == 0 and got[0] == 0 and ref[2] is not None and got[2] is not None, 'exit', f'{what}: exit {ref[0]} without, {got[0]} with buffers', got[1][-300:]):
            recs.append(dict(word=ref[2].tolist(), wide=j['wide'], res=30, erase=j['erase']))
            keep.append((what, got[2], ref[3], got[3]))
    if not recs:
        return
    fn = ck.dir('jobs') + '/j.json'
    open(fn, 'w').write(''.join(json.dumps(r) + '\n' for r in recs))
    r = ck.tlc('Buffers', spec='Spec', invariants=['Kept'], properties=['Ends'], env=dict(JOBS=fn))
    ck.tlc('Buffers', spec='Spec', invariants=['NoGrowth'], env=dict(JOBS=fn), expect_violation=True)
    want = {c['i'] - 1: c['out'] for c in r.cases}
    grown = {}
    for k, (what, q, before, after) in enumerate(keep):
        ck.count(1)
        ck.trace(1)
        ref = np.array(recs[k]['word'])
        ck.expect(((q & 1) == (ref & 1)).all(), 'data', f'{what}: buffers change which pixels have data')
        for y in range(SIZE):
            for x in range(SIZE):
                full = [-9999] * len(before) if want[k][y][x][3] else before[:, y, x].tolist()
                grown['erased'] = grown.get('erased', 0) + int(want[k][y][x][3] and not ref[y, x] & 1)
                if after[:, y, x].tolist() != full:
                    ck.violation('reflectance', f'{what}: reflectance at ({x}, {y}) is {after[:, y, x].tolist()} instead of {full} (quality {ref[y, x]} without buffers)')
        for name, pos, shift, mask in (('cloud', 0, 1, 3), ('shadow', 1, 3, 1), ('snow', 2, 4, 1)):
            f, g = q >> shift & mask, ref >> shift & mask
            grown[name] = grown.get(name, 0) + int((f != g).sum())
            for y in range(SIZE):
                for x in range(SIZE):
                    if not ref[y, x] & 1 and int(f[y, x]) not in want[k][y][x][pos]:
                        ck.violation(name, f'{what}: {name} at ({x}, {y}) is {f[y, x]} instead of {want[k][y][x][pos]}')
    ck.notes['grown'] = str(grown)
    if not all(grown.values()):
        raise vf.CheckError(f'some buffers never widen anything: {grown}')
    ck.sample(dict(wide=jobs[0]['wide']))
