"""T01: a mosaic per product with every tile that has it."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import cube, tiles, vf

NAMES = [
    ['A_B', 'XA_B', 'A_B_C', 'A.B'], ['2020_LEVEL3_BOA', '2020_LEVEL3_BOA_2', '020_LEVEL3_BOA', '2020xLEVEL3xBOA'],
    ['HL_NDV_STM', 'HL_NDV_STM-1', 'L_NDV_STM', 'HL_NDV_ST'], ['p', 'pp', 'ppp', 'q'], ['a+b', 'aab', 'ab', 'a.b'], ['x[1]', 'x1', 'x', '1x1'],
]


def make(rng, k):
    names = rng.choice(NAMES)
    tl = rng.sample([(x, y) for x in range(-1, 3) for y in range(-1, 3)], rng.randrange(2, 5))
    start = [[t, n] for t in range(1, len(tl) + 1) for n in range(1, 5) if rng.random() < 0.6] or [[1, 1]]
    steps = [dict(op='mosaic', tile=0, name=0, match=[], over=0)]
    for _ in range(rng.randrange(0, 3)):
        steps.append(dict(op=rng.choice(['add', 'add', 'remove']), tile=rng.randrange(1, len(tl) + 1), name=rng.randrange(1, 5), match=[], over=0))
    steps.append(dict(op='mosaic', tile=0, name=0, match=[], over=0))
    # never remove the last product of all
    left = {tuple(s) for s in start}
    for s in steps:
        if s['op'] == 'remove' and len(left - {(s['tile'], s['name'])}) == 0:
            s['op'] = 'add'
        if s['op'] == 'remove':
            left.discard((s['tile'], s['name']))
        if s['op'] == 'add':
            left.add((s['tile'], s['name']))
    ext, fmt = rng.choice([('tif', 'GTiff'), ('tif', 'GTiff'), ('dat', 'ENVI')])
    return dict(tiles=tl, names=names, start=start, steps=steps, bands=[rng.randrange(1, 4) for _ in names], nodata=rng.choice([-9999, -9999, 255, 0]), ext=ext, fmt=fmt,
                where=rng.choice(['default', 'absolute', 'inside']))


def play(ck, k, j, want):
    w = tiles.World(ck, f'{k}', j['tiles'], j['names'], j['bands'], j['nodata'], j['ext'], j['fmt'])
    for t, n in j['start']:
        w.add(t, n)
    if k % 3 == 1 and j['start']:
        w.bystanders(j['start'][0][0])
    there = set(os.listdir(w.cube.path))
    if j['where'] == 'default':
        opt, dst = [], None
    else:
        dst = ck.dir(f'm{k}') if j['where'] == 'absolute' else w.cube.path + '/mosaic-x/deep'
        opt = ['-m', dst]
    bad = []
    for s, st in enumerate(j['steps'], 1):
        if st['op'] == 'add':
            w.add(st['tile'], st['name'])
        elif st['op'] == 'remove':
            w.remove(st['tile'], st['name'])
        else:
            before = snapshot(w)
            rc, log = ck.run([ck.bin + '/force-mosaic', '-j', '2', *opt] + (['-e', j['ext']] if j['ext'] != 'tif' else []) + [w.cube.path], cwd=ck.dir('cwd'))
            if rc != 0:
                bad.append(('exit', f'exit {rc}: {log[-300:]}'))
            if snapshot(w) != before:
                bad.append(('tiles', 'the tiles were changed'))
            places = [dst] if dst else [w.cube.path + '/mosaic', w.cube.path]
            found = {}
            for p in places:
                for f in os.listdir(p) if os.path.isdir(p) else ():
                    if os.path.isfile(f'{p}/{f}') and not (p == w.cube.path and f in there):
                        found[f] = f'{p}/{f}'
            exp = {f'{w.names[n]}.vrt': (n + 1, m) for n, m in enumerate(want[s]['mosaics']) if m['tiles']}
            if set(found) != set(exp):
                bad.append(('set', f"mosaics {sorted(found)}, should be {sorted(exp)}"))
            for f, (n, m) in exp.items():
                if f not in found or m['tiles'] != want[s]['mosaics'][n - 1]['tiles']:
                    continue
                if any(not os.path.exists(w.file(t, n)) for t in m['tiles']):
                    continue     # an older mosaic whose files are gone
                a, ul = w.mosaic(n, m['tiles'], m['box'])
                try:
                    r = cube.Raster(found[f])
                except RuntimeError as e:
                    bad.append(('open', f'{f}: {e}'))
                    continue
                ok = r.data.shape == a.shape and np.array_equal(r.data, a) and abs(r.gt[0] - ul[0]) < 1e-6 and abs(r.gt[3] - ul[1]) < 1e-6
                if not ok:
                    bad.append(('values', f"{f}: mosaic of {[w.tiles[t - 1] for t in m['tiles']]} has shape {r.data.shape} at {r.gt[0]}, {r.gt[3]}, should be {a.shape} at {ul}; "
                                f"{int((r.data != a).sum()) if r.data.shape == a.shape else 'all'} values differ"))
                elif any(x is not None and x != w.nodata for x in r.nodata) or (r.nodata[0] is None):
                    bad.append(('nodata', f'{f}: nodata values {r.nodata}, should be {w.nodata}'))
                elif r.names != [f'{w.names[n - 1][-6:]} band {b}' for b in range(1, w.bands[n - 1] + 1)]:
                    bad.append(('names', f'{f}: band names {r.names}'))
        if bad:
            break
    return bad


def snapshot(w):
    out = {}
    for t in range(1, len(w.tiles) + 1):
        d = f'{w.cube.path}/{cube.tile_name(*w.tiles[t - 1])}'
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else ():
            if not f.endswith('.aux.xml') and os.path.isfile(f'{d}/{f}'):
                out[t, f] = open(f'{d}/{f}', 'rb').read()
    return out


def main(ck):
    jobs = [make(ck.rng, k) for k in range(60 if ck.thorough else 16)]
    fn = ck.dir('jobs') + '/j.json'
    open(fn, 'w').write(''.join(json.dumps({a: j[a] for a in ('tiles', 'names', 'start', 'steps')}) + '\n' for j in jobs))
    r = ck.tlc('Mosaic', spec='Spec', invariants=['Fresh', 'Single'], env=dict(JOBS=fn))
    want = {}
    for c in r.cases:
        want.setdefault(c['i'] - 1, {})[c['step']] = c
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda a: play(ck, a[0], a[1], want[a[0]]), enumerate(jobs)))
    for j, bad in zip(jobs, res):
        ck.trace(1)
        ck.count(len(j['steps']))
        for key, text in bad:
            ck.violation(key, f"products {j['names']} ({j['ext']}, nodata {j['nodata']}, mosaic directory {j['where']}): {text}", j)
