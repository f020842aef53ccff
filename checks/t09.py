"""T09: a virtual data cube mirrors its source."""
import fnmatch, json, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import cube, tiles, vf

NAMES = ['20200101_LEVEL2_SEN2A_BOA', '20200101_LEVEL2_SEN2A_QAI', '20200202_LEVEL2_LND08_BOA', 'BOA']
PATTERNS = ['*.tif', '*BOA*', '*SEN2A*.tif', '*_LND0?_*', '*QAI.tif', 'BOA.tif', '2020*']


def make(rng, k):
    tl = rng.sample([(x, y) for x in range(-1, 2) for y in range(-1, 2)], rng.randrange(1, 4))
    start = [[t, n] for t in range(1, len(tl) + 1) for n in range(1, 5) if rng.random() < 0.6]
    steps = []
    for _ in range(rng.randrange(1, 4)):
        p = rng.choice(PATTERNS)
        over = rng.randrange(2)
        opts = [['-p', p]] if p != '*.tif' or rng.random() < 0.5 else []
        if rng.random() < 0.4 and opts:
            opts = [['--pattern', p]]
        if over:
            opts.append([rng.choice(['-w', '-w', '--overwrite'])])
        if rng.random() < 0.6:
            opts.append([rng.choice(['-j', '--jobs']), '2'])
        rng.shuffle(opts)
        steps.append(dict(op='virtual', tile=0, name=0, over=over, match=[n for n in range(1, 5) if fnmatch.fnmatchcase(NAMES[n - 1] + '.tif', p)], opts=sum(opts, []),
                          behind=rng.random() < 0.3))
        for _ in range(rng.randrange(0, 3)):
            steps.append(dict(op='add', tile=rng.randrange(1, len(tl) + 1), name=rng.randrange(1, 5), match=[], over=0))
    return dict(tiles=tl, names=NAMES, start=start, steps=steps, bands=[3, 1, 2, 1])


def files(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            if not f.endswith('.aux.xml'):
                p = os.path.join(root, f)
                out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out


def play(ck, k, j, want):
    w = tiles.World(ck, f'{k}', j['tiles'], NAMES, j['bands'], -9999)
    for t in j['tiles']:
        os.makedirs(f'{w.cube.path}/{cube.tile_name(*t)}', exist_ok=True)
    for t, n in j['start']:
        w.add(t, n)
    if k % 3 == 1:
        w.bystanders(1)
    dst = ck.dir(f'v{k}')
    bad, stamp = [], {}
    for s, st in enumerate(j['steps'], 1):
        if st['op'] == 'add':
            w.add(st['tile'], st['name'])
            continue
        # copies that are there already are marked, to see whether they are written again
        for c, f in stamp.items():
            with open(f, 'a') as fp:
                fp.write(f'<!-- {s} -->\n')
        marked = files(dst)
        before = files(w.cube.path)
        io = [w.cube.path, dst]
        rc, log = ck.run([ck.bin + '/force-virtual-datacube'] + (io + st['opts'] if st['behind'] else st['opts'] + io), cwd=ck.dir('cwd'))
        tag = f"{' '.join(st['opts'])}"
        if rc != 0:
            bad.append(('exit', f'{tag}: exit {rc}: {log[-300:]}'))
        if files(w.cube.path) != before:
            bad.append(('source', f'{tag}: the source was changed'))
        exp = {}
        for t, n, made in want[s]['copies']:
            exp[f'{cube.tile_name(*w.tiles[t - 1])}/{NAMES[n - 1]}.vrt'] = (t, n, made)
        got = files(dst)
        if got.pop('datacube-definition.prj', None) != before['datacube-definition.prj']:
            bad.append(('definition', f'{tag}: the definition is not a copy'))
        if set(got) != set(exp):
            bad.append(('set', f'{tag}: virtual files missing {sorted(set(exp) - set(got))[:3]}, too much {sorted(set(got) - set(exp))[:3]}'))
        for f in sorted(set(got) & set(exp)):
            t, n, made = exp[f]
            stamp[f] = f'{dst}/{f}'
            kept = f in marked and got[f] == marked[f]
            if f in marked and kept != (made != s):
                bad.append(('overwrite', f'{tag}: {f} was {"kept" if kept else "written again"}'))
            try:
                r = cube.Raster(f'{dst}/{f}')
                src = cube.Raster(w.file(t, n))
            except RuntimeError as e:
                bad.append(('open', f'{f}: {e}'))
                continue
            if r.data.shape != src.data.shape or not np.array_equal(r.data, src.data) or r.gt != src.gt or r.nodata != src.nodata or r.names != src.names:
                bad.append(('values', f'{tag}: {f} differs from its source: {r.data.shape} {r.gt} {r.nodata} {r.names}'))
        if bad:
            break
    return bad


def refusals(ck):
    """another grid is not mixed in"""
    w = tiles.World(ck, 'ref', [(0, 0)], NAMES, [1] * 4, -9999)
    w.add(1, 1)
    dst = ck.dir('vref')
    other = open(w.cube.path + '/datacube-definition.prj').read().replace('TILE_SIZE_X = 40', 'TILE_SIZE_X = 80')
    open(dst + '/datacube-definition.prj', 'w').write(other)
    rc, log = ck.run([ck.bin + '/force-virtual-datacube', w.cube.path, dst])
    ck.count()
    ck.expect(rc != 0 and files(dst) == {'datacube-definition.prj': other.encode()}, 'refused', f'a cube with another definition: exit {rc}, files {sorted(files(dst))}')


def main(ck):
    jobs = [make(ck.rng, k) for k in range(60 if ck.thorough else 18)]
    fn = ck.dir('jobs') + '/j.json'
    with open(fn, 'w') as f:
        for j in jobs:
            f.write(json.dumps(dict(tiles=j['tiles'], names=j['names'], start=j['start'], steps=[{a: s[a] for a in ('op', 'tile', 'name', 'match', 'over')} for s in j['steps']])) + '\n')
    r = ck.tlc('Mosaic', spec='Spec', invariants=['Fresh', 'Single'], env=dict(JOBS=fn))
    want = {}
    for c in r.cases:
        want.setdefault(c['i'] - 1, {})[c['step']] = c
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda a: play(ck, a[0], a[1], want[a[0]]), enumerate(jobs)))
    for j, bad in zip(jobs, res):
        ck.trace(1)
        ck.count(len(j['steps']))
        for key, text in bad:
            ck.violation(key, text, j)
    refusals(ck)
