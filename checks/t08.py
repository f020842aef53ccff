"""T08: tile extents of an area of interest."""
import os, random, re
from concurrent.futures import ThreadPoolExecutor
import cube, vf
from importer import Grid, vector_input, write_jobs


def play(ck, k, j, want):
    rng = random.Random(ck.seed * 1000 + k)
    g = Grid(ck, j['w'], j['h'], 10, deprecated=j['dep'])
    d, work = g.cube('c'), ck.dir('work')
    ext = rng.choice(['gpkg', 'shp'])
    aoi = f"{ck.dir('aoi')}/{rng.choice(['area', 'my_aoi'])}.{ext}"
    g.vector(aoi, j['inputs'][0], os.path.basename(aoi).split('.')[0], 'GPKG' if ext == 'gpkg' else 'ESRI Shapefile')
    kept = {d: sorted(os.listdir(d)), os.path.dirname(aoi): sorted(os.listdir(os.path.dirname(aoi)))}
    allow, cwd, args = work + '/allow-list.txt', work, ['-d', d]
    if rng.random() < 0.6:
        allow = ck.dir('list') + '/' + rng.choice(['tiles.txt', 'allow-list.txt'])
        args += ['-a', allow]
    if rng.random() < 0.3:
        cwd, args = d, args[2:]
        allow = allow if '-a' in args else d + '/allow-list.txt'
    rc, log = ck.run([ck.bin + '/force-tile-extent'] + args + [aoi], cwd=cwd, timeout=180)
    bad = []
    tiles = {tuple(t) for _, t, _ in want}
    if rc != 0:
        bad.append(('fails', f'exits with {rc}: {log[-200:]}'))
    try:
        lines = open(allow).read().split('\n')
    except OSError:
        return [('list', f'no allow-list: {log[-300:]}')], len(tiles)
    n, got = lines[0].strip(), [l.strip() for l in lines[1:] if l.strip()]
    exp = sorted(cube.tile_name(*t) for t in tiles)
    if sorted(got) != exp:
        bad.append(('list', f'tiles {sorted(got)} instead of {exp}'))
    if n != str(len(got)):
        bad.append(('number', f'the first line says {n}, there are {len(got)} tiles'))
    for ax, c in (('X', 0), ('Y', 1)):
        m = re.search(ax + r'_TILE_RANGE\s*=\s*(\S+)\s+(\S+)', log)
        try:
            r = [int(m.group(1)), int(m.group(2))]
        except (AttributeError, ValueError):
            r = m and m.groups()
        e = [min(t[c] for t in tiles), max(t[c] for t in tiles)]
        if r != e:
            bad.append(('range', f'{ax} range {r} instead of {e} for {exp}'))
    for p, fs in kept.items():
        now = sorted(os.listdir(p))
        if [f for f in now if f'{p}/{f}' != allow] != fs:
            bad.append(('leftover', f'{p} holds {now}'))
    left = [f for f in os.listdir(cwd) if f'{cwd}/{f}' != allow and cwd == work] + [f for f in os.listdir(os.path.dirname(allow)) if os.path.dirname(allow) not in (d,) and f'{os.path.dirname(allow)}/{f}' != allow]
    if left:
        bad.append(('leftover', f'left behind: {left}'))
    return bad, len(tiles)


def main(ck):
    rng = ck.rng
    jobs = []
    for k in range(60 if ck.thorough else 18):
        w, h = rng.choice([(4, 4), (5, 3), (3, 6), (10, 8)])
        dep = k % 4 == 0
        h = w if dep else h
        span = rng.choice([1, 2, 3]) if k % 3 else 1
        jobs.append(dict(w=w, h=h, dep=dep, inputs=[vector_input(rng, 'area', w, h, False, point=k % 6 == 5, span=span, n=rng.choice([1, 1, 2, 3]))]))
    fn = ck.dir('jobs') + '/imports.json'
    write_jobs(fn, [dict(w=j['w'], h=j['h'], inputs=j['inputs']) for j in jobs])
    r = ck.tlc('Import', spec='Spec', invariants=['Placed', 'NoEmpty'], properties=['Grows'], env=dict(IMPORTS=fn))
    got = {c['i'] - 1: c['products'] for c in r.cases}
    if len(got) != len(jobs):
        raise vf.CheckError('jobs missing')
    with ThreadPoolExecutor(7) as ex:
        res = list(ex.map(lambda a: play(ck, *a), [(k, j, got[k]) for k, j in enumerate(jobs)]))
    for k, (bad, n) in enumerate(res):
        ck.trace()
        ck.count(n)
        for key, text in bad:
            ck.violation(key, f'job {k}: {text}', dict(job=jobs[k]))
