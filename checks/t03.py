"""T03: processing masks from an expression."""
import os, random
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import cube, vf
from importer import Grid, tiles_in, write_jobs


def text(e, rng):
    sp = rng.choice(['', ' '])
    op = e['op']
    if op in ('gt', 'lt', 'ge'):
        return f"A{sp}{dict(gt='>', lt='<', ge='>=')[op]}{sp}{e['k']}"
    if op == 'eq':
        return f"A{sp}=={sp}{e['k']}"
    if op == 'mod':
        return f"A{sp}%{sp}{e['m']}{sp}=={sp}{e['k']}"
    if op == 'not':
        return f"logical_not({text(e['l'], rng)})"
    l, r = text(e['l'], rng), text(e['r'], rng)
    if op == 'and':
        return rng.choice([f'({l}){sp}*{sp}({r})', f'logical_and({l},{sp}{r})'])
    return f'logical_or({l},{sp}{r})'


def expr(rng, depth):
    if depth and rng.random() < 0.6:
        op = rng.choice(['and', 'or', 'not'])
        if op == 'not':
            return dict(op=op, l=expr(rng, depth - 1))
        return dict(op=op, l=expr(rng, depth - 1), r=expr(rng, depth - 1))
    op = rng.choice(['gt', 'lt', 'eq', 'ge', 'mod'])
    if op == 'mod':
        return dict(op=op, m=3, k=rng.randrange(3))
    return dict(op=op, k=rng.randrange(0, 12))


def play(ck, k, j, want):
    rng = random.Random(ck.seed * 1000 + k)
    g = Grid(ck, j['w'], j['h'], j['res'], deprecated=j['dep'])
    d = g.cube('c')
    nod = j['nodata']
    base = rng.choice(['IMG.tif', '2020_LEVEL3_BAP.tif', 'my-image.tif'])
    layer, nb = rng.choice([(1, 1), (1, 2), (2, 3), (3, 3)])
    for t in j['tiles']:
        x, y = t['tile']
        v = np.array(t['vals']).reshape(j['h'], j['w'])
        v = np.where(v < 0, nod if nod is not None else 0, v)
        bands = [v if b + 1 == layer else (v * 7 + b + 3) % 13 for b in range(nb)]
        bands = [np.where(v == nod, nod, b) if nod is not None else b for b in bands]
        name = base if t['has'] else rng.choice(['x' + base, base + '.old', 'other.tif'])
        cube.write_raster(f'{d}/{cube.tile_name(x, y)}/{name}', np.stack(bands), nodata=nod, res=j['res'], ulx=g.ox + x * j['w'] * j['res'],
                          uly=g.oy - y * j['h'] * j['res'], wkt=g.wkt)
    os.makedirs(d + '/mosaic', exist_ok=True)
    cube.write_raster(f'{d}/mosaic/{base}', v, nodata=nod, wkt=g.wkt)
    cube.write_raster(f'{d}/{cube.tile_name(x, y)}/sub/{base}', v, nodata=nod, wkt=g.wkt)
    before = sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)
    out, args, cwd = d, [], d
    if rng.random() < 0.7:
        out = ck.dir('o')
        args += ['-o', out]
        if rng.random() < 0.5:
            g.define(out)
    if rng.random() < 0.6:
        cwd = ck.dir('w')
        args += ['-d', d]
        if out == d:
            args += ['-o', d]
    args += ['-s', str(j['res'])] if j['res'] != 10 or rng.random() < 0.3 else []
    args += ['-l', str(layer)] if layer > 1 or rng.random() < 0.3 else []
    ob = base.split('.')[0] + '_procmask.tif'
    if rng.random() < 0.4:
        ob = 'mask.tif'
        args += ['-b', rng.choice(['mask', 'mask.tif'])]
    ex = text(j['expr'], rng)
    rc, log = ck.run([ck.bin + '/force-procmask', '-j', '2'] + args + [base, ex], cwd=cwd, timeout=180)
    for _ in range(j['again']):
        rc, log = ck.run([ck.bin + '/force-procmask', '-j', '2'] + args + [base, ex], cwd=cwd, timeout=180)
    bad = []
    exp = {cube.tile_name(*m['tile']): m['mask'] for m in want}
    if rc != 0:
        bad.append(('fails', f'{ex}: exits with {rc}: {log[-300:]}'))
    got = sorted(os.path.relpath(os.path.join(p, f), out) for p, _, fs in os.walk(out) for f in fs)
    should = sorted([f'{t}/{ob}' for t in exp] + (before if out == d else ['datacube-definition.prj']))
    if got != should:
        bad.append(('files', f'{ex}: missing {sorted(set(should) - set(got))[:5]}, extra {sorted(set(got) - set(should))[:5]}: {log[-200:]}'))
    for t, m in exp.items():
        if f'{t}/{ob}' not in got:
            continue
        r = cube.Raster(f'{out}/{t}/{ob}')
        x, y = [q['tile'] for q in j['tiles'] if cube.tile_name(*q['tile']) == t][0]
        if not g.placed(r, x, y) or r.nb != 1:
            bad.append(('place', f'{t}: {r.nb} bands of {r.nx} x {r.ny} at {r.gt}'))
            continue
        a = np.array(m).reshape(j['h'], j['w'])
        # pixels without data in the input are not inside the mask
        diff = (r.data[0] == 1) != (a == 1)
        diff |= ((r.data[0] != 0) & (a == 0))
        if diff.any():
            bad.append(('values', f'{ex}: {t}: should be {a.tolist()}, is {r.data[0].tolist()}'))
    return bad, len(exp)


def main(ck):
    rng = ck.rng
    jobs = []
    for k in range(50 if ck.thorough else 16):
        w, h = rng.choice([(4, 4), (5, 3), (3, 6), (10, 8)])
        dep = k % 4 == 0
        h = w if dep else h
        nod = rng.choice([-9999, 255, -9999, None])
        tl = rng.sample([(x, y) for x in range(-2, 3) for y in range(-2, 3)], rng.randrange(2, 6))
        tiles = [dict(tile=t, has=n == 0 or rng.random() < 0.7, vals=[-1 if nod is not None and rng.random() < 0.1 else rng.randrange(0, 12) for _ in range(w * h)])
                 for n, t in enumerate(tl)]
        jobs.append(dict(w=w, h=h, dep=dep, res=rng.choice([10, 10, 30]), nodata=nod, tiles=tiles, expr=expr(rng, 2), again=int(k % 5 == 1)))
    fn = ck.dir('jobs') + '/m.json'
    write_jobs(fn, [dict(tiles=j['tiles'], expr=j['expr']) for j in jobs])
    r = ck.tlc('ProcMask', spec='Spec', invariants=['Complete', 'Binary'], constants=dict(Off=255), env=dict(MASKJOBS=fn))
    got = {c['i'] - 1: c['masks'] for c in r.cases}
    if len(got) != len(jobs):
        raise vf.CheckError('jobs missing')
    with ThreadPoolExecutor(7) as ex:
        res = list(ex.map(lambda a: play(ck, *a), [(k, j, got[k]) for k, j in enumerate(jobs)]))
    for k, (bad, n) in enumerate(res):
        ck.trace()
        ck.count(n)
        for key, t in bad:
            ck.violation(key, f'job {k}: {t}', dict(job=jobs[k]))
