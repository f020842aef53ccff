"""T02: importing rasters and vectors into the data cube."""
import os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from osgeo import gdal
import cube, vf
from importer import Grid, tiles_in, raster_input, vector_input, write_jobs


def make(rng, k, thorough):
    """one job: a sequence of force-cube calls, each with one or more inputs"""
    w, h = rng.choice([(4, 4), (5, 3), (3, 6), (8, 5)])
    dep = k % 3 == 0
    if dep:
        h = w
    if k == 0:
        w, h = 20, 16
        dep = False
    calls, n = [], 0
    for c in range(rng.choice([1, 2, 2, 3])):
        kind = rng.choice(['raster', 'raster', 'vector'])
        attr = kind == 'vector' and rng.random() < 0.6
        many = rng.choice([1, 1, 2, 3])
        ins = []
        for m in range(many):
            # importing a raster again under its name adds to it
            again = kind == 'raster' and many == 1 and rng.random() < 0.5 and any(x['kind'] == 'raster' for cc in calls for x in cc['ins'])
            if again:
                name = rng.choice([x['name'] for cc in calls for x in cc['ins'] if x['kind'] == 'raster'])
            else:
                name = f'IMG{n}'
                n += 1
            if kind == 'raster':
                i = raster_input(rng, name, w, h)
                i['again'] = again
            else:
                i = vector_input(rng, name, w, h, attr)
                i['again'] = False
            ins.append(i)
        calls.append(dict(kind=kind, attr=attr, ins=ins))
    return dict(w=w, h=h, dep=dep, calls=calls, res=rng.choice([10, 30, 20]))


def play(ck, k, j, want):
    rng = __import__('random').Random(ck.seed * 1000 + k)
    g = Grid(ck, j['w'], j['h'], j['res'], deprecated=j['dep'])
    d, src = g.cube('c'), ck.dir('src')
    bad = []
    types = {}
    for c, call in enumerate(j['calls']):
        args, onod = [], rng.choice([255, 250]) if k % 2 else rng.choice([-9999, -1])
        typ = 'Byte' if onod >= 0 else 'Int16'
        for i in call['ins']:
            if i['again']:
                onod, typ = types[i['name']]
        inod = rng.choice([-9999, 255, -1])
        files = []
        for m, i in enumerate(call['ins']):
            types[i['name']] = (onod, typ)
            sub = f'{src}/{c}_{m}'
            base = i['name'] if not (len(call['ins']) == 1 and rng.random() < 0.4) else 'other'
            if call['kind'] == 'raster':
                fn = f'{sub}/{base}.tif'
                g.raster(fn, i, inod, bands=1 if len(call['ins']) > 1 or i['again'] or any(x['again'] for cc in j['calls'] for x in cc['ins']) else rng.choice([1, 2]))
            else:
                ext = rng.choice(['gpkg', 'shp'])
                fn = f'{sub}/{base}.{ext}'
                g.vector(fn, i, base, 'GPKG' if ext == 'gpkg' else 'ESRI Shapefile')
            files.append(fn)
            if base != i['name']:
                args += ['-b', i['name']] if rng.random() < 0.5 else ['--basename', i['name']]
        if call['attr']:
            args += ['-a', 'val'] if rng.random() < 0.5 else ['--attribute', 'val']
        args += ['-s', str(j['res'])] if rng.random() < 0.5 else ['--resolution', str(j['res'])]
        args += ['-n', str(onod)] if rng.random() < 0.5 else ['--nodata', str(onod)]
        args += ['-t', typ] if rng.random() < 0.5 else ['--datatype', typ]
        here = rng.random() < 0.3
        if not here:
            args += ['-o', d]
        rc, log = ck.run([ck.bin + '/force-cube', '-j', '2'] + args + files, cwd=d if here else src, timeout=180)
        if rc != 0:
            bad.append(('fails', f'call {c} exits with {rc}: {log[-200:]}'))
    tiles, other = tiles_in(d)
    if other != ['datacube-definition.prj']:
        bad.append(('leftover', f'the data cube holds {other}'))
    exp = {(n, tuple(t)): a for n, t, a in want}
    got = {}
    for t, td in tiles.items():
        fs = sorted(os.listdir(td))
        if not fs:
            bad.append(('leftover', f'empty tile {t}'))
        for f in fs:
            if f.endswith('.tif'):
                got[f[:-4], t] = f'{td}/{f}'
            else:
                bad.append(('leftover', f'{t}: {f}'))
    for key in sorted(set(exp) - set(got)):
        bad.append(('missing', f'no product {key[0]} in tile {key[1]}'))
    for key in sorted(set(got) - set(exp)):
        bad.append(('extra', f'product {key[0]} in tile {key[1]} without data'))
    for key in sorted(set(got) & set(exp)):
        r = cube.Raster(got[key])
        onod, typ = types[key[0]]
        if not g.placed(r, *key[1]):
            bad.append(('place', f'{key}: {r.nx} x {r.ny} at {r.gt}'))
            continue
        if any(n != onod for n in r.nodata) or r.dtype != typ:
            bad.append(('nodata', f'{key}: nodata {r.nodata}, type {r.dtype}, should be {onod}, {typ}'))
        a = np.array(exp[key]).reshape(j['h'], j['w'])
        a = np.where(a < 0, onod, a)
        for b in range(r.nb):
            if (r.data[b] != a).any():
                bad.append(('values', f'{key} band {b + 1}: {int((r.data[b] != a).sum())} pixels differ: should be {a.tolist()}, is {r.data[b].tolist()}'))
    return bad, len(exp)


def main(ck):
    rng = ck.rng
    jobs = [make(rng, k, ck.thorough) for k in range(60 if ck.thorough else 14)]
    fn = ck.dir('jobs') + '/imports.json'
    write_jobs(fn, [dict(w=j['w'], h=j['h'], inputs=[i for c in j['calls'] for i in c['ins']]) for j in jobs])
    r = ck.tlc('Import', spec='Spec', invariants=['Placed', 'NoEmpty'], properties=['Grows'], env=dict(IMPORTS=fn))
    got = {c['i'] - 1: c['products'] for c in r.cases}
    if len(got) != len(jobs):
        raise vf.CheckError('jobs missing')
    with ThreadPoolExecutor(7) as ex:
        res = list(ex.map(lambda a: play(ck, *a), [(k, j, got[k]) for k, j in enumerate(jobs)]))
    for k, (bad, n) in enumerate(res):
        ck.trace()
        ck.count(n)
        for key, text in bad:
            ck.violation(key, f'job {k}: {text}', dict(job=jobs[k]))
