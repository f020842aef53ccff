"""T05: stacks and metadata copies keep band order, values and labels."""
import os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from osgeo import gdal
import cube, vf

NX, NY = 5, 4


def write(fn, nb, seed, nx=NX, ny=NY, nodata=-9999, meta=True, fmt='GTiff'):
    rng = np.random.default_rng(seed)
    a = rng.integers(-3000, 30000, (nb, ny, nx))
    a[:, 0, 0] = 0
    if nodata is not None:
        a[:, 1, :2] = nodata
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    d = gdal.GetDriverByName(fmt).Create(fn, nx, ny, nb, gdal.GDT_Int16)
    d.SetGeoTransform([4000000 + seed % 7, 10, 0, 3000000, 0, -10])
    d.SetProjection(cube.WKT)
    if meta:
        d.SetMetadata({'Version': f'v{seed}', 'Note': 'a = b; c'}, 'FORCE')
    for b in range(1, nb + 1):
        band = d.GetRasterBand(b)
        band.WriteArray(a[b - 1])
        if nodata is not None:
            band.SetNoDataValue(nodata)
        if meta:
            band.SetDescription(f'name {seed} {b}')
            band.SetMetadata({'Domain': f'D{seed}-{b}', 'Date': f'2020-01-{b:02d}'}, 'FORCE')
    d = None
    return a


def stack(ck, k, c, rng_seed):
    import random
    rng = random.Random(rng_seed)
    d = ck.dir(f's{k}')
    other = ck.dir(f'x{k}')
    nodata = rng.choice([-9999, -9999, 0, 255])
    files, arrs = [], []
    for f, nb in enumerate(c['bands'], 1):
        odd = c['odd'][1] if c['odd'][0] == f else ''
        fn = f"{other if odd == 'dir' else d}/{rng.choice('zab')}{f}.tif"
        arrs.append(write(fn, nb, 100 * k + f, nx=NX + (odd == 'cols'), ny=NY + (odd == 'rows'), nodata=nodata))
        files.append(fn)
    out = d + '/stack.vrt'
    before = {f: open(f, 'rb').read() for f in files}
    mode = rng.choice(['absolute', 'absolute', 'inside', 'relative'])
    if mode == 'absolute':
        rc, log = ck.run([ck.bin + '/force-stack', '-o', out, *files], cwd=ck.dir('cwd'))
    elif mode == 'inside':
        rc, log = ck.run([ck.bin + '/force-stack', '-o', 'stack.vrt', *[os.path.relpath(f, d) for f in files]], cwd=d)
    else:
        up = os.path.dirname(d)
        rc, log = ck.run([ck.bin + '/force-stack', '-o', os.path.relpath(out, up), *[os.path.relpath(f, up) for f in files]], cwd=up)
    tag = f"{c['bands']} {c['odd'] if c['odd'][0] else ''} ({mode})"
    bad = []
    if {f: open(f, 'rb').read() for f in files} != before:
        bad.append(('input', f'{tag}: the inputs were changed'))
    if c['odd'][0]:
        if rc == 0 or os.path.exists(out):
            bad.append(('refused', f'{tag}: inconsistent files are stacked (exit {rc}, output {os.path.exists(out)})'))
        return bad
    if rc != 0 or not os.path.exists(out):
        return bad + [('exit', f'{tag}: exit {rc}: {log[-300:]}')]
    r = cube.Raster(out)
    want = np.stack([arrs[f - 1][b - 1] for f, b in c['list']])
    if r.data.shape != want.shape or not np.array_equal(r.data, want):
        which = [i for i in range(min(len(want), r.nb)) if not np.array_equal(r.data[i], want[i])]
        i = which[0] if which else 0
        bad.append(('values', f"{tag}: {r.nb} bands, should be {len(want)}; band {i + 1} is {r.data[i][:2].tolist()}, should be {c['list'][i]}: {want[i][:2].tolist()}"))
    src = [cube.Raster(f) for f in files]
    if r.names != [src[f - 1].names[b - 1] for f, b in c['list']]:
        bad.append(('names', f"{tag}: band names {r.names} for {c['list']}"))
    if r.bmeta != [src[f - 1].bmeta[b - 1] for f, b in c['list']]:
        bad.append(('metadata', f"{tag}: band metadata {r.bmeta} for {c['list']}"))
    if r.nodata != [nodata] * r.nb:
        bad.append(('nodata', f'{tag}: nodata values {r.nodata}, should be {nodata}'))
    if r.gt != src[0].gt or r.meta != src[0].meta:
        bad.append(('file', f'{tag}: geotransform {r.gt}, metadata {r.meta}'))
    # a second run must not touch the stack
    was = open(out, 'rb').read()
    rc, log = ck.run([ck.bin + '/force-stack', '-o', out, *files[::-1]])
    if rc == 0 or open(out, 'rb').read() != was:
        bad.append(('overwritten', f'{tag}: an existing stack is overwritten'))
    return bad


def copy(ck, k, nb, nb2, meta, meta2, fmt):
    d = ck.dir(f'c{k}')
    a, b = d + '/a.tif', d + '/b' + ('.tif' if fmt == 'GTiff' else '.dat')
    write(a, nb, 10 * k + 1, meta=meta)
    arr = write(b, nb2, 10 * k + 2, meta=meta2, fmt=fmt)
    ra, rb = cube.Raster(a), cube.Raster(b)
    was = open(a, 'rb').read()
    rc, log = ck.run([ck.bin + '/force-mdcp', a, b])
    now = cube.Raster(b)
    tag = f'{nb} to {nb2} bands ({fmt}, source {"with" if meta else "without"}, destination {"with" if meta2 else "without"} metadata)'
    bad = []
    if open(a, 'rb').read() != was:
        bad.append(('input', f'{tag}: the source was changed'))
    if not np.array_equal(now.data, arr) or now.nodata != rb.nodata or now.gt != rb.gt:
        bad.append(('values', f'{tag}: values were changed'))
    ref = ra if nb == nb2 else rb
    if (rc == 0) != (nb == nb2):
        bad.append(('exit', f'{tag}: exit {rc}: {log[-200:]}'))
    if fmt == 'GTiff' and not meta and nb == nb2:
        return bad      # nothing to copy: what stays behind is not specified
    if now.names != ref.names or now.bmeta != ref.bmeta or now.meta != ref.meta:
        bad.append(('metadata', f'{tag}: names {now.names}, band metadata {now.bmeta}, metadata {now.meta}; should be {ref.names} {ref.bmeta} {ref.meta}'))
    return bad


def main(ck):
    r = ck.tlc('Stack', spec='Spec', invariants=['Complete', 'Order'], constants=dict(MaxFiles=4 if ck.thorough else 3, MaxBands=3))
    cases = r.cases
    ck.rng.shuffle(cases)
    fine = [c for c in cases if not c['odd'][0]]
    odd = [c for c in cases if c['odd'][0]]
    take = fine[:150 if ck.thorough else 36] + odd[:100 if ck.thorough else 24]
    with ThreadPoolExecutor(8) as ex:
        todo = [ex.submit(stack, ck, k, c, ck.seed * 1000 + k) for k, c in enumerate(take)]
        n = 0
        for nb in (1, 3):
            for nb2 in (1, 3, 4):
                for meta in (True, False):
                    for meta2 in (True, False):
                        n += 1
                        todo.append(ex.submit(copy, ck, n, nb, nb2, meta, meta2, 'ENVI' if n % 4 == 0 else 'GTiff'))
    for t in todo:
        ck.count()
        ck.trace(1)
        for key, text in t.result():
            ck.violation(key, text)
