"""H14: output layout options never change the content of products."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import vf, l1, level2
from cube import tile_name, Raster
from mods import World, content, NCOL, NROW, RES

FORMATS = {
    'GTiff': ('GTiff', 'tif', None),
    'COG': ('COG', 'tif', None),
    'ENVI': ('ENVI', 'dat', None),
    'custom-tif': ('CUSTOM', 'tiff', 'DRIVER = GTiff\nEXTENSION = tiff\nCOMPRESS = LZW\nTILED = NO\n'),
    'custom-envi': ('CUSTOM', 'bsq', 'DRIVER = ENVI\nEXTENSION = bsq\nINTERLEAVE = BIL\n'),
    'custom-img': ('CUSTOM', 'img', 'DRIVER = HFA\nEXTENSION = img\n'),
    'custom-cog': ('CUSTOM', 'tif', 'DRIVER = COG\nEXTENSION = tif\nBLOCKSIZE = 128\nCOMPRESS = DEFLATE\n'),
}
SIDE = ('.hdr', '.xml', '.HDR')


def params(ck, fmt):
    name, ext, text = FORMATS[fmt]
    p = dict(OUTPUT_FORMAT=name)
    if text:
        p['FILE_OUTPUT_OPTIONS'] = ck.dir('opt') + '/options.txt'
        open(p['FILE_OUTPUT_OPTIONS'], 'w').write(text)
    return p, ext


def products(base):
    """products of a reference run: tile, product, name, bands"""
    out = []
    for f in sorted(base):
        t, fn = f.split('/')
        stem = os.path.splitext(fn)[0]
        out.append(dict(tile=t, base=stem, names=base[f]['names'], ref=base[f]))
    return out


def rasters(out):
    fs = {}
    for d, _, names in os.walk(out):
        for n in names:
            rel = os.path.relpath(os.path.join(d, n), out)
            if '/' in rel and not n.endswith(SIDE):
                fs[rel] = os.path.join(d, n)
    return fs


def product_name(module, stem):
    """the product a file name ends with"""
    return stem.split('_')[-1]


def main(ck):
    rng = ck.rng
    ck.bdir
    W = World(ck, seed=ck.seed)
    R = W.runs()
    del R['L2I']
    skip = set()
    if not ck.thorough:
        skip = {'TSA-fold', 'TSA-rbf', 'TSA-harmonic', 'BAP-all', 'MLR', 'TSA-nrt', 'TSA-adjust'}
    R = {n: s for n, s in R.items() if n not in skip}
    with ThreadPoolExecutor(7) as ex:
        ref = dict(zip(R, ex.map(lambda n: W.run(R[n], dict(OUTPUT_FORMAT='GTiff', OUTPUT_EXPLODE='FALSE', OUTPUT_SUBFOLDERS='FALSE')), R)))
    jobs, work = [], []
    fmts = list(FORMATS)
    rng.shuffle(fmts)
    n = 0
    for name in R:
        r = ref[name]
        base = content(r)
        if r.rc != 0 or not base:
            raise vf.CheckError(f'{name}: exit {r.rc} {r.log[-300:]}')
        prods = products(base)
        tiles = sorted({p['tile'] for p in prods})
        xy = {tile_name(*t): t for t in W.tiles}
        for k in range(6 if ck.thorough else 2):
            fmt = fmts[n % len(fmts)]
            n += 1
            explode, sub = (k % 2 == 0), (k == 1 or rng.random() < 0.5)
            layout = rng.choice([(1, 1), (2, 1), (1, 3), (3, 2)])
            over, ext = params(ck, fmt)
            over.update(OUTPUT_EXPLODE=str(explode).upper(), OUTPUT_SUBFOLDERS=str(sub).upper(), CHUNK_SIZE=f'{NCOL * RES // layout[0]} {NROW * RES // layout[1]}', NTHREAD_WRITE=rng.choice((1, 3)))
            jid = f'{name}#{k}'
            jobs.append(dict(id=jid, tiles=[[*xy[t], t] for t in tiles], ox=4000000, oy=3000000, res=RES, nx=NCOL, ny=NROW, explode=int(explode), sub=int(sub), ext=ext, together=['BAP', 'OVV'],
                             products=[dict(tile=tiles.index(p['tile']) + 1, name=product_name(name, p['base']), base=p['base'], bands=p['names']) for p in prods]))
            work.append((jid, name, over, fmt, {(p['tile'], p['base']): p['ref'] for p in prods}))
    fn = ck.dir('j') + '/jobs.json'
    open(fn, 'w').write(''.join(json.dumps(x) + '\n' for x in jobs))
    res = ck.tlc('Layout', spec='Spec', invariants=['Done', 'OneProduct'], constants=dict(Way='ok'), env=dict(JOBS=fn))
    for way in ('noname', 'flat'):
        ck.tlc('Layout', spec='Spec', invariants=['Done', 'OneProduct'], constants=dict(Way=way), env=dict(JOBS=fn), expect_violation=True)
    want = {c['id']: {os.path.normpath(f['path']): f['f'] for f in c['files']} for c in res.cases}
    with ThreadPoolExecutor(7) as ex:
        runs = list(ex.map(lambda w: W.run(R[w[1]], w[2]), work))
    for (jid, name, over, fmt, refs), run in zip(work, runs):
        what = f'{name}, format {fmt}, ' + ', '.join(f'{k} = {v}' for k, v in over.items() if k in ('OUTPUT_EXPLODE', 'OUTPUT_SUBFOLDERS', 'CHUNK_SIZE'))
        if not ck.expect(run.rc == 0, 'exit', f'{what}: exit {run.rc}: {run.log[-300:]}'):
            continue
        compare(ck, what, want[jid], run.out, refs, sorted({t[2] for t in next(j for j in jobs if j['id'] == jid)['tiles']}))
        ck.trace()
    ck.sample(dict(job=jobs[0]['id'], files=sorted(want[jobs[0]['id']])[:6]))
    ck.notes['runs'] = len(work) + len(ref)
    level2_formats(ck)


def compare(ck, what, want, out, refs, tiles):
    got = rasters(out)
    if set(got) != set(want):
        ck.violation('files', f'{what}: missing {sorted(set(want) - set(got))[:3]}, unexpected {sorted(set(got) - set(want))[:3]}')
    for path in sorted(set(got) & set(want)):
        f = want[path]
        try:
            r = Raster(got[path])
        except Exception as e:
            ck.violation('open', f'{what}: {path} cannot be opened: {e}')
            continue
        gt = (f['ulx'], RES, 0, f['uly'], 0, -RES)
        ck.expect(max(abs(a - b) for a, b in zip(r.gt, gt)) < 1e-6 and r.data.shape[1:] == (f['ny'], f['nx']), 'georeference', f'{what}: {path} has georeference {r.gt} and size {r.data.shape}, expected {gt}')
        if not ck.expect(len(r.data) == len(f['items']), 'bands', f'{what}: {path} has {len(r.data)} bands instead of {len(f["items"])}'):
            continue
        for k, (t, prod, base, band) in enumerate(f['items']):
            ref = refs[(tiles[t - 1], base)]
            i = ref['names'].index(band)
            ck.count(r.data[k].size)
            if ck.expect(r.data[k].shape == ref['data'][i].shape, 'shape', f'{what}: {path} has another size'):
                bad = np.argwhere(r.data[k] != ref['data'][i])
                ck.expect(len(bad) == 0, 'values', f'{what}: band {band} of {path} differs in {len(bad)} pixels, e.g. {bad[:1].tolist()}')
            ck.expect(r.names[k] == band, 'name', f'{what}: band {k + 1} of {path} is called {r.names[k]!r} instead of {band!r}')
            ck.expect(r.nodata[k] == ref['nodata'][i], 'nodata', f'{what}: band {band} of {path} has nodata {r.nodata[k]} instead of {ref["nodata"][i]}')
            m = r.bmeta[k]
            lab = (m.get('Domain'), m.get('Date'), m.get('Sensor'), m.get('Scale'), m.get('Wavelength'))
            ck.expect(lab == ref['labels'][i], 'labels', f'{what}: band {band} of {path} is labelled {lab} instead of {ref["labels"][i]}')
            ck.expect(r.dtype == ref['dtype'], 'type', f'{what}: {path} has another data type')


def level2_formats(ck):
    """the same two images of a day through force-l2ps in several formats"""
    rng = ck.rng
    words = lambda: [[rng.choice((0, 0, 0, 1)) for _ in range(7)] for _ in range(7)]
    imgs = [level2.image(0, 0, words()), level2.image(3, 2, words())]

    def one(fmt):
        over, ext = params(ck, fmt)
        c = level2.L2Cube(ck, 5, 4, **over)
        for k, im in enumerate(imgs, 1):
            rc, log = c.process(level2.dns(im['w'], k), *level2.ul_of(im['x'], im['y']), row=20 + k)
            if rc != 0:
                return fmt, ext, rc, log[-300:], {}
        return fmt, ext, 0, '', {p: c.tiles(p) for p in ('TOA', 'QAI')}

    with ThreadPoolExecutor(4) as ex:
        out = list(ex.map(one, list(FORMATS) if ck.thorough else ['GTiff', 'COG', 'ENVI', 'custom-img']))
    ref = out[0]
    if ref[2] != 0 or not ref[4]['QAI']:
        ck.expect(False, 'l2-exit', f'Level 2, format GTiff: exit {ref[2]}: {ref[3]}')
        return
    for fmt, ext, rc, log, prods in out[1:]:
        what = f'Level 2, format {fmt}'
        if not ck.expect(rc == 0, 'l2-exit', f'{what}: exit {rc}: {log}'):
            continue
        for p in ('TOA', 'QAI'):
            a, b = ref[4][p], prods[p]
            if not ck.expect(set(a) == set(b), 'l2-files', f'{what}: {p} tiles {sorted(b)} instead of {sorted(a)}'):
                continue
            for t in a:
                ck.count(a[t].data.size)
                ck.expect(a[t].data.shape == b[t].data.shape and (a[t].data == b[t].data).all(), 'l2-values', f'{what}: {p} of tile {t} differs')
                ck.expect(max(abs(u - v) for u, v in zip(a[t].gt, b[t].gt)) < 1e-6 and a[t].nodata == b[t].nodata and a[t].names == b[t].names, 'l2-labels', f'{what}: {p} of tile {t}: {b[t].gt, b[t].nodata, b[t].names} instead of {a[t].gt, a[t].nodata, a[t].names}')
                if fmt in ('COG', 'custom-tif', 'custom-cog'):     # others need side files for that, which Level 2 processing does not write
                    ck.expect([m.get('Date') for m in a[t].bmeta] == [m.get('Date') for m in b[t].bmeta], 'l2-date', f'{what}: {p} of tile {t}: dates {[m.get("Date") for m in b[t].bmeta]} instead of {[m.get("Date") for m in a[t].bmeta]}')
