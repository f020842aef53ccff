"""T12: imported MODIS images and their quality."""
import glob, os
import numpy as np
from osgeo import gdal
import vf
from cube import Raster

SIN = ('PROJCS["unnamed",GEOGCS["Unknown datum based upon the custom spheroid",DATUM["Not specified (based on custom spheroid)",SPHEROID["Custom spheroid",6371007.181,0]],'
       'PRIMEM["Greenwich",0],UNIT["degree",0.0174532925199433]],PROJECTION["Sinusoidal"],PARAMETER["longitude_of_center",0],PARAMETER["false_easting",0],PARAMETER["false_northing",0],UNIT["Meter",1]]')
TILE, N = 1111950.5196666666, 2400
RES = TILE / N
VALUES = dict(fill=[-28672, -9999, -101, -32768], low=[-101, -150, -28672], neg=[-1, -50, -100], ok=[0, 1, 2500, 9999, 10000], high=[10001, 16000, 12345])
ORDER = [3, 4, 1, 2, 5, 6, 7]        # numbers of the bands by wavelength
FIELD = dict(cloud=(1, 3), shadow=(3, 1), snow=(4, 1), water=(5, 1), aerosol=(6, 3))


def product(fn, refl, state, h, v):
    """all layers of the product, as subdatasets of one file"""
    ulx, uly = -20015109.354 + h * TILE, 10007554.677 - v * TILE
    for k in range(1, 23):
        a = state if k == 2 else refl[k - 11] if 12 <= k <= 18 else np.full(state.shape if k < 11 else refl[1].shape, 100 + k)
        r = RES * (2 if k < 11 else 1)
        d = gdal.GetDriverByName('GTiff').Create(fn, a.shape[1], a.shape[0], 1, gdal.GDT_UInt16 if k == 2 else gdal.GDT_Int16, options=['APPEND_SUBDATASET=YES'] if k > 1 else [])
        d.SetGeoTransform([ulx, r, 0, uly, 0, -r])
        d.SetProjection(SIN)
        d.GetRasterBand(1).WriteArray(a)
        d = None
    return ulx, uly


def judge(ck, what, out, h, v, date, sensor, refl, state, geo, words, cls, expect):
    d = f'{out}/X{h:04d}_Y{v:04d}'
    got = {}
    for p in ('BOA', 'QAI'):
        f = [f for f in glob.glob(f'{d}/*_LEVEL2_{sensor}_{p}.tif') if os.path.basename(f)[:8] in date]
        if not ck.expect(len(f) == 1, 'product', f'{what}: no {p} product of {date[0]} in {d}: {os.listdir(d) if os.path.exists(d) else "no tile"}'):
            return
        got[p] = Raster(f[0])
        g = got[p].gt
        ck.expect(max(abs(g[0] - geo[0]), abs(g[3] - geo[1])) < 0.01 and abs(g[1] - RES) < 1e-4 and abs(g[5] + RES) < 1e-4, 'position', f'{what}: {p} at {g}, image at {geo} with {RES}')
    b, q = got['BOA'].data, got['QAI'].data[0].astype(int)
    if not ck.expect(b.shape == (7,) + refl[1].shape and q.shape == refl[1].shape, 'shape', f'{what}: shapes {b.shape} {q.shape}'):
        return
    ck.expect([n.upper() for n in got['BOA'].names] == ['BLUE', 'GREEN', 'RED', 'NIR', 'SWIR0', 'SWIR1', 'SWIR2'], 'names', f'{what}: bands {got["BOA"].names}')
    big = np.kron(state, np.ones((2, 2), int))
    off = expect['off'][cls]
    say = lambda m: f'row {np.argwhere(m)[0][0]} column {np.argwhere(m)[0][1]}'
    for k, n in enumerate(ORDER):
        bad = b[k] != np.where(off, -9999, refl[n])
        if bad.any():
            ck.violation('reflectance', f'{what}: band {k + 1}, {say(bad)}: {b[k][bad][0]}, input {refl[n][bad][0]}, blue {refl[3][bad][0]}')
    bad = (q & 1 == 1) != off
    if bad.any():
        ck.violation('off', f'{what}: {say(bad)}: quality {q[bad][0]}, blue {refl[3][bad][0]}')
    on = ~off
    for f, (lo, m) in FIELD.items():
        val = (q >> lo) & m
        if f == 'cloud':
            bad = on & ((words[f][big] >> val) & 1 == 0)
        else:
            bad = on & (val != words[f][big])
        if bad.any():
            ck.violation(f, f'{what}: {say(bad)}: {f} is {val[bad][0]}, state word {big[bad][0]:016b}')
    below, above = expect['below'][cls], expect['above'][cls]
    z, s = (q >> 8) & 1, (q >> 9) & 1
    bad = on & ((z & ~below) | (s & ~above) | ((below | above) & ~(z | s).astype(bool))).astype(bool)
    if bad.any():
        ck.violation('range', f'{what}: {say(bad)}: below zero {z[bad][0]}, saturated {s[bad][0]}, reflectances {[int(refl[n][bad][0]) for n in ORDER]}')
    bad = on & ((q >> 10) != 0)
    if bad.any():
        ck.violation('others', f'{what}: {say(bad)}: quality word {q[bad][0]:016b}')
    ck.count(int(q.size) * 8)


def main(ck):
    rng = np.random.RandomState(ck.seed)
    kw = dict(spec='Spec')
    r = ck.tlc('Modis', invariants=['Quiet'], constants=dict(Words=vf.Raw('0 .. 65535') if hasattr(vf, 'Raw') else set(range(65536)), Values={'ok'}, Bands=1, Unused=False), **kw)
    words = {f: np.zeros(65536, int) for f in FIELD}
    for c in r.cases:
        if 'w' in c:
            for f in FIELD:
                words[f][c['w']] = sum(1 << x for x in c['q']['cloud']) if f == 'cloud' else c['q'][f]
    ck.tlc('Modis', invariants=['OneCloud'], constants=dict(Words=set(range(1024)), Values={'ok'}, Bands=1, Unused=False), expect_violation=True, **kw)
    ck.bdir
    vals = ['fill', 'neg', 'ok', 'high']
    for n, (kind, date, h, v) in enumerate([('MOD', (2017, 123), 18, 4), ('MYD', (2018, 1), 0, 9), ('MOD', (2019, 365), 35, 17), ('MYD', (2016, 45), 8, 10), ('MYD', (2020, 200), 21, 3)]):
        r = ck.tlc('Modis', constants=dict(Words={0}, Values=set(vals), Bands=7, Unused=kind == 'MYD'), **kw) if n < 2 else None
        if r:
            ex = [c for c in r.cases if 'refl' in c]
            assert len(ex) == 4 ** 7
            table = {kind: (ex, {k: np.array([c[k] for c in ex]) for k in ('off', 'below', 'above')})} if n == 0 else {**table, kind: (ex, {k: np.array([c[k] for c in ex]) for k in ('off', 'below', 'above')})}
        ex, expect = table[kind]
        size = 512 if n < 2 else 2 * int(rng.randint(4, 40))
        if n < 2:
            state = rng.permutation(65536).reshape(256, 256)
        else:
            state = rng.randint(0, 65536, (size // 2, size // 2))
        cls = rng.permutation(size * size).reshape(size, size) % len(ex)
        kinds = np.array([c['refl'] for c in ex])
        refl = {}
        for k, b in enumerate(ORDER):
            kk = kinds[:, k][cls]
            refl[b] = np.zeros((size, size), int)
            for name in vals:
                m = kk == name
                refl[b][m] = rng.choice(VALUES[name], m.sum())
        d, out = ck.dir('in'), ck.dir('out')
        y, doy = date
        fn = f'{d}/{kind}09GA.A{y}{doy:03d}.h{h:02d}v{v:02d}.006.2021001000000.hdf'
        geo = product(fn, refl, state, h, v)
        rc, log = ck.run([ck.bin + '/force-import-modis', fn, out])
        what = os.path.basename(fn)[:24]
        if not ck.expect(rc == 0, 'exit', f'{what}: exit {rc}: {log[-300:]}'):
            continue
        ck.trace(1)
        import datetime
        day = lambda k: (datetime.date(y, 1, 1) + datetime.timedelta(doy - 1 + k)).strftime('%Y%m%d')
        leap = y % 4 == 0 and doy > 59
        judge(ck, what, out, h, v, [day(0)] + ([day(1)] if leap else []), 'MOD01' if kind == 'MOD' else 'MOD02', refl, state, geo, words, cls, expect)
        # the definition of the data cube agrees with the position of the tile
        if ck.expect(os.path.exists(out + '/datacube-definition.prj'), 'definition', f'{what}: no data cube definition'):
            t = dict(l.split(' = ', 1) for l in open(out + '/datacube-definition.prj').read().splitlines() if ' = ' in l)
            x0, y0, sx, sy = (float(t.get(k, 'nan')) for k in ('ORIGIN_MAP_X', 'ORIGIN_MAP_Y', 'TILE_SIZE_X', 'TILE_SIZE_Y'))
            ck.expect(abs(x0 + h * sx - geo[0]) < 1 and abs(y0 - v * sy - geo[1]) < 1, 'definition', f'{what}: tile {h} {v} of the data cube is at {x0 + h * sx} {y0 - v * sy}, the image at {geo}')
    # what is no such image is refused
    d = ck.dir('bad')
    good = glob.glob(os.path.dirname(fn) + '/*')[0]
    data = open(good, 'rb').read()
    for name, content, dest in (('MOD09GQ.A2017123.h18v04.006.x.hdf', data, True), ('MOD09GA.A2017123.h18v04.006.x.tif', data, True), ('MCD09GA.A2017123.h18v04.006.x.hdf', data, True), ('MOD09GA.A2017123.h18v04.006.y.hdf', b'none', True),
                                ('MOD09GA.A2017123.h18v04.006.z.hdf', data, False)):
        open(f'{d}/{name}', 'wb').write(content)
        out = ck.dir('out')
        rc, log = ck.run([ck.bin + '/force-import-modis', f'{d}/{name}', out if dest else out + '/missing'])
        left = glob.glob(out + '/**/*.tif', recursive=True)
        ck.expect(rc not in (0, 'timeout') and not left, 'refuse', f'{name} was imported (exit {rc}, {left})', log[-200:])
        ck.count(1)
    rc, log = ck.run([ck.bin + '/force-import-modis', f'{d}/none09GA.hdf', ck.dir('out')])
    ck.expect(rc not in (0, 'timeout'), 'refuse', f'an image that does not exist was imported (exit {rc})')
    ck.sample(dict(word=0, fields={f: int(words[f][0]) for f in FIELD}))
